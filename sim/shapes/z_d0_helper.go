// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
)

//line /sim/mod/helper.go:10
func h0Leaf(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func h0Deep(a *Args, n int) {
	if n > 0 {
		h0Deep(a, n-1)
		return
	}
	h0Leaf(a)
}

type h0Svc struct{ n int }

func (s h0Svc) Check(a *Args) { h0Deep(a, s.n) }
