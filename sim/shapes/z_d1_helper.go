// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
)

//line /sim/mod/pkg/my_test_helper.go:10
func h1Leaf(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func h1Deep(a *Args, n int) {
	if n > 0 {
		h1Deep(a, n-1)
		return
	}
	h1Leaf(a)
}

type h1Svc struct{ n int }

func (s h1Svc) Check(a *Args) { h1Deep(a, s.n) }
