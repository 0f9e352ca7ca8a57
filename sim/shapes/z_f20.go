// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/pkg/deep/er/one_test.go:10
func f20Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f20Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f20Same(a *Args) {
	func() { f20Nested(a, 3) }()
}

func f20Nested(a *Args, n int) {
	if n == 0 {
		f20Direct(a)
		return
	}
	f20Nested(a, n-1)
}

func f20Helper(a *Args) { h2Leaf(a) }
func f20Deep(a *Args)   { h2Deep(a, 40) }
func f20Util(a *Args)   { utilLeaf(a) }
func f20Dep(a *Args)    { depLeaf(a) }
func f20Other(a *Args)  { f21Direct(a) }

func f20Go(a *Args) {
	Join(a, func() { f20Direct(a) })
}

func f20GoHelper(a *Args) {
	Join(a, func() { h2Leaf(a) })
}

func f20Defer(a *Args) {
	defer func() { f20Direct(a) }()
}

func f20Iface(a *Args) {
	var c Checker = h2Svc{2}
	c.Check(a)
}

func f20Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f20Callback(a *Args) { utilCallback(f20Direct, a) }
func f20DepCall(a *Args)  { depCall(func(a *Args) { h2Leaf(a) }, a) }
