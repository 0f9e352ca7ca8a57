// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/two_test.go:10
func f01Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f01Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f01Same(a *Args) {
	func() { f01Nested(a, 3) }()
}

func f01Nested(a *Args, n int) {
	if n == 0 {
		f01Direct(a)
		return
	}
	f01Nested(a, n-1)
}

func f01Helper(a *Args) { h0Leaf(a) }
func f01Deep(a *Args)   { h0Deep(a, 40) }
func f01Util(a *Args)   { utilLeaf(a) }
func f01Dep(a *Args)    { depLeaf(a) }
func f01Other(a *Args)  { f02Direct(a) }

func f01Go(a *Args) {
	Join(a, func() { f01Direct(a) })
}

func f01GoHelper(a *Args) {
	Join(a, func() { h0Leaf(a) })
}

func f01Defer(a *Args) {
	defer func() { f01Direct(a) }()
}

func f01Iface(a *Args) {
	var c Checker = h0Svc{2}
	c.Check(a)
}

func f01Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f01Callback(a *Args) { utilCallback(f01Direct, a) }
func f01DepCall(a *Args)  { depCall(func(a *Args) { h0Leaf(a) }, a) }
