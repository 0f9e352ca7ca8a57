// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/pkg/suite.go:10
func f13Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f13Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f13Same(a *Args) {
	func() { f13Nested(a, 3) }()
}

func f13Nested(a *Args, n int) {
	if n == 0 {
		f13Direct(a)
		return
	}
	f13Nested(a, n-1)
}

func f13Helper(a *Args) { h1Leaf(a) }
func f13Deep(a *Args)   { h1Deep(a, 40) }
func f13Util(a *Args)   { utilLeaf(a) }
func f13Dep(a *Args)    { depLeaf(a) }
func f13Other(a *Args)  { f11Direct(a) }

func f13Go(a *Args) {
	func(a *Args, f func()) { f() }(a, func() { f13Direct(a) })
}

func f13GoHelper(a *Args) {
	func(a *Args, f func()) { f() }(a, func() { h1Leaf(a) })
}

func f13Defer(a *Args) {
	defer func() { f13Direct(a) }()
}

func f13Iface(a *Args) {
	var c Checker = h1Svc{2}
	c.Check(a)
}

func f13Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f13Callback(a *Args) { utilCallback(f13Direct, a) }
func f13DepCall(a *Args)  { depCall(func(a *Args) { h1Leaf(a) }, a) }
