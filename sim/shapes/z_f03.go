// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/suite.go:10
func f03Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f03Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f03Same(a *Args) {
	func() { f03Nested(a, 3) }()
}

func f03Nested(a *Args, n int) {
	if n == 0 {
		f03Direct(a)
		return
	}
	f03Nested(a, n-1)
}

func f03Helper(a *Args) { h0Leaf(a) }
func f03Deep(a *Args)   { h0Deep(a, 40) }
func f03Util(a *Args)   { utilLeaf(a) }
func f03Dep(a *Args)    { depLeaf(a) }
func f03Other(a *Args)  { f01Direct(a) }

func f03Go(a *Args) {
	func(a *Args, f func()) { f() }(a, func() { f03Direct(a) })
}

func f03GoHelper(a *Args) {
	func(a *Args, f func()) { f() }(a, func() { h0Leaf(a) })
}

func f03Defer(a *Args) {
	defer func() { f03Direct(a) }()
}

func f03Iface(a *Args) {
	var c Checker = h0Svc{2}
	c.Check(a)
}

func f03Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f03Callback(a *Args) { utilCallback(f03Direct, a) }
func f03DepCall(a *Args)  { depCall(func(a *Args) { h0Leaf(a) }, a) }
