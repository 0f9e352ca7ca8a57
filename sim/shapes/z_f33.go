// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/odd 100%d [x]/mod/pkg/suite.go:10
func f33Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f33Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f33Same(a *Args) {
	func() { f33Nested(a, 3) }()
}

func f33Nested(a *Args, n int) {
	if n == 0 {
		f33Direct(a)
		return
	}
	f33Nested(a, n-1)
}

func f33Helper(a *Args) { h3Leaf(a) }
func f33Deep(a *Args)   { h3Deep(a, 40) }
func f33Util(a *Args)   { utilLeaf(a) }
func f33Dep(a *Args)    { depLeaf(a) }
func f33Other(a *Args)  { f31Direct(a) }

func f33Go(a *Args) {
	func(a *Args, f func()) { f() }(a, func() { f33Direct(a) })
}

func f33GoHelper(a *Args) {
	func(a *Args, f func()) { f() }(a, func() { h3Leaf(a) })
}

func f33Defer(a *Args) {
	defer func() { f33Direct(a) }()
}

func f33Iface(a *Args) {
	var c Checker = h3Svc{2}
	c.Check(a)
}

func f33Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f33Callback(a *Args) { utilCallback(f33Direct, a) }
func f33DepCall(a *Args)  { depCall(func(a *Args) { h3Leaf(a) }, a) }
