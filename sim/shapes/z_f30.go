// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/odd 100%d [x]/mod/pkg/one_test.go:10
func f30Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f30Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f30Same(a *Args) {
	func() { f30Nested(a, 3) }()
}

func f30Nested(a *Args, n int) {
	if n == 0 {
		f30Direct(a)
		return
	}
	f30Nested(a, n-1)
}

func f30Helper(a *Args) { h3Leaf(a) }
func f30Deep(a *Args)   { h3Deep(a, 40) }
func f30Util(a *Args)   { utilLeaf(a) }
func f30Dep(a *Args)    { depLeaf(a) }
func f30Other(a *Args)  { f31Direct(a) }

func f30Go(a *Args) {
	Join(a, func() { f30Direct(a) })
}

func f30GoHelper(a *Args) {
	Join(a, func() { h3Leaf(a) })
}

func f30Defer(a *Args) {
	defer func() { f30Direct(a) }()
}

func f30Iface(a *Args) {
	var c Checker = h3Svc{2}
	c.Check(a)
}

func f30Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f30Callback(a *Args) { utilCallback(f30Direct, a) }
func f30DepCall(a *Args)  { depCall(func(a *Args) { h3Leaf(a) }, a) }
