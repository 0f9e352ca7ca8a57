// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/odd 100%d [x]/mod/pkg/two_test.go:10
func f31Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f31Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f31Same(a *Args) {
	func() { f31Nested(a, 3) }()
}

func f31Nested(a *Args, n int) {
	if n == 0 {
		f31Direct(a)
		return
	}
	f31Nested(a, n-1)
}

func f31Helper(a *Args) { h3Leaf(a) }
func f31Deep(a *Args)   { h3Deep(a, 40) }
func f31Util(a *Args)   { utilLeaf(a) }
func f31Dep(a *Args)    { depLeaf(a) }
func f31Other(a *Args)  { f32Direct(a) }

func f31Go(a *Args) {
	Join(a, func() { f31Direct(a) })
}

func f31GoHelper(a *Args) {
	Join(a, func() { h3Leaf(a) })
}

func f31Defer(a *Args) {
	defer func() { f31Direct(a) }()
}

func f31Iface(a *Args) {
	var c Checker = h3Svc{2}
	c.Check(a)
}

func f31Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f31Callback(a *Args) { utilCallback(f31Direct, a) }
func f31DepCall(a *Args)  { depCall(func(a *Args) { h3Leaf(a) }, a) }
