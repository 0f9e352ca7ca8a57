// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/pkg/one_test.go:10
func f10Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f10Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f10Same(a *Args) {
	func() { f10Nested(a, 3) }()
}

func f10Nested(a *Args, n int) {
	if n == 0 {
		f10Direct(a)
		return
	}
	f10Nested(a, n-1)
}

func f10Helper(a *Args) { h1Leaf(a) }
func f10Deep(a *Args)   { h1Deep(a, 40) }
func f10Util(a *Args)   { utilLeaf(a) }
func f10Dep(a *Args)    { depLeaf(a) }
func f10Other(a *Args)  { f11Direct(a) }

func f10Go(a *Args) {
	Join(a, func() { f10Direct(a) })
}

func f10GoHelper(a *Args) {
	Join(a, func() { h1Leaf(a) })
}

func f10Defer(a *Args) {
	defer func() { f10Direct(a) }()
}

func f10Iface(a *Args) {
	var c Checker = h1Svc{2}
	c.Check(a)
}

func f10Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f10Callback(a *Args) { utilCallback(f10Direct, a) }
func f10DepCall(a *Args)  { depCall(func(a *Args) { h1Leaf(a) }, a) }
