// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/pkg/two_test.go:10
func f11Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f11Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f11Same(a *Args) {
	func() { f11Nested(a, 3) }()
}

func f11Nested(a *Args, n int) {
	if n == 0 {
		f11Direct(a)
		return
	}
	f11Nested(a, n-1)
}

func f11Helper(a *Args) { h1Leaf(a) }
func f11Deep(a *Args)   { h1Deep(a, 40) }
func f11Util(a *Args)   { utilLeaf(a) }
func f11Dep(a *Args)    { depLeaf(a) }
func f11Other(a *Args)  { f12Direct(a) }

func f11Go(a *Args) {
	Join(a, func() { f11Direct(a) })
}

func f11GoHelper(a *Args) {
	Join(a, func() { h1Leaf(a) })
}

func f11Defer(a *Args) {
	defer func() { f11Direct(a) }()
}

func f11Iface(a *Args) {
	var c Checker = h1Svc{2}
	c.Check(a)
}

func f11Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f11Callback(a *Args) { utilCallback(f11Direct, a) }
func f11DepCall(a *Args)  { depCall(func(a *Args) { h1Leaf(a) }, a) }
