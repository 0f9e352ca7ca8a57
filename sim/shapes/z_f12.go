// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/pkg/odd.name_test.go:10
func f12Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f12Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f12Same(a *Args) {
	func() { f12Nested(a, 3) }()
}

func f12Nested(a *Args, n int) {
	if n == 0 {
		f12Direct(a)
		return
	}
	f12Nested(a, n-1)
}

func f12Helper(a *Args) { h1Leaf(a) }
func f12Deep(a *Args)   { h1Deep(a, 40) }
func f12Util(a *Args)   { utilLeaf(a) }
func f12Dep(a *Args)    { depLeaf(a) }
func f12Other(a *Args)  { f10Direct(a) }

func f12Go(a *Args) {
	Join(a, func() { f12Direct(a) })
}

func f12GoHelper(a *Args) {
	Join(a, func() { h1Leaf(a) })
}

func f12Defer(a *Args) {
	defer func() { f12Direct(a) }()
}

func f12Iface(a *Args) {
	var c Checker = h1Svc{2}
	c.Check(a)
}

func f12Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f12Callback(a *Args) { utilCallback(f12Direct, a) }
func f12DepCall(a *Args)  { depCall(func(a *Args) { h1Leaf(a) }, a) }
