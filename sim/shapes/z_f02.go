// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/odd.name_test.go:10
func f02Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f02Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f02Same(a *Args) {
	func() { f02Nested(a, 3) }()
}

func f02Nested(a *Args, n int) {
	if n == 0 {
		f02Direct(a)
		return
	}
	f02Nested(a, n-1)
}

func f02Helper(a *Args) { h0Leaf(a) }
func f02Deep(a *Args)   { h0Deep(a, 40) }
func f02Util(a *Args)   { utilLeaf(a) }
func f02Dep(a *Args)    { depLeaf(a) }
func f02Other(a *Args)  { f00Direct(a) }

func f02Go(a *Args) {
	Join(a, func() { f02Direct(a) })
}

func f02GoHelper(a *Args) {
	Join(a, func() { h0Leaf(a) })
}

func f02Defer(a *Args) {
	defer func() { f02Direct(a) }()
}

func f02Iface(a *Args) {
	var c Checker = h0Svc{2}
	c.Check(a)
}

func f02Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f02Callback(a *Args) { utilCallback(f02Direct, a) }
func f02DepCall(a *Args)  { depCall(func(a *Args) { h0Leaf(a) }, a) }
