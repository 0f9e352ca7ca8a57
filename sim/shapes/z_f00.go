// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/one_test.go:10
func f00Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f00Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f00Same(a *Args) {
	func() { f00Nested(a, 3) }()
}

func f00Nested(a *Args, n int) {
	if n == 0 {
		f00Direct(a)
		return
	}
	f00Nested(a, n-1)
}

func f00Helper(a *Args) { h0Leaf(a) }
func f00Deep(a *Args)   { h0Deep(a, 40) }
func f00Util(a *Args)   { utilLeaf(a) }
func f00Dep(a *Args)    { depLeaf(a) }
func f00Other(a *Args)  { f01Direct(a) }

func f00Go(a *Args) {
	Join(a, func() { f00Direct(a) })
}

func f00GoHelper(a *Args) {
	Join(a, func() { h0Leaf(a) })
}

func f00Defer(a *Args) {
	defer func() { f00Direct(a) }()
}

func f00Iface(a *Args) {
	var c Checker = h0Svc{2}
	c.Check(a)
}

func f00Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f00Callback(a *Args) { utilCallback(f00Direct, a) }
func f00DepCall(a *Args)  { depCall(func(a *Args) { h0Leaf(a) }, a) }
