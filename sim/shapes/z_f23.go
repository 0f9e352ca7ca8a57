// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/pkg/deep/er/suite.go:10
func f23Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f23Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f23Same(a *Args) {
	func() { f23Nested(a, 3) }()
}

func f23Nested(a *Args, n int) {
	if n == 0 {
		f23Direct(a)
		return
	}
	f23Nested(a, n-1)
}

func f23Helper(a *Args) { h2Leaf(a) }
func f23Deep(a *Args)   { h2Deep(a, 40) }
func f23Util(a *Args)   { utilLeaf(a) }
func f23Dep(a *Args)    { depLeaf(a) }
func f23Other(a *Args)  { f21Direct(a) }

func f23Go(a *Args) {
	func(a *Args, f func()) { f() }(a, func() { f23Direct(a) })
}

func f23GoHelper(a *Args) {
	func(a *Args, f func()) { f() }(a, func() { h2Leaf(a) })
}

func f23Defer(a *Args) {
	defer func() { f23Direct(a) }()
}

func f23Iface(a *Args) {
	var c Checker = h2Svc{2}
	c.Check(a)
}

func f23Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f23Callback(a *Args) { utilCallback(f23Direct, a) }
func f23DepCall(a *Args)  { depCall(func(a *Args) { h2Leaf(a) }, a) }
