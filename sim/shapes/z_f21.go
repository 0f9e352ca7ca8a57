// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/pkg/deep/er/two_test.go:10
func f21Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f21Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f21Same(a *Args) {
	func() { f21Nested(a, 3) }()
}

func f21Nested(a *Args, n int) {
	if n == 0 {
		f21Direct(a)
		return
	}
	f21Nested(a, n-1)
}

func f21Helper(a *Args) { h2Leaf(a) }
func f21Deep(a *Args)   { h2Deep(a, 40) }
func f21Util(a *Args)   { utilLeaf(a) }
func f21Dep(a *Args)    { depLeaf(a) }
func f21Other(a *Args)  { f22Direct(a) }

func f21Go(a *Args) {
	Join(a, func() { f21Direct(a) })
}

func f21GoHelper(a *Args) {
	Join(a, func() { h2Leaf(a) })
}

func f21Defer(a *Args) {
	defer func() { f21Direct(a) }()
}

func f21Iface(a *Args) {
	var c Checker = h2Svc{2}
	c.Check(a)
}

func f21Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f21Callback(a *Args) { utilCallback(f21Direct, a) }
func f21DepCall(a *Args)  { depCall(func(a *Args) { h2Leaf(a) }, a) }
