// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/mod/pkg/deep/er/odd.name_test.go:10
func f22Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f22Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f22Same(a *Args) {
	func() { f22Nested(a, 3) }()
}

func f22Nested(a *Args, n int) {
	if n == 0 {
		f22Direct(a)
		return
	}
	f22Nested(a, n-1)
}

func f22Helper(a *Args) { h2Leaf(a) }
func f22Deep(a *Args)   { h2Deep(a, 40) }
func f22Util(a *Args)   { utilLeaf(a) }
func f22Dep(a *Args)    { depLeaf(a) }
func f22Other(a *Args)  { f20Direct(a) }

func f22Go(a *Args) {
	Join(a, func() { f22Direct(a) })
}

func f22GoHelper(a *Args) {
	Join(a, func() { h2Leaf(a) })
}

func f22Defer(a *Args) {
	defer func() { f22Direct(a) }()
}

func f22Iface(a *Args) {
	var c Checker = h2Svc{2}
	c.Check(a)
}

func f22Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f22Callback(a *Args) { utilCallback(f22Direct, a) }
func f22DepCall(a *Args)  { depCall(func(a *Args) { h2Leaf(a) }, a) }
