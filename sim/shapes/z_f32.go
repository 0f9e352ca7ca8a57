// Code generated by tools/genshapes; DO NOT EDIT.
package shapes

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

//line /sim/odd 100%d [x]/mod/pkg/odd.name_test.go:10
func f32Test(run func(*stest.T)) func(*stest.T) {
	return func(t *stest.T) { run(t) }
}

func f32Direct(a *Args) {
	switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
}

func f32Same(a *Args) {
	func() { f32Nested(a, 3) }()
}

func f32Nested(a *Args, n int) {
	if n == 0 {
		f32Direct(a)
		return
	}
	f32Nested(a, n-1)
}

func f32Helper(a *Args) { h3Leaf(a) }
func f32Deep(a *Args)   { h3Deep(a, 40) }
func f32Util(a *Args)   { utilLeaf(a) }
func f32Dep(a *Args)    { depLeaf(a) }
func f32Other(a *Args)  { f30Direct(a) }

func f32Go(a *Args) {
	Join(a, func() { f32Direct(a) })
}

func f32GoHelper(a *Args) {
	Join(a, func() { h3Leaf(a) })
}

func f32Defer(a *Args) {
	defer func() { f32Direct(a) }()
}

func f32Iface(a *Args) {
	var c Checker = h3Svc{2}
	c.Check(a)
}

func f32Generic(a *Args)  { utilGeneric(struct{}{}, a) }
func f32Callback(a *Args) { utilCallback(f32Direct, a) }
func f32DepCall(a *Args)  { depCall(func(a *Args) { h3Leaf(a) }, a) }
