// Package shapes holds the call sites from which simulated tests call go-snaps: directly from a
// test file, through helpers, goroutines, deferred functions, other packages, and so on.
package shapes

import (
	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/simrt"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

const (
	KSnap = iota
	KJSON
	KYAML
	KSSnap
	KSJSON
)

// TB is what go-snaps needs of a test.
type TB interface {
	Helper()
	Skip(...any)
	Skipf(string, ...any)
	SkipNow()
	Name() string
	Error(...any)
	Log(...any)
	Cleanup(func())
}

// What users wrap a *testing.T in.
type (
	ptrT struct {
		*stest.T
		calls int
	}
	valT    struct{ *stest.T }
	bufferT struct {
		*stest.T
		out []string
	}
)

// Wrap is the test as a user may hand it over: itself, or inside a value made for this one call.
func Wrap(t *stest.T, kind int) TB {
	switch kind {
	case 1:
		return &ptrT{T: t}
	case 2:
		return valT{t}
	case 3:
		return bufferT{T: t}
	}
	return t
}

type Args struct {
	T    TB
	C    *snaps.Config
	Kind int
	Vals []any
	In   any
	JM   []match.JSONMatcher
	YM   []match.YAMLMatcher
	Call int
}

type File struct {
	Dir, Name string
	Test      func(run func(*stest.T)) func(*stest.T)
	Shapes    map[string]func(*Args)
}

// TestFiles is the number of test files in each simulated package. One more file, not a test file,
// holds functions that are given to t.Run.
const (
	TestFiles   = 3
	FilesPerDir = TestFiles + 1
)

type Checker interface{ Check(*Args) }

// Join runs f in another task of the simulated process and waits for it.
func Join(a *Args, f func()) {
	done := false
	var hb byte
	simrt.GoNamed("goroutine", func() {
		simrt.SetCall(a.Call)
		f()
		simrt.HBRelease(&hb)
		done = true
	})
	simrt.Park("join", "", func() bool { return done })
	simrt.HBAcquire(&hb)
}
