// Package stest is the simulated test runner: the scheduling, naming, skipping, parallelism, cleanup
// and -count behaviour of the standard testing package, on simulator tasks instead of goroutines.
package stest

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

// Event is something a test reported.
type Event struct {
	Test string
	Iter int
	Call int // harness call during which it was reported (0: none)
	Task int
	Kind string // log, error, skip
	Text string
}

// Runner runs one simulated test binary.
type Runner struct {
	Run      string
	Count    int
	Parallel int

	Events []Event
	Ran    []string // full names of the tests whose body was entered, per iteration
	Iter   int

	m       *matcher
	running int
	max     int
	mu      byte
	dirs    int
}

type Test struct {
	Name string
	F    func(*T)
}

type T struct {
	r        *Runner
	parent   *T
	level    int
	name     string
	barrier  bool // parent body finished: parallel subtests may go
	sub      []*T
	cleanups []func()

	isParallel bool
	signaled   bool // child reported to the parent (done or parallel)
	finished   bool
	complete   bool
	failed     bool
	skipped    bool
	ran        bool
	inClean    bool
	depth      int

	mu, sig, bar byte
	iter         int
}

// Main runs the tests the way testing.M.Run does and returns the exit code.
func (r *Runner) Main(tests []Test) int {
	ok := true
	r.max = r.Parallel
	if r.max <= 0 {
		r.max = 8
	}
	if r.Count == 0 {
		r.Count = 1
	}
	for i := 0; i < r.Count; i++ {
		r.Iter = i + 1
		r.m = newMatcher(r.Run)
		r.running = 1
		root := &T{r: r, iter: r.Iter}
		tRunner(root, func(t *T) {
			for _, x := range tests {
				t.Run(x.Name, x.F)
			}
		})
		ok = ok && !root.failed
		if !root.ran && i == 0 {
			break // "no tests to run"
		}
	}
	if !ok {
		return 1
	}
	return 0
}

func (r *Runner) event(t *T, kind, text string) {
	e := Event{Test: t.name, Iter: t.iter, Kind: kind, Text: text}
	if c := simrt.Cur(); c != nil {
		if simrt.Dead() {
			return
		}
		e.Call, e.Task = c.Call, c.ID
	}
	r.Events = append(r.Events, e)
}

func (r *Runner) waitParallel() {
	simrt.HBAcquire(&r.mu)
	simrt.Park("waitparallel", "", func() bool { return r.running < r.max })
	r.running++
	simrt.HBAcquire(&r.mu)
	simrt.HBRelease(&r.mu)
}

func (r *Runner) release() {
	simrt.HBAcquire(&r.mu)
	r.running--
	simrt.HBRelease(&r.mu)
}

// tRunner is the bottom of every test's stack, as in the standard library.
//
//go:noinline
func tRunner(t *T, fn func(t *T)) {
	defer func() {
		if p := recover(); p != nil {
			panic(p) // a panicking test takes the process down, as it does for real
		}
		if simrt.Dead() {
			return
		}
		if len(t.sub) > 0 {
			t.r.release()
			simrt.HBRelease(&t.bar)
			t.barrier = true
			for _, s := range t.sub {
				s := s
				simrt.Park("waitsub", s.name, func() bool { return s.finished })
				if simrt.Dead() {
					return
				}
				simrt.HBAcquire(&s.sig)
			}
			t.runCleanup()
			if !t.isParallel {
				t.r.waitParallel()
			}
		} else if t.isParallel {
			t.r.release()
		}
		if simrt.Dead() {
			return
		}
		t.complete = true
		if t.parent != nil {
			t.ran = true
		}
		simrt.HBRelease(&t.sig)
		t.finished = true
		t.signaled = true
	}()
	defer func() {
		if len(t.sub) == 0 && !simrt.Dead() {
			t.runCleanup()
		}
	}()
	fn(t)
}

func (t *T) runCleanup() {
	t.inClean = true
	defer func() { t.inClean = false }()
	// a cleanup that panics or exits does not stop the remaining ones
	defer func() {
		if len(t.cleanups) > 0 && !simrt.Dead() {
			t.runCleanup()
		}
	}()
	for len(t.cleanups) > 0 && !simrt.Dead() {
		f := t.cleanups[len(t.cleanups)-1]
		t.cleanups = t.cleanups[:len(t.cleanups)-1]
		f()
	}
}

// Run is testing.T.Run.
func (t *T) Run(name string, f func(*T)) bool {
	full, ok, _ := t.r.m.fullName(t, name)
	if !ok {
		return true
	}
	c := &T{r: t.r, parent: t, level: t.level + 1, name: full, iter: t.iter}
	for p := t; p != nil; p = p.parent {
		p.ran = true
	}
	t.r.Ran = append(t.r.Ran, full)
	simrt.GoNamed(full, func() {
		simrt.SetUser(c)
		tRunner(c, f)
	})
	simrt.Park("waitchild", full, func() bool { return c.signaled })
	if simrt.Dead() {
		runtime.Goexit()
	}
	simrt.HBAcquire(&c.sig)
	if c.finished && !c.complete {
		runtime.Goexit()
	}
	return !c.failed
}

// Parallel is testing.T.Parallel.
func (t *T) Parallel() {
	if t.isParallel {
		panic("testing: t.Parallel called multiple times")
	}
	t.isParallel = true
	t.parent.sub = append(t.parent.sub, t)
	simrt.HBRelease(&t.sig)
	t.signaled = true
	p := t.parent
	simrt.Park("parallel", t.name, func() bool { return p.barrier })
	simrt.HBAcquire(&p.bar)
	if simrt.Dead() {
		runtime.Goexit()
	}
	t.r.waitParallel()
}

func (t *T) lock(f func()) {
	simrt.HBAcquire(&t.mu)
	f()
	simrt.HBRelease(&t.mu)
}

func (t *T) Name() string { return t.name }
func (t *T) Helper()      {}

func (t *T) Cleanup(f func()) { t.lock(func() { t.cleanups = append(t.cleanups, f) }) }

func (t *T) Fail() {
	t.lock(func() {
		for p := t; p != nil; p = p.parent {
			p.failed = true
		}
	})
}
func (t *T) Failed() bool  { return t.failed }
func (t *T) Skipped() bool { return t.skipped }

func (t *T) FailNow() { t.Fail(); runtime.Goexit() }

func (t *T) log(kind, s string) { t.lock(func() { t.r.event(t, kind, s) }) }

func (t *T) Log(a ...any)              { t.log("log", fmt.Sprintln(a...)) }
func (t *T) Logf(f string, a ...any)   { t.log("log", fmt.Sprintf(f, a...)+"\n") }
func (t *T) Error(a ...any)            { t.log("error", fmt.Sprintln(a...)); t.Fail() }
func (t *T) Errorf(f string, a ...any) { t.log("error", fmt.Sprintf(f, a...)+"\n"); t.Fail() }
func (t *T) Fatal(a ...any)            { t.log("error", fmt.Sprintln(a...)); t.FailNow() }
func (t *T) Fatalf(f string, a ...any) { t.log("error", fmt.Sprintf(f, a...)+"\n"); t.FailNow() }
func (t *T) Skip(a ...any)             { t.log("skip", fmt.Sprintln(a...)); t.skipNow() }
func (t *T) Skipf(f string, a ...any)  { t.log("skip", fmt.Sprintf(f, a...)+"\n"); t.skipNow() }
func (t *T) SkipNow()                  { t.log("skip", ""); t.skipNow() }
func (t *T) skipNow()                  { t.skipped = true; runtime.Goexit() }

func (t *T) Deadline() (time.Time, bool) { return time.Time{}, false }
func (t *T) TempDir() string {
	t.r.dirs++
	d := fmt.Sprintf("/tmp/sim%03d", t.r.dirs)
	simrt.Mkdir("/tmp", 0o777)
	simrt.Mkdir(d, 0o777)
	t.Cleanup(func() { simrt.RemoveAll(d) })
	return d
}
func (t *T) Setenv(k, v string) {
	old, had := simrt.LookupEnv(k)
	simrt.Setenv(k, v)
	t.Cleanup(func() {
		if had {
			simrt.Setenv(k, old)
		} else {
			simrt.Unsetenv(k)
		}
	})
}
func (t *T) Iter() int { return t.iter }

// Text joins the texts of events for messages.
func Text(es []Event) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "%s: %q; ", e.Kind, e.Text)
	}
	return b.String()
}

// SortedKeys is a helper for deterministic harness iteration.
func SortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
