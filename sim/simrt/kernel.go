// Package simrt is the simulator: a cooperative scheduler that owns every lock, file, clock
// reading, environment lookup and byte of stdout of one simulated test process, plus the disk
// that survives from process to process. It is compiled without race instrumentation
// (-gcflags=...=-race=false) so that, in the race build, only the memory accesses of the code
// under test are observed, and the hand-offs below create no happens-before edges.
package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- tasks

type Task struct {
	ID   int
	Name string
	// Call is the harness call this task is executing (0: none); used to attribute file operations.
	Call int
	// User is owned by the harness (the simulated testing.T of the task).
	User any

	wake   chan struct{}
	ready  func() bool
	step   func() bool // executed by the kernel; true when the operation is complete
	kind   string
	arg    string
	prio   int
	dead   bool
	sendNo int
	done   bool
}

// FSOp is one logged kernel operation.
type FSOp struct {
	N     int // index of the operation in the process
	Task  int
	Call  int
	Kind  string
	Path  string
	Mut   bool // changed the disk
	Fault string
	Err   string
	Len   int
}

// Fault asks for a failure at the Nth operation of Kind (1-based; "any" counts every op).
type Fault struct {
	Kind string
	Nth  int
	Mode string // errno name, "short", "crash", "jump", "torn"
	Arg  int
	// Call restricts counting to operations performed inside a Match* call (-1: inside Clean, 0: anywhere)
	Scope string // "", "call", "clean"
}

type Sched struct {
	Strat    string // "run" (stay on the current task), "random", "sticky", "pct", "rr"
	Seed     uint64
	YieldGap int   // 0: statement yields are not scheduling points
	Depth    int   // pct
	Picks    []int `json:",omitempty"` // explicit choices; when exhausted stay on the current task
	UsePicks bool  `json:",omitempty"`
}

// ProcSpec is everything that decides one simulated process besides the code and the disk.
type ProcSpec struct {
	Env      map[string]string
	Cwd      string
	Trimpath bool
	Flags    map[string]string
	Sched    Sched
	Faults   []Fault
	MapSeed  uint64
	Chunk    int // 0: reads and writes are whole; else torn into chunks of this many bytes
	StepNS   int64
	MaxSteps int
	ShortRd  bool // reads may legally return fewer bytes than asked
}

type Stats struct {
	Steps     int
	Decisions int // points where more than one task could run
	Switches  int
	Yields    int64
	Hash      uint64 // hash of the sequence of (task, operation) pairs
	SimNS     int64
	Faults    map[string]int
	MaxTasks  int
}

type ProcResult struct {
	Ops      []FSOp
	Stdout   []byte
	Stderr   []byte
	Crashed  bool
	ExitCode int
	Exited   bool
	Deadlock string // description of the blocked tasks, "" if none
	Livelock string
	Panic    string
	Picks    []int
	Stats    Stats
	Log      []string // full event log when Trace is set
}

type Kernel struct {
	FS   *FS
	spec ProcSpec

	toK   chan struct{}
	tasks []*Task
	cur   *Task
	last  *Task
	nextT int

	dead     bool
	clock    int64
	stdout   []byte
	stderr   []byte
	env      map[string]string
	cwd      string
	ops      []FSOp
	counts   map[string]int
	fcnt     []int
	picks    []int
	pickPos  int
	schedRng Rng
	mapRng   Rng
	rdRng    Rng
	yieldRng Rng
	yieldCnt int
	yields   int64
	yieldOn  bool
	stats    Stats
	res      *ProcResult
	pctPts   map[int]bool
	lowPrio  int
	parallel bool
	trace    bool
	log      []string
	handles  int
	inClean  bool
	msgs     []string
}

// K is the kernel of the running simulated process, nil outside of a simulation.
var K *Kernel

// Trace makes every process keep its full event log (determinism checks, replay).
var Trace bool

var raceSync byte

// ---------------------------------------------------------------- PRNG

type Rng struct{ s uint64 }

func NewRng(seed uint64) Rng { return Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Prob is true with probability a/b.
func (r *Rng) Prob(a, b int) bool { return r.Intn(b) < a }

// ---------------------------------------------------------------- process restart

type resetFn struct {
	path string
	fn   func()
}

var resets []resetFn

// RegisterReset is called once per instrumented package, in initialisation order.
func RegisterReset(path string, fn func()) { resets = append(resets, resetFn{path, fn}) }

// ResetGlobals re-runs the package initialisation of every instrumented package; it must be called
// from a task, as initialisers read the (simulated) environment.
func ResetGlobals() {
	for _, r := range resets {
		r.fn()
	}
}

// ---------------------------------------------------------------- running a process

// RunProc executes main as the root task of a fresh simulated process over fs.
func RunProc(fs *FS, spec ProcSpec, main func()) *ProcResult {
	k := &Kernel{
		FS: fs, spec: spec, toK: make(chan struct{}), env: map[string]string{}, cwd: spec.Cwd,
		counts: map[string]int{}, fcnt: make([]int, len(spec.Faults)),
		schedRng: NewRng(spec.Sched.Seed), mapRng: NewRng(spec.MapSeed), rdRng: NewRng(spec.MapSeed + 77),
		yieldRng: NewRng(spec.Sched.Seed ^ 0xabcdef), res: &ProcResult{}, trace: Trace,
	}
	for a, b := range spec.Env {
		k.env[a] = b
	}
	k.clock = fs.Clock
	k.stats.Faults = map[string]int{}
	if spec.Sched.Strat == "pct" {
		k.pctPts = map[int]bool{}
		for i := 0; i < spec.Sched.Depth; i++ {
			k.pctPts[1+k.schedRng.Intn(120)] = true
		}
	}
	if k.spec.MaxSteps == 0 {
		k.spec.MaxSteps = 4_000_000
	}
	k.yieldOn = spec.Sched.YieldGap > 0
	if k.yieldOn {
		k.yieldCnt = 1 + k.yieldRng.Intn(2*spec.Sched.YieldGap)
	}
	K = k
	chans = nil
	defer func() { K = nil }()
	root := k.newTask("main")
	k.cur = root
	startTask(root, main)
	k.loop()
	r := k.res
	r.Ops, r.Stdout, r.Stderr, r.Picks, r.Log = k.ops, k.stdout, k.stderr, k.picks, k.log
	k.stats.SimNS = k.clock - fs.Clock
	k.stats.Yields = k.yields
	fs.Clock = k.clock
	r.Stats = k.stats
	return r
}

func (k *Kernel) newTask(name string) *Task {
	k.nextT++
	t := &Task{ID: k.nextT, Name: name, wake: make(chan struct{})}
	t.prio = 1000 + k.schedRng.Intn(1000)
	k.tasks = append(k.tasks, t)
	if len(k.tasks) > k.stats.MaxTasks {
		k.stats.MaxTasks = len(k.tasks)
	}
	t.kind = "start"
	t.step = func() bool { return true }
	return t
}

//go:noinline
func startTask(t *Task, fn func()) {
	go taskMain(t, fn)
}

func taskMain(t *Task, fn func()) {
	defer taskExit(t)
	defer func() {
		if p := recover(); p != nil {
			if K.res.Panic == "" && !t.dead {
				K.res.Panic = fmt.Sprintf("panic in task %s: %v\n%s", t.Name, p, debug.Stack())
			}
			K.dead = true
		}
	}()
	recv(t.wake)
	if K.dead {
		t.dead = true
		return
	}
	fn()
}

func taskExit(t *Task) {
	t.done = true
	raceRelease()
	send(K.toK)
}

// loop is the kernel: it runs on the caller's goroutine and is the only one to touch kernel state.
func (k *Kernel) loop() {
	var run []*Task
	for {
		if k.dead {
			k.killAll()
			return
		}
		if k.tasks[0].done { // main returned: whatever still runs dies with the process
			k.dead = true
			continue
		}
		run = run[:0]
		for pass := 0; pass < 2 && len(run) == 0; pass++ { // one task's wait may be what another waits for
			for _, t := range k.tasks {
				if !t.done && (t.ready == nil || t.ready()) {
					run = append(run, t)
				}
			}
		}
		if len(run) == 0 {
			var b strings.Builder
			for _, t := range k.tasks {
				if !t.done {
					fmt.Fprintf(&b, "%s blocked in %s %s; ", t.Name, t.kind, t.arg)
				}
			}
			k.res.Deadlock = b.String()
			k.dead = true
			continue
		}
		t := k.choose(run)
		k.stats.Steps++
		if k.stats.Steps > k.spec.MaxSteps {
			k.res.Livelock = "step limit reached at " + t.kind + " " + t.arg
			k.dead = true
			continue
		}
		step := k.spec.StepNS
		if step == 0 {
			step = 1000
		}
		k.clock += step
		h := k.stats.Hash
		h = (h ^ uint64(t.ID)) * 0x100000001b3
		for i := 0; i < len(t.kind); i++ {
			h = (h ^ uint64(t.kind[i])) * 0x100000001b3
		}
		k.stats.Hash = h
		if k.trace {
			k.log = append(k.log, fmt.Sprintf("%d t%d(%s) %s %s", k.stats.Steps, t.ID, t.Name, t.kind, t.arg))
		}
		k.cur = t
		if t.kind != "yield" && t.kind != "start" {
			for i := range k.spec.Faults {
				f := &k.spec.Faults[i]
				if f.Kind == "any" {
					if !k.scopeOK(f, t) {
						continue
					}
					k.fcnt[i]++
					if k.fcnt[i] == f.Nth {
						k.stats.Faults[f.Mode]++
						switch f.Mode {
						case "crash":
							k.res.Crashed = true
							k.dead = true
						case "jump":
							k.clock += int64(f.Arg) * 1e6
						}
					}
				}
			}
			if k.dead {
				continue
			}
		}
		fin := t.step == nil || t.step()
		if k.dead {
			continue
		}
		if !fin {
			continue
		}
		t.step, t.ready = nil, nil
		send(t.wake)
		recv(k.toK)
		raceAcquire()
	}
}

func (k *Kernel) scopeOK(f *Fault, t *Task) bool {
	switch f.Scope {
	case "call":
		return t.Call > 0
	case "clean":
		return t.Call == -1
	}
	return true
}

func (k *Kernel) choose(run []*Task) *Task {
	if len(run) == 1 {
		if run[0] != k.last {
			k.last = run[0]
		}
		return run[0]
	}
	k.stats.Decisions++
	s := &k.spec.Sched
	idx := -1
	stay := 0
	for i, t := range run {
		if t == k.last {
			stay = i
		}
	}
	if s.UsePicks {
		idx = stay
		if k.pickPos < len(s.Picks) {
			if p := s.Picks[k.pickPos]; p >= 0 && p < len(run) {
				idx = p
			}
		}
		k.pickPos++
	} else {
		switch s.Strat {
		case "random":
			idx = k.schedRng.Intn(len(run))
		case "sticky":
			idx = stay
			if k.schedRng.Prob(1, 6) {
				idx = k.schedRng.Intn(len(run))
			}
		case "rr":
			idx = (stay + 1) % len(run)
		case "pct":
			best := 0
			for i, t := range run {
				if t.prio > run[best].prio {
					best = i
				}
			}
			idx = best
			if k.pctPts[k.stats.Decisions] {
				k.lowPrio--
				run[idx].prio = k.lowPrio
			}
		default:
			idx = stay
		}
	}
	k.picks = append(k.picks, idx)
	if run[idx] != k.last {
		k.stats.Switches++
	}
	k.last = run[idx]
	return run[idx]
}

func (k *Kernel) killAll() {
	k.dead = true
	for i := 0; i < len(k.tasks); i++ {
		t := k.tasks[i]
		if t.done {
			continue
		}
		k.cur = t
		t.step, t.ready = nil, nil
		send(t.wake)
		recv(k.toK)
		raceAcquire()
	}
}

// ---------------------------------------------------------------- task side

// Cur returns the running task (nil outside a simulation).
//
//go:noinline
func Cur() *Task {
	if K == nil {
		return nil
	}
	return K.cur
}

// do executes one kernel operation. It returns false when there is no simulation or the process is
// being killed: the operation did not happen.
//
//go:noinline
func do(kind, arg string, ready func() bool, step func() bool) bool {
	k := K
	if k == nil {
		return false
	}
	t := k.cur
	if t.dead {
		return false
	}
	if k.dead { // killed from within this very step (os.Exit, panic elsewhere)
		t.dead = true
		runtime.Goexit()
	}
	t.kind, t.arg, t.ready, t.step = kind, arg, ready, step
	raceRelease()
	send(k.toK)
	recv(t.wake)
	if k.dead {
		t.dead = true
		runtime.Goexit()
	}
	return true
}

func do1(kind, arg string, step func()) bool {
	return do(kind, arg, nil, func() bool { step(); return true })
}

// Y is a statement-level yield inserted by the instrumenter.
func Y() {
	if ySlow {
		yield()
	}
}

var ySlow = true

//go:noinline
func yield() {
	k := K
	if k == nil || k.cur.dead {
		return
	}
	k.yields++
	if k.yields > 200_000_000 {
		k.res.Livelock = "statement budget exhausted"
		k.dead = true
		k.cur.dead = true
		runtime.Goexit()
	}
	if !k.yieldOn {
		return
	}
	k.yieldCnt--
	if k.yieldCnt > 0 {
		return
	}
	k.yieldCnt = 1 + k.yieldRng.Intn(2*k.spec.Sched.YieldGap)
	do("yield", "", nil, nil)
}

// Go starts a new task.
//
//go:noinline
func Go(fn func()) { GoNamed("go", fn) }

//go:noinline
func GoNamed(name string, fn func()) {
	k := K
	if k == nil {
		return // the worker's own package initialisation, which every simulated process runs again
	}
	p := k.cur
	if p.dead {
		return
	}
	var nt *Task
	do1("spawn", name, func() {
		nt = k.newTask(name)
		nt.User = p.User
		nt.Call = 0
	})
	startTask(nt, fn)
}

// Park blocks the current task until ready() holds (evaluated by the kernel).
//
//go:noinline
func Park(kind, arg string, ready func() bool) bool { return do(kind, arg, ready, nil) }

// Step runs fn as one atomic kernel operation.
//
//go:noinline
func Step(kind string, fn func()) bool { return do1(kind, "", fn) }

// Dead reports whether the current task is being torn down.
//
//go:noinline
func Dead() bool { return K != nil && K.cur != nil && K.cur.dead }

// Exit kills the whole simulated process.
//
//go:noinline
func Exit(code int) {
	if K == nil {
		panic(fmt.Sprintf("os.Exit(%d) outside the simulation", code))
	}
	do1("exit", "", func() { K.res.Exited, K.res.ExitCode = true, code; K.dead = true })
	runtime.Goexit()
}

// SetCall marks the current task as executing harness call id.
//
//go:noinline
func SetCall(id int) {
	if K != nil {
		K.cur.Call = id
	}
}

// OpIndex is the number of logged operations so far.
//
//go:noinline
func OpIndex() int { return len(K.ops) }

// Snapshot copies the disk.
//
//go:noinline
func Snapshot() map[string][]byte {
	var m map[string][]byte
	do1("snapshot", "", func() { m = K.FS.Files() })
	return m
}

// Note appends a harness note to the event log.
//
//go:noinline
func Note(s string) {
	if K != nil && K.trace {
		K.log = append(K.log, s)
	}
}

// ---------------------------------------------------------------- clock, env, stdout

//go:noinline
func Now() time.Time {
	k := K
	if k == nil {
		return time.Unix(1_700_000_000, 0)
	}
	// Computation takes time too: reading the clock costs simulated milliseconds, so a loop that polls
	// a deadline reaches it.
	var n int64
	if !do1("now", "", func() { k.clock += int64(2 * time.Millisecond); n = k.clock }) {
		n = k.clock
	}
	return time.Unix(1_700_000_000, n).UTC()
}

//go:noinline
func Sleep(d time.Duration) {
	k := K
	if k == nil {
		return
	}
	var until int64
	do1("sleep", "", func() { until = k.clock + int64(d) })
	do("sleeping", "", func() bool {
		if k.clock >= until {
			return true
		}
		// discrete-event time: jump when nothing else is runnable
		for _, t := range k.tasks {
			if !t.done && t.kind != "sleeping" && (t.ready == nil || t.ready()) {
				return false
			}
		}
		k.clock = until
		return true
	}, nil)
}

//go:noinline
func LookupEnv(key string) (string, bool) {
	k := K
	if k == nil {
		return "", false
	}
	var v string
	var ok bool
	do1("getenv", key, func() { v, ok = k.env[key] })
	return v, ok
}

//go:noinline
func Setenv(key, val string) {
	if K != nil {
		do1("setenv", key, func() { K.env[key] = val })
	}
}

//go:noinline
func Unsetenv(key string) {
	if K != nil {
		do1("unsetenv", key, func() { delete(K.env, key) })
	}
}

//go:noinline
func Environ() []string {
	var out []string
	if K != nil {
		do1("environ", "", func() {
			for a, b := range K.env {
				out = append(out, a+"="+b)
			}
			sort.Strings(out)
		})
	}
	return out
}

//go:noinline
func WriteStd(errStream bool, b []byte) bool {
	k := K
	if k == nil {
		return false
	}
	c := string(b)
	return do1("stdout", "", func() {
		if errStream {
			k.stderr = append(k.stderr, c...)
		} else {
			k.stdout = append(k.stdout, c...)
		}
	})
}

//go:noinline
func Getwd() string {
	if K == nil {
		return "/"
	}
	d := K.cwd
	do1("getwd", "", func() { d = K.cwd })
	return d
}

//go:noinline
func Chdir(d string) error {
	if K == nil {
		return syscall.ENOSYS
	}
	var err error = syscall.EIO
	do1("chdir", d, func() {
		p := K.abs(d)
		n, e := K.FS.lookup(p)
		if e != 0 {
			err = e
			return
		}
		if !n.dir {
			err = syscall.ENOTDIR
			return
		}
		K.cwd = p
		err = nil
	})
	return err
}

//go:noinline
func Trimpath() bool { return K != nil && K.spec.Trimpath }

// ---------------------------------------------------------------- map iteration order

type MapEntry[M ~map[K]V, K comparable, V any] struct {
	M M
	K K
}

// MapEntries lists m in an order decided by the simulator's seed.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []MapEntry[M, K, V] {
	out := make([]MapEntry[M, K, V], 0, len(m))
	for k := range m {
		out = append(out, MapEntry[M, K, V]{m, k})
	}
	sortKeys(len(out), func(i int) any { return out[i].K }, func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

type keySorter struct {
	s    []string
	swap func(i, j int)
}

func (k keySorter) Len() int           { return len(k.s) }
func (k keySorter) Less(i, j int) bool { return k.s[i] < k.s[j] }
func (k keySorter) Swap(i, j int)      { k.s[i], k.s[j] = k.s[j], k.s[i]; k.swap(i, j) }

//go:noinline
func sortKeys(n int, key func(int) any, swap func(i, j int)) {
	ks := keySorter{make([]string, n), swap}
	for i := range ks.s {
		a := key(i)
		if s, ok := a.(string); ok {
			ks.s[i] = s
		} else if v := reflect.ValueOf(a); v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64 {
			ks.s[i] = fmt.Sprintf("%020d", v.Int())
		} else {
			ks.s[i] = fmt.Sprintf("%#v", a)
		}
	}
	sort.Stable(ks)
	if K == nil {
		return
	}
	seeds := make([]int, n)
	do1("maporder", "", func() {
		for i := range seeds {
			seeds[i] = K.mapRng.Intn(i + 1)
		}
	})
	for i := n - 1; i > 0; i-- {
		swap(i, seeds[i])
	}
}

// RandU64 serves shadowed math/rand.
//
//go:noinline
func RandU64() uint64 {
	if K == nil {
		return 4
	}
	var v uint64
	do1("rand", "", func() { v = K.mapRng.U64() })
	return v
}

var _ = unsafe.Pointer(nil)

// SetUser attaches harness data to the current task; tasks it spawns inherit it.
//
//go:noinline
func SetUser(u any) {
	if K != nil {
		K.cur.User = u
	}
}

// StdoutLen and StdoutFrom give the harness the text printed between two points.
//
//go:noinline
func StdoutLen() int { return len(K.stdout) }

//go:noinline
func StdoutFrom(n int) []byte { return append([]byte(nil), K.stdout[n:]...) }
