package harness

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/verifsim/shadow/flag"
	"github.com/gkampitakis/go-snaps/verifsim/shapes"
	"github.com/gkampitakis/go-snaps/verifsim/simrt"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
)

// Call is one Match* call as it happened.
type Call struct {
	ID    int
	Op    *Op
	Test  string
	Iter  int
	File  int
	Seq   int // position in the history
	K     int // ordinal within this execution of the test, per snapshot file
	Path  string
	Suf   string // standalone: Path is the prefix
	Start int
	End   int
	Done  bool
	Dirty string // how the caller's own bytes were changed

	Events []stest.Event
	FSOps  []simrt.FSOp
}

// Slot is the file a standalone call addresses.
func (c *Call) Slot() string {
	if c.Op.standalone() {
		return c.Path + strconv.Itoa(c.K) + c.Suf
	}
	return c.Path
}

type SkipRec struct {
	Test string
	Call int
	Iter int
}

type CleanRes struct {
	Sort     bool
	Out      string
	Before   map[string][]byte
	After    map[string][]byte
	OpStart  int
	OpEnd    int
	Finished bool
}

// RunRes is everything observed about one simulated process.
type RunRes struct {
	Proc   *simrt.ProcResult
	Calls  []*Call
	Skips  []SkipRec
	Events []stest.Event
	Ran    []string
	Before map[string][]byte
	After  map[string][]byte // before Clean; nil when the process died earlier
	End    map[string][]byte
	Cleans []CleanRes
	Races  int
	Iters  int
}

type sharedBuf struct {
	id      int
	b, orig []byte
}

type sharedMatcher struct {
	id int
	m  bothMatcher
}

type execer struct {
	p    *Plan
	r    *RunSpec
	res  *RunRes
	cfgs []*snaps.Config
	// slices, not maps: map accesses are instrumented by the runtime itself, also here
	bufs []sharedBuf
	ms   []sharedMatcher
	next int
}

func (p *Plan) dirName() string { return shapes.Dirs[p.Dir] }

// startDir is where the test process starts.
func (p *Plan) startDir(r *RunSpec) string {
	if r.Start != "" && !r.Trim {
		return r.Start
	}
	return p.dirName()
}

// setup writes the initial disk.
func (p *Plan) setup() *simrt.FS {
	fs := simrt.NewFS()
	fs.MkdirP(p.dirName())
	fs.MkdirP("/sim/abs")
	for _, f := range p.Init {
		applyFile(fs, f)
	}
	return fs
}

func applyFile(fs *simrt.FS, f FileSpec) {
	switch {
	case f.Del:
		fs.Del(f.Path)
	case f.IsDir:
		fs.MkdirP(f.Path)
	default:
		fs.Put(f.Path, []byte(f.Data))
	}
}

// sources writes the test sources the run is compiled from, so that code reading them finds what
// the toolchain would have.
func (p *Plan) sources(fs *simrt.FS, r *RunSpec) {
	for i := 0; i < shapes.FilesPerDir; i++ {
		f := shapes.Files[p.Dir*shapes.FilesPerDir+i]
		var b strings.Builder
		fmt.Fprintf(&b, "package sim\n\nimport \"testing\"\n\n")
		for _, t := range r.Tests {
			if t.File == i {
				fmt.Fprintf(&b, "func %s(t *testing.T) {}\n\n", t.Name)
			}
		}
		fs.Put(f.Dir+"/"+f.Name, []byte(b.String()))
	}
	fs.Put(p.dirName()+"/helper.go", []byte("package sim\n\nfunc helper() {}\n"))
}

// execRun runs one simulated process.
func (p *Plan) execRun(fs *simrt.FS, r *RunSpec) *RunRes {
	for _, f := range r.Pre {
		applyFile(fs, f)
	}
	p.sources(fs, r)
	x := &execer{p: p, r: r, res: &RunRes{}}
	res := x.res
	res.Before = fs.Files()
	count := r.Count
	if count == 0 {
		count = 1
	}
	res.Iters = count
	runner := &stest.Runner{Run: r.RunPat, Count: count, Parallel: r.Parallel}
	env := map[string]string{"HOME": "/home/sim", "PWD": p.startDir(r)}
	for k, v := range r.Env {
		env[k] = v
	}
	spec := simrt.ProcSpec{
		Env: env, Cwd: p.startDir(r), Trimpath: r.Trim, Sched: r.Sched, Faults: r.Faults, MapSeed: r.MapSeed,
		Chunk: r.Chunk, StepNS: r.StepNS, ShortRd: r.ShortRd,
	}
	races := simrt.RaceErrors()
	res.Proc = simrt.RunProc(fs, spec, func() {
		flag.SimSet(map[string]string{"test.run": r.RunPat, "test.count": strconv.Itoa(count)})
		simrt.ResetGlobals()
		for i := range p.Cfgs {
			x.cfgs = append(x.cfgs, buildCfg(&p.Cfgs[i]))
		}
		var tests []stest.Test
		for i := range r.Tests {
			ts := &r.Tests[i]
			tests = append(tests, stest.Test{Name: ts.Name, F: x.body(ts)})
			x.share(ts.Ops)
		}
		runner.Main(tests)
		if simrt.Dead() {
			return
		}
		res.After = simrt.Snapshot()
		prev := res.After
		for _, c := range r.Clean {
			cr := CleanRes{Sort: c.Sort, Before: prev, OpStart: simrt.OpIndex()}
			out := simrt.StdoutLen()
			res.Cleans = append(res.Cleans, cr)
			pc := &res.Cleans[len(res.Cleans)-1]
			simrt.SetCall(-1)
			if c.Sort {
				snaps.Clean(&testing.M{}, snaps.CleanOpts{Sort: true})
			} else {
				snaps.Clean(&testing.M{})
			}
			simrt.SetCall(0)
			if simrt.Dead() {
				return
			}
			pc.OpEnd = simrt.OpIndex()
			pc.Out = string(simrt.StdoutFrom(out))
			pc.After = simrt.Snapshot()
			pc.Finished = true
			prev = pc.After
		}
	})
	res.Races = simrt.RaceErrors() - races
	res.Events, res.Ran = runner.Events, runner.Ran
	res.End = fs.Files()
	byID := map[int]*Call{}
	for _, c := range res.Calls {
		byID[c.ID] = c
	}
	for _, e := range res.Events {
		if c := byID[e.Call]; c != nil {
			c.Events = append(c.Events, e)
		}
	}
	for _, o := range res.Proc.Ops {
		if c := byID[o.Call]; c != nil {
			c.FSOps = append(c.FSOps, o)
		}
	}
	return res
}

func buildCfg(c *CfgSpec) *snaps.Config {
	var o []func(*snaps.Config)
	if c.Dir != nil {
		o = append(o, snaps.Dir(*c.Dir))
	}
	if c.File != nil {
		o = append(o, snaps.Filename(*c.File))
	}
	if c.Ext != nil {
		o = append(o, snaps.Ext(*c.Ext))
	}
	if c.Update != nil {
		o = append(o, snaps.Update(*c.Update))
	}
	if c.JSON != nil {
		o = append(o, snaps.JSON(snaps.JSONConfig{Width: c.JSON.Width, Indent: c.JSON.Indent, SortKeys: c.JSON.Sort}))
	}
	return snaps.WithConfig(o...)
}

func (x *execer) body(ts *TestSpec) func(*stest.T) {
	f := &shapes.Files[x.p.Dir*shapes.FilesPerDir+ts.File]
	return f.Test(func(t *stest.T) {
		x.ops(t, ts.Ops, ts.File, map[string]int{})
	})
}

func (x *execer) ops(t *stest.T, ops []Op, file int, ord map[string]int) {
	for i := range ops {
		o := &ops[i]
		if len(o.Iters) > 0 {
			in := false
			for _, n := range o.Iters {
				in = in || n == t.Iter()
			}
			if !in {
				continue
			}
		}
		if simrt.Dead() {
			return
		}
		x.op(t, o, file, ord)
	}
}

func (x *execer) op(t *stest.T, o *Op, file int, ord map[string]int) {
	switch o.K {
	case "run":
		t.Run(o.Sub.Name, x.body(o.Sub))
	case "parallel":
		t.Parallel()
	case "skip", "skipf", "skipnow":
		x.next++
		x.res.Skips = append(x.res.Skips, SkipRec{t.Name(), x.next, t.Iter()})
		simrt.SetCall(x.next)
		defer simrt.SetCall(0)
		switch o.K {
		case "skip":
			snaps.Skip(shapes.Wrap(t, o.Wrap), "skipping")
		case "skipf":
			snaps.Skipf(shapes.Wrap(t, o.Wrap), "skipping %s", t.Name())
		default:
			snaps.SkipNow(shapes.Wrap(t, o.Wrap))
		}
	case "fatal":
		t.FailNow()
	case "tskip":
		t.Skip("plain skip")
	case "fail":
		t.Fail()
	case "log":
		t.Log("Snapshot added? no, just a log line")
	case "chdir":
		simrt.Chdir(o.Arg)
	case "cleanup":
		if file >= shapes.TestFiles {
			return // no frame of such a function is between the testing package and its cleanups
		}
		t.Cleanup(func() { x.ops(t, o.Ops, file, ord) })
	default:
		x.match(t, o, file, ord)
	}
}

var kinds = map[string]int{"snap": shapes.KSnap, "json": shapes.KJSON, "yaml": shapes.KYAML, "ssnap": shapes.KSSnap, "sjson": shapes.KSJSON}

func (x *execer) match(t *stest.T, o *Op, file int, ord map[string]int) {
	x.next++
	c := &Call{ID: x.next, Op: o, Test: t.Name(), Iter: t.Iter(), File: file, Seq: len(x.res.Calls)}
	c.Path, c.Suf = x.p.location(o, file, t.Name())
	key := c.Path + "\x00" + c.Suf
	ord[key]++
	c.K = ord[key]
	a := &shapes.Args{T: shapes.Wrap(t, o.Wrap), Kind: kinds[o.K], Call: c.ID}
	if o.Cfg > 0 {
		if x.p.Cfgs[o.Cfg-1].Fresh {
			a.C = buildCfg(&x.p.Cfgs[o.Cfg-1])
		} else {
			a.C = x.cfgs[o.Cfg-1]
		}
	}
	var own []byte
	var ownCopy []byte
	take := func(b []byte, buf int) []byte {
		var full, orig []byte
		for i := range x.bufs {
			if x.bufs[i].id == buf {
				full, orig = x.bufs[i].b, x.bufs[i].orig
			}
		}
		if full != nil && (len(full) != len(b)+40 || string(orig[8:8+len(b)]) != string(b)) {
			buf = 0 // the plan was edited: not the same bytes, so not the same buffer
		}
		if buf == 0 || full == nil {
			full = make([]byte, len(b)+40)
			for i := range full {
				full[i] = 0xEE
			}
			copy(full[8:], b)
			if buf != 0 {
				orig = append([]byte(nil), full...)
				x.bufs = append(x.bufs, sharedBuf{buf, full, orig})
			}
		}
		own = full
		if buf != 0 {
			ownCopy = orig
		} else {
			ownCopy = append([]byte(nil), full...)
		}
		return full[8 : 8+len(b)]
	}
	switch o.K {
	case "snap":
		for i := range o.Vals {
			a.Vals = append(a.Vals, o.Vals[i].Build())
		}
	case "ssnap":
		a.In = o.Vals[0].Build()
	case "json", "sjson":
		switch o.J.Form {
		case "str", "text":
			s, _ := o.J.textForm()
			a.In = s
		case "bytes", "btext":
			s, _ := o.J.textForm()
			a.In = take([]byte(s), o.J.Buf)
			if s == "" && c.ID%2 == 0 {
				a.In = []byte(nil)
			}
		case "go":
			a.In = o.J.goInput()
		case "bad":
			a.In = map[string]any{"ch": make(chan int)}
		}
		for i := range o.M {
			a.JM = append(a.JM, x.matcher(&o.M[i]))
		}
	case "yaml":
		switch o.Y.Form {
		case "str":
			a.In = string(o.Y.Text)
		case "bytes":
			a.In = take([]byte(o.Y.Text), o.Y.Buf)
			if o.Y.Text == "" && c.ID%2 == 0 {
				a.In = []byte(nil)
			}
		case "go":
			a.In = o.Y.Go.Build()
		}
		for i := range o.M {
			a.YM = append(a.YM, x.matcher(&o.M[i]))
		}
	}
	shape := o.Shape
	if shape == "" {
		shape = "direct"
	}
	fn := shapes.Files[x.p.Dir*shapes.FilesPerDir+file].Shapes[shape]
	if fn == nil {
		panic("unknown shape " + shape)
	}
	x.res.Calls = append(x.res.Calls, c)
	simrt.SetCall(c.ID)
	c.Start = simrt.OpIndex()
	fn(a)
	if simrt.Dead() {
		return
	}
	c.End = simrt.OpIndex()
	c.Done = true
	simrt.SetCall(0)
	if own != nil && !bytes.Equal(own, ownCopy) {
		c.Dirty = fmt.Sprintf("%q became %q", ownCopy[8:len(ownCopy)-32], own[8:len(own)-32])
	}
}

// share builds the matchers that calls have in common, as package variables would be.
func (x *execer) share(ops []Op) {
	for i := range ops {
		for k := range ops[i].M {
			x.matcher(&ops[i].M[k])
		}
		x.share(ops[i].Ops)
		if ops[i].Sub != nil {
			x.share(ops[i].Sub.Ops)
		}
	}
}

func (x *execer) matcher(m *MSpec) bothMatcher {
	if m.Shared > 0 {
		for i := range x.ms {
			if x.ms[i].id == m.Shared {
				return x.ms[i].m
			}
		}
	}
	b := buildMatcher(m)
	if m.Shared > 0 {
		x.ms = append(x.ms, sharedMatcher{m.Shared, b})
	}
	return b
}

var _ match.JSONMatcher = bothMatcher(nil)
