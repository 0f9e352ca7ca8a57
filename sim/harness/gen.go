package harness

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/verifsim/shapes"
	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

// profile weighs what a generated history is made of. Percentages unless said otherwise.
type profile struct {
	kinds   map[string]int // weights of the Match* calls
	runs    [2]int         // min, max processes
	tests   [2]int
	ops     [2]int
	sub     int // a test has subtests
	par     int // the history is concurrent
	cfg     int // calls through a Config
	fresh   int // Config built per call
	cfgUpd  int // Config carries Update
	cfgDir  int
	shape   int // call sites other than the plain one
	skip    int
	filter  int
	count   int
	iters   int // ops limited to some iterations of -count
	faults  int
	cleanFl int // faults aimed at Clean
	crash   int
	clean   int // a run ends with Clean
	sort    int
	ci      int
	upd     int // UPDATE_SNAPS=true runs among the later ones
	initf   int
	weird   int // odd text
	big     int // per mille very long lines
	match   int // calls with matchers
	matchKo int // matchers that must fail
	bad     int // invalid inputs
	trim    int
	chdir   int
	suite   int // subtests that are functions of a file that is not a test file
	mutate  int // later runs change values
	drop    int // later runs drop calls
	add     int
	reorder int
	rews    int // same value in another textual form
	remask  int
	names   int // odd test names
	dupsub  int // repeated subtest names
	twins   int // files with several entries of one id
	nocolor int
	buf     int // shared byte buffers and matchers
	cleanup int
	yield   int // statement-level preemption
	knobs   int // torn/short I/O, coarse clock
	jump    int
	fatal   int
	dir     int // packages other than the first
	lines   int // report-heavy multi-line texts
	many    int // a test makes more than ten calls
	huge    int // per mille: a line longer than any buffer
	rich    int // YAML beyond plain block style
	crlf    int // YAML with carriage returns
	scale   int // something is an order of magnitude larger than usual
}

func base() profile {
	return profile{
		kinds: map[string]int{"snap": 10, "json": 5, "yaml": 5, "ssnap": 5, "sjson": 4},
		runs:  [2]int{1, 5}, tests: [2]int{1, 4}, ops: [2]int{1, 5}, sub: 35, par: 25, cfg: 35, fresh: 30, cfgUpd: 20, cfgDir: 50,
		shape: 15, skip: 15, filter: 15, count: 15, iters: 30, faults: 12, cleanFl: 30, crash: 6, clean: 55, sort: 40, ci: 15, upd: 35,
		initf: 30, weird: 40, big: 10, match: 25, matchKo: 15, bad: 5, trim: 10, chdir: 5, suite: 2, mutate: 55, drop: 25, add: 20, reorder: 20,
		rews: 30, remask: 30, names: 30, dupsub: 8, nocolor: 75, buf: 20, cleanup: 5, yield: 25, knobs: 20, jump: 3, fatal: 5, dir: 30, lines: 15,
		many: 3, huge: 2, rich: 30, scale: 4,
	}
}

func profileFor(prop string) profile {
	p := base()
	k := func(s string) map[string]int {
		m := map[string]int{}
		for _, f := range strings.Fields(s) {
			i := strings.IndexByte(f, ':')
			m[f[:i]], _ = strconv.Atoi(f[i+1:])
		}
		return m
	}
	switch prop {
	case "C01":
		p.weird, p.mutate, p.upd, p.drop, p.faults, p.runs = 85, 15, 15, 10, 5, [2]int{2, 4}
		p.initf, p.names, p.lines = 30, 45, 25
	case "C02":
		p.weird, p.mutate, p.upd, p.runs, p.faults = 75, 95, 20, [2]int{2, 4}, 5
		p.lines = 30
	case "C03":
		p.count, p.par, p.runs, p.tests, p.sub, p.reorder, p.add, p.weird = 45, 40, [2]int{1, 5}, [2]int{2, 5}, 50, 40, 40, 55
		p.matchKo, p.bad, p.cleanup, p.shape, p.fatal = 30, 15, 15, 25, 10
	case "C04":
		p.upd, p.mutate, p.runs, p.weird, p.faults, p.knobs = 80, 85, [2]int{2, 5}, 55, 25, 35
		p.tests = [2]int{2, 5}
	case "C05":
		p.cfgUpd, p.cfg, p.ci, p.upd, p.clean, p.initf, p.runs, p.mutate = 65, 60, 40, 45, 75, 55, [2]int{2, 5}, 70
	case "C06":
		p.par, p.tests, p.ops, p.yield, p.sub, p.upd, p.kinds = 100, [2]int{2, 5}, [2]int{1, 4}, 65, 45, 45, k("snap:10 json:4 yaml:3 ssnap:2 sjson:2")
		p.filter, p.trim, p.cfg, p.runs, p.skip, p.fresh = 3, 2, 45, [2]int{1, 4}, 25, 15
	case "C07":
		p.twins = 4
		p.count, p.iters, p.clean, p.sort, p.filter, p.upd, p.initf = 60, 60, 100, 50, 30, 30, 45
		p.skip, p.drop, p.runs = 25, 40, [2]int{1, 4}
	case "C08":
		p.skip, p.filter, p.clean, p.sub, p.names, p.runs, p.drop = 70, 55, 100, 70, 60, [2]int{2, 4}, 10
		p.ci, p.kinds, p.tests = 5, k("snap:10 json:3 yaml:3 ssnap:6 sjson:4"), [2]int{2, 5}
	case "C09":
		p.initf, p.clean, p.drop, p.skip, p.filter, p.runs, p.faults = 85, 100, 70, 25, 5, [2]int{1, 4}, 15
		p.ci = 15
	case "C10":
		p.twins = 6
		p.initf, p.clean, p.sort, p.drop, p.weird, p.reorder, p.filter, p.runs, p.faults, p.tests = 60, 100, 75, 45, 75, 55, 10, [2]int{1, 4}, 15, [2]int{2, 5}
	case "C11":
		p.cfg, p.cfgDir, p.shape, p.dir, p.trim, p.chdir, p.suite, p.names, p.runs = 80, 80, 75, 75, 45, 35, 15, 60, [2]int{1, 3}
		p.filter, p.skip, p.faults, p.mutate = 5, 10, 4, 30
	case "C12":
		p.cfg, p.fresh, p.cfgDir, p.par, p.kinds = 100, 10, 65, 35, k("snap:6 json:5 yaml:5 ssnap:6 sjson:8")
		p.runs, p.faults, p.match = [2]int{1, 3}, 5, 35
	case "C13":
		p.lines, p.mutate, p.weird, p.runs, p.nocolor, p.ci, p.upd = 90, 100, 55, [2]int{2, 3}, 88, 25, 5
		p.faults, p.filter, p.skip, p.clean, p.jump, p.kinds = 3, 3, 5, 20, 20, k("snap:10 json:3 yaml:3 ssnap:8 sjson:2")
		p.big = 20
	case "C14":
		p.kinds, p.rews, p.bad, p.match, p.runs, p.mutate = k("json:10 sjson:8 snap:2"), 90, 20, 15, [2]int{1, 4}, 35
		p.faults, p.filter, p.huge = 4, 4, 20
	case "C15":
		p.kinds, p.match, p.matchKo, p.buf, p.runs, p.faults, p.par = k("json:8 sjson:6 yaml:9"), 90, 20, 60, [2]int{1, 3}, 3, 35
	case "C16":
		p.kinds, p.match, p.remask, p.matchKo, p.runs, p.faults, p.mutate = k("json:9 sjson:3 yaml:8"), 95, 90, 8, [2]int{2, 4}, 3, 65
	case "C17":
		p.kinds, p.match, p.matchKo, p.bad, p.runs, p.upd = k("json:8 sjson:5 yaml:8 snap:2"), 90, 65, 10, [2]int{1, 4}, 40
		p.faults = 5
	case "C18":
		p.kinds, p.match, p.bad, p.runs, p.weird, p.crlf = k("yaml:12 snap:2 json:1"), 12, 20, [2]int{1, 4}, 60, 3
		p.faults = 5
	case "C19":
		p.kinds, p.weird, p.runs, p.upd, p.mutate, p.faults, p.knobs = k("ssnap:10 sjson:7 snap:2"), 85, [2]int{1, 5}, 50, 60, 20, 35
		p.count, p.names = 30, 45
	case "C20":
		p.clean, p.par, p.bad, p.matchKo, p.skip, p.initf, p.runs, p.yield = 100, 45, 15, 30, 40, 45, [2]int{1, 3}, 40
		p.mutate, p.count = 70, 30
	}
	switch prop {
	case "C01", "C02", "C04":
		p.huge, p.many = 6, 5
	case "C03", "C07", "C10", "C19":
		p.many, p.huge = 12, 3
	}
	return p
}

type gen struct {
	r     simrt.Rng
	pr    profile
	p     *Plan
	p0    []TestSpec
	alone map[string]string // custom standalone filename -> owner
	norm  map[string]bool   // standalone-normalised full names in use
	par   bool
	docs  int
	nbuf  int
	nms   int
	sc    map[string]bool // what is large in this plan
}

var scales = []string{"tests", "deep", "longname", "calls", "count", "vals", "runs", "cleans", "doc", "matchers", "paths", "lines", "nested", "stale", "files"}

func (g *gen) pct(n int) bool { return g.r.Intn(100) < n }
func (g *gen) rng(a [2]int) int {
	return a[0] + g.r.Intn(a[1]-a[0]+1)
}
func (g *gen) pick(l []string) string { return l[g.r.Intn(len(l))] }

func sp(s string) *string { return &s }

// Generate makes the plan of one seed. It depends on nothing but its arguments.
func Generate(prop string, seed uint64) *Plan {
	g := &gen{r: simrt.NewRng(seed), p: &Plan{V: 1, Prop: prop, Seed: seed}, alone: map[string]string{}, norm: map[string]bool{}}
	if g.pct(22) {
		g.pr = base()
	} else {
		g.pr = profileFor(prop)
	}
	// swarm: switch some features off so that others get room
	for _, f := range []*int{&g.pr.shape, &g.pr.count, &g.pr.faults, &g.pr.initf, &g.pr.trim, &g.pr.chdir, &g.pr.names, &g.pr.dupsub,
		&g.pr.buf, &g.pr.cleanup, &g.pr.knobs, &g.pr.fatal, &g.pr.bad, &g.pr.reorder, &g.pr.add, &g.pr.sub, &g.pr.skip} {
		if *f < 60 && g.pct(30) {
			*f = 0
		}
	}
	g.par = g.pct(g.pr.par)
	if g.pct(g.pr.scale) {
		g.sc = map[string]bool{g.pick(scales): true}
		if g.pct(25) {
			g.sc[g.pick(scales)] = true
		}
	}
	p := g.p
	if g.pct(g.pr.dir) {
		p.Dir = g.r.Intn(len(shapes.Dirs))
	}
	if prop == "C13" {
		p.Pairs = pairs(seed)
	}
	g.configs()
	g.p0 = g.program()
	g.extras()
	g.initial()
	n := g.rng(g.pr.runs)
	if g.sc["runs"] {
		n = 6 + g.r.Intn(5)
	}
	tests := g.p0
	trim := g.pct(g.pr.trim)
	for i := 0; i < n; i++ {
		tests = cloneTests(tests)
		if i > 0 {
			tests = g.derive(tests)
		}
		p.Runs = append(p.Runs, g.run(i, n, cloneTests(tests), trim))
	}
	if g.pct(7) {
		for i := range p.Runs {
			g.wrap(p.Runs[i].Tests)
		}
	}
	return p
}

// ---------------------------------------------------------------- configs

// longName is close to what file systems allow.
var longName = strings.Repeat("long-name_", 20)

var (
	dirPool = []string{"", "snapdir", "../up", "a/b", "/sim/abs", "/sim/abs/x y", "dir%d", "./x/../y", "__snapshots__", "snap.snap",
		"/sim/abs//x/../y/", "/sim/mod/a/b/c", "/sim/mod/pkg/__snapshots__", "/sim/abs/", "snapdir/", "__snapshots__/sub", "./__snapshots__/", "..", "/sim/abs/./z", ".", ".snaps", "日本", "~", "testdata/x", "a.snap", "__snapshots__/../other", "$HOME", "SnapDir", "c:d",
		`a\b`, `..\x`, longName}
	extPool = []string{"", ".txt", ".json", ".html", "txt", ".snap", ".100%", ".tar.gz", ".JSON", "_x", ".", ".a b", ".日本"}
)

func (g *gen) configs() {
	if g.pr.cfg == 0 {
		return
	}
	for n := g.r.Intn(4); n >= 0; n-- {
		var c CfgSpec
		if g.pct(g.pr.cfgDir) {
			c.Dir = sp(g.pick(dirPool))
		}
		if g.pct(35) {
			c.File = sp(g.pick([]string{"custom", "cu.stom", "100%", "with space", "custom2", "x.snap.y", "%s_%d", "sub/custom", "./dot", "../outer",
				".hidden", "custom_test", "name.", "CUSTOM", "日本", "a_1", "custom.go", "-", "a:b", "[x]", `a\b`, longName, longName + "x"}))
		}
		if g.pct(45) {
			c.Ext = sp(g.pick(extPool))
		}
		if g.pct(g.pr.cfgUpd) {
			b := g.pct(50)
			c.Update = &b
		}
		if g.pct(20) {
			c.JSON = &JSONSpec{Width: []int{0, 20, 80}[g.r.Intn(3)], Indent: g.pick([]string{"", " ", "  ", "\t"}), Sort: g.pct(60)}
		}
		c.Fresh = g.pct(g.pr.fresh)
		g.p.Cfgs = append(g.p.Cfgs, c)
	}
}

// ---------------------------------------------------------------- programs

var (
	plainNames = []string{"TestAlpha", "TestBeta", "TestGamma", "TestDelta", "TestEps", "TestZeta"}
	oddNames   = []string{"TestAlphaBeta", "TestAlph", "Test_1", "TestÜ", "Test10", "Test2", "Test", "TestA1b22", "FuzzThing", "TestAlpha_", "Benchmark9", "ExampleX"}
	plainSubs  = []string{"sub", "one", "two", "case"}
	oddSubs    = []string{"sub 1", "a/b", "x - 3", "[z]", "100%", "日本", "a b", "%d", "sub10", "sub2", "Sub", "su", "a - 1]", "---", "é.snap", "tab\there", "\x01", "b/",
		"p:q", "(x", "[y", "a|b", "*?", "\"q'", "{1}", "c++", ".", "..", "back\\s", "a,b;c", "<T>", "$x^", "~", "#", "sub#02", "-run", "a_b"}
)

func (g *gen) takeName(prefix string, cands []string) (string, bool) {
	for try := 0; try < 12; try++ {
		n := g.pick(cands)
		full := n
		if prefix != "" {
			full = prefix + "/" + n
		}
		key := strings.Map(func(r rune) rune {
			if r == '/' || r == ' ' || r == '\t' {
				return '_'
			}
			return r
		}, full)
		if g.norm[key] {
			continue
		}
		g.norm[key] = true
		return n, true
	}
	return "", false
}

func (g *gen) program() []TestSpec {
	var out []TestSpec
	files := 1 + g.r.Intn(shapes.TestFiles)
	if g.pct(50) {
		files = 1
	}
	for n := g.rng(g.pr.tests); n > 0; n-- {
		pool := plainNames
		if g.pct(g.pr.names) {
			pool = oddNames
		}
		nm, ok := g.takeName("", pool)
		if !ok {
			continue
		}
		t := TestSpec{Name: nm, File: g.r.Intn(files)}
		g.fill(&t, nm, 0)
		out = append(out, t)
	}
	return out
}

// extras makes a few programs unlike the others: many calls, or a very long line.
func (g *gen) extras() {
	if len(g.p0) > 0 && g.pct(g.pr.many) {
		t := &g.p0[g.r.Intn(len(g.p0))]
		o := g.op(t.Name)
		o.Shape = ""
		for n := 9 + g.r.Intn(5); n > 0; n-- {
			c := Op{K: o.K, Cfg: o.Cfg}
			switch o.K {
			case "snap", "ssnap":
				c.Vals = []Val{{K: "s", S: Raw(g.line())}}
			default:
				g.value(&c)
			}
			t.Ops = append(t.Ops, c)
		}
	}
	if len(g.p0) > 0 && len(g.sc) > 0 {
		g.large()
	}
	if g.r.Intn(1000) < g.pr.huge {
		var cand []*Op
		eachOp(g.p0, func(o *Op) {
			if o.K == "snap" || o.K == "ssnap" || o.J != nil && o.J.Doc != nil && len(o.M) == 0 {
				cand = append(cand, o)
			}
		})
		if len(cand) > 0 && cand[0].J != nil && g.pct(50) {
			o := cand[0]
			l := &JV{K: "a"}
			for n := 200 + g.r.Intn(2500); n > 0; n-- {
				if x := g.jv(2); !hasBigNum(x) {
					l.L = append(l.L, x)
				}
			}
			o.J.Doc = &JV{K: "o", Ks: []string{`"list"`, `"id"`}, L: []*JV{l, g.jv(0)}}
			g.jform(o.J)
		} else if len(cand) > 0 && cand[len(cand)-1].J == nil {
			o := cand[len(cand)-1]
			v := Val{K: "rep", S: Raw(g.pick([]string{"x", "x", "é", "ab "}))}
			size := []int{70_000, 1<<20 - 2, 1<<20 + 1, 1_300_000, 3_000_000}[g.r.Intn(5)]
			v.N = int64(size / len(v.S))
			v.Ks = []string{g.pick([]string{"", "\n", "\nend", "\n---\nend"}), ""}
			o.Vals[g.r.Intn(len(o.Vals))] = v
		}
	}
}

func (g *gen) large() {
	one := func(full string) Op {
		k := g.kind()
		o := Op{K: k}
		if k == "snap" || k == "ssnap" {
			o.Vals = []Val{{K: "s", S: Raw(g.line())}}
		} else {
			g.value(&o)
		}
		return o
	}
	t := &g.p0[g.r.Intn(len(g.p0))]
	if g.sc["tests"] {
		for n := 10 + g.r.Intn(15); n > 0; n-- {
			nm, ok := g.takeName("", []string{"TestMany" + strconv.Itoa(n), "Test" + strconv.Itoa(n), "TestMany_" + strconv.Itoa(n)})
			if !ok {
				continue
			}
			x := TestSpec{Name: nm, File: g.p0[g.r.Intn(len(g.p0))].File}
			if g.par && g.pct(80) {
				x.Ops = []Op{{K: "parallel"}}
			}
			for k := 1 + g.r.Intn(2); k > 0; k-- {
				x.Ops = append(x.Ops, one(nm))
			}
			g.p0 = append(g.p0, x)
		}
		t = &g.p0[0]
	}
	if g.sc["files"] {
		for n := 9 + g.r.Intn(12); n > 0; n-- {
			g.p.Cfgs = append(g.p.Cfgs, CfgSpec{File: sp("many" + strconv.Itoa(n))})
			t.Ops = append(t.Ops, Op{K: "snap", Cfg: len(g.p.Cfgs), Vals: []Val{{K: "s", S: Raw(g.line())}}})
		}
	}
	if g.sc["calls"] {
		o := one(t.Name)
		for n := 20 + g.r.Intn(100); n > 0; n-- {
			c := Op{K: o.K, Cfg: o.Cfg}
			if g.pct(10) && len(o.Vals) == 0 {
				c = one(t.Name)
			} else if len(o.Vals) > 0 {
				c.Vals = []Val{{K: "s", S: Raw(g.line())}}
			} else {
				g.value(&c)
			}
			t.Ops = append(t.Ops, c)
		}
	}
	if g.sc["deep"] || g.sc["longname"] {
		full, at := t.Name, t
		for n := 3 + g.r.Intn(7); n > 0; n-- {
			nm := "d" + strconv.Itoa(g.r.Intn(3))
			if g.sc["longname"] {
				nm = strings.Repeat("long name/"[g.r.Intn(3):9], 3+g.r.Intn(9)) + nm
			}
			if _, ok := g.takeName(full, []string{nm}); !ok {
				break
			}
			full += "/" + nm
			x := TestSpec{Name: nm, File: t.File}
			for k := g.r.Intn(3); k > 0; k-- {
				o := one(full)
				if o.standalone() && len(full) > 150 {
					o = Op{K: "snap", Vals: []Val{{K: "s", S: Raw(g.line())}}}
				}
				x.Ops = append(x.Ops, o)
			}
			at.Ops = append(at.Ops, Op{K: "run", Sub: &x})
			at = &x
		}
	}
	if g.sc["vals"] {
		eachOp(g.p0, func(o *Op) {
			if o.K == "snap" && g.pct(50) {
				for n := 3 + g.r.Intn(9); n > 0; n-- {
					o.Vals = append(o.Vals, g.anyVal(1))
				}
			}
		})
	}
}

func (g *gen) fill(t *TestSpec, full string, depth int) {
	if g.par && g.pct(80) {
		t.Ops = append(t.Ops, Op{K: "parallel"})
	}
	nops := g.rng(g.pr.ops)
	for i := 0; i < nops; i++ {
		t.Ops = append(t.Ops, g.op(full))
		if g.pct(4) {
			t.Ops = append(t.Ops, Op{K: g.pick([]string{"log", "fail"})})
		}
	}
	if depth < 2 && g.pct(g.pr.sub) {
		var subs []string
		for n := 1 + g.r.Intn(3); n > 0; n-- {
			pool := plainSubs
			if g.pct(g.pr.names) {
				pool = oddSubs
			}
			if len(subs) > 0 && g.pct(15) {
				// the name of a sibling and a little more
				sib := g.pick(subs)
				pool = nil
				for _, suf := range []string{"#01", "#1", "_", "x", "1", " 2", ".", "-", " - 1", "_1", "#01/sub"} {
					pool = append(pool, sib+suf)
				}
			}
			nm, ok := g.takeName(full, pool)
			if !ok {
				continue
			}
			subs = append(subs, nm)
			s := TestSpec{Name: nm, File: t.File}
			if g.pct(8) {
				s.File = g.r.Intn(shapes.FilesPerDir)
			}
			if g.pct(g.pr.suite) {
				s.File = shapes.TestFiles
			}
			g.fill(&s, full+"/"+nm, depth+1)
			reps := 1
			if g.pct(g.pr.dupsub) && !hasAlone(s.Ops) {
				reps = 2
			}
			for ; reps > 0; reps-- {
				op := Op{K: "run", Sub: &s}
				if g.pct(60) {
					t.Ops = append(t.Ops, op)
				} else {
					i := g.r.Intn(len(t.Ops) + 1)
					if i == 0 && len(t.Ops) > 0 && t.Ops[0].K == "parallel" {
						i = 1
					}
					t.Ops = append(t.Ops[:i], append([]Op{op}, t.Ops[i:]...)...)
				}
			}
		}
	}
}

func hasAlone(ops []Op) bool {
	for i := range ops {
		if ops[i].standalone() || (ops[i].Sub != nil && hasAlone(ops[i].Sub.Ops)) {
			return true
		}
	}
	return false
}

func (g *gen) kind() string {
	t := 0
	ks := []string{"snap", "json", "yaml", "ssnap", "sjson"}
	for _, k := range ks {
		t += g.pr.kinds[k]
	}
	n := g.r.Intn(t)
	for _, k := range ks {
		if n -= g.pr.kinds[k]; n < 0 {
			return k
		}
	}
	return "snap"
}

var shapeNames = []string{"same", "helper", "deep", "util", "dep", "other", "go", "gohelper", "defer", "iface", "generic", "callback", "depcall", "outer"}

func (g *gen) op(full string) Op {
	o := Op{K: g.kind()}
	if len(g.p.Cfgs) > 0 && g.pct(g.pr.cfg) {
		o.Cfg = 1 + g.r.Intn(len(g.p.Cfgs))
		if o.standalone() {
			// a standalone file with a custom name belongs to one test only
			if c := g.p.Cfgs[o.Cfg-1]; c.File != nil && *c.File != "" {
				if own, ok := g.alone[*c.File]; ok && own != full {
					o.Cfg = 0
				} else {
					g.alone[*c.File] = full
				}
			}
		}
	}
	if g.pct(g.pr.shape) {
		o.Shape = g.pick(shapeNames)
	}
	g.value(&o)
	return o
}

func (g *gen) value(o *Op) {
	switch o.K {
	case "snap":
		o.Vals = nil
		n := 1
		if g.pct(20) {
			n = 2 + g.r.Intn(2)
		}
		for ; n > 0; n-- {
			o.Vals = append(o.Vals, g.val(false))
		}
	case "ssnap":
		o.Vals = []Val{g.val(true)}
	case "json", "sjson":
		g.jsonIn(o)
	case "yaml":
		g.yamlIn(o)
	}
}

// ---------------------------------------------------------------- text and Go values

var textLines = []string{
	"", " ", "\t", "---", "/-/-/-/", "//-/-/-/", "///-/-/-/", "/-/-/-/ ", " ---", "--- ", "----", "[TestAlpha - 1]", "[TestBeta - 2]", "[TestAlpha - 2]",
	"[TestNew - 1]", "[Test - 1]", "[TestAlpha/sub - 1]", "[z]", "[]", "\xff", "\xfe\xff", "a\xffb", "a\xfeb", "a\ufffdb", "\x00", "caf\u00e9", "cafe\u0301", "- foo", "+ foo", "  foo", "@@ -1,2 +1,2 @@", "at x:1", "↵",
	"hello", "world", "%d %s %%", "a\rb", "{\"a\": 1}", "key: value", "foo", "bar", "baz", "\x1b[31mred\x1b[0m", "'\"`", "\\n", "Snapshot added", "lorem ipsum dolor", "\u2028",
	"Test", "[Test", "TestAlpha - 1]",
}

func (g *gen) line() string {
	if g.pct(g.pr.weird) {
		if g.pct(12) { // something close to the format's own syntax
			var b strings.Builder
			for n := 1 + g.r.Intn(8); n > 0; n-- {
				b.WriteString(g.pick([]string{"-", "-", "/", "/", "---", "[", "]", " ", " - ", "1", "Test", "/-/-/-/", "\t", "@@", "+", ":", "\\", "\u2028", "\xff", "é", "\x1b", "%", "\""}))
			}
			return b.String()
		}
		return g.pick(textLines)
	}
	return g.pick([]string{"hello", "world", "foo", "bar", "baz", "line " + strconv.Itoa(g.r.Intn(30)), "value " + strconv.Itoa(g.r.Intn(9))})
}

// long is a line of n bytes: words that do not repeat, as comparing two long periodic lines takes
// the library seconds, or sometimes one letter.
func (g *gen) long(n int) string {
	if g.pct(15) && len(g.sc) == 0 {
		return strings.Repeat("x", n)
	}
	b := make([]byte, 0, n+10)
	for i := g.r.Intn(9); len(b) < n; i++ {
		b = append(strconv.AppendInt(b, int64(i), 36), ' ')
	}
	return string(b[:n])
}

func (g *gen) text(standalone bool) string {
	n := 1 + g.r.Intn(5)
	if g.pct(25) {
		n = 1
	}
	if g.pct(g.pr.lines) {
		n = 4 + g.r.Intn(40)
		if g.pct(6) {
			n = 180 + g.r.Intn(120)
		}
	}
	if g.sc["lines"] && g.pct(10) {
		n = 400 + g.r.Intn(1200)
	}
	ls := make([]string, n)
	for i := range ls {
		ls[i] = g.line()
		if g.r.Intn(1000) < 3 && n < 10 {
			ls[i] = strings.Repeat("y", 4088+g.r.Intn(12)) + strconv.Itoa(g.r.Intn(9))
		}
		if g.r.Intn(1000) < g.pr.big && n < 10 {
			ls[i] = g.long(65530+g.r.Intn(20)) + strconv.Itoa(g.r.Intn(9))
		}
	}
	sep := "\n"
	if standalone && g.pct(15) {
		sep = "\r\n"
	}
	s := strings.Join(ls, sep)
	if g.pct(20) {
		s += strings.Repeat("\n", 1+g.r.Intn(2))
	}
	if g.pct(10) {
		s = "\n" + s
	}
	if g.pct(4) {
		s = ""
	}
	if standalone && g.pct(4) {
		s += "\r"
	}
	return s
}

func (g *gen) val(standalone bool) Val {
	switch {
	case g.sc["nested"] && g.pct(15):
		return g.anyVal(6)
	case g.pct(70):
		return Val{K: "s", S: Raw(g.text(standalone))}
	}
	return g.anyVal(2)
}

func (g *gen) anyVal(depth int) Val {
	ks := []string{"s", "i", "f", "t", "n", "e", "b", "u", "d", "st", "ps", "s", "i", "ns", "st"}
	if g.pct(12) {
		ks = []string{"nb", "jn", "tm", "cx", "np", "ar", "mi", "ma", "mi"}
	}
	if depth > 0 {
		ks = append(ks, "m", "l", "m", "l")
	}
	v := Val{K: g.pick(ks)}
	switch v.K {
	case "s", "e", "b", "ns", "nb", "ar", "mi", "ma":
		v.S = Raw(g.line())
		v.N = int64(g.r.Intn(100))
	case "i", "u", "d", "jn", "tm", "cx":
		v.N = int64(g.r.Intn(1000))
		if v.K == "i" && g.pct(30) {
			v.N = -v.N
		}
	case "f":
		v.F = float64(g.r.Intn(1000)) / 8
	case "t":
		v.N = int64(g.r.Intn(2))
	case "m":
		for _, k := range []string{"a", "b key", "c\nd", "---", "z"} {
			if g.pct(40) {
				v.Ks = append(v.Ks, k)
				v.L = append(v.L, g.anyVal(depth-1))
			}
		}
	case "l":
		for n := g.r.Intn(4); n > 0; n-- {
			v.L = append(v.L, g.anyVal(depth-1))
		}
	case "st", "ps":
		v.S, v.N = Raw(g.line()), int64(g.r.Intn(50))
		for n := g.r.Intn(3); n > 0; n-- {
			v.Ks = append(v.Ks, g.pick([]string{"x", "y", "---"}))
		}
		if depth > 0 && g.pct(30) {
			v.L = append(v.L, g.anyVal(depth-1))
		}
	}
	return v
}

// mutText changes a text, sometimes by as little as possible.
func (g *gen) mutText(s string, standalone bool) string {
	ls := strings.Split(s, "\n")
	i := g.r.Intn(len(ls))
	switch g.r.Intn(14) {
	case 0:
		return s + "\n"
	case 1:
		return strings.TrimSuffix(s, "\n") + "x"
	case 2:
		ls[i] = g.line()
	case 3:
		if g.pct(70) {
			ls[i] += g.pick([]string{" ", "\t", "\xff", "/", "!", "\x00", "\u200b", "\u00a0", "\ufeff", "\v", "\x1b[0m", ",", "\u0301", "\x7f"})
			break
		}
		if g.pct(50) {
			i = 0
		}
		ls[i] = g.pick([]string{" ", "\t", "\ufeff", "\x00", "\u200b", "\x1b[1m", "-", "+", "\f"}) + ls[i]
	case 4:
		ls = append(ls[:i], append([]string{g.line()}, ls[i:]...)...)
	case 5:
		if len(ls) > 1 {
			ls = append(ls[:i], ls[i+1:]...)
		} else {
			ls[0] += "?"
		}
	case 6:
		j := g.r.Intn(len(ls))
		ls[i], ls[j] = ls[j], ls[i]
	case 7: // swap the escape spellings
		for k := range ls {
			switch ls[k] {
			case "---":
				ls[k] = "/-/-/-/"
			case "/-/-/-/":
				ls[k] = g.pick([]string{"---", "//-/-/-/"})
			case "//-/-/-/":
				ls[k] = "/-/-/-/"
			}
		}
	case 8:
		b := []byte(s)
		if len(b) > 0 {
			k := g.r.Intn(len(b))
			if b[k] != '\n' {
				b[k] ^= byte(1 << uint(g.r.Intn(8)))
				if b[k] == '\r' || b[k] == '\n' {
					b[k] = '~'
				}
				return string(b)
			}
		}
		return s + " "
	case 9:
		return g.text(standalone)
	case 10:
		r := strings.NewReplacer("\xff", "\xfe", "\xfe", "\ufffd", "\u00e9", "e\u0301", "foo", "fo0")
		if t := r.Replace(s); t != s {
			return t
		}
		return s + "\xff"
	case 11: // many scattered edits
		for k := range ls {
			if g.pct(25) {
				ls[k] = g.line()
			}
		}
	case 12: // move a block
		if len(ls) > 3 {
			a, b := g.r.Intn(len(ls)), g.r.Intn(len(ls))
			if a > b {
				a, b = b, a
			}
			blk := append([]string{}, ls[a:b]...)
			ls = append(append(append([]string{}, ls[:a]...), ls[b:]...), blk...)
		} else {
			ls[i] = strings.ToUpper(ls[i]) + "."
		}
	default:
		if standalone {
			return g.pick([]string{strings.ReplaceAll(s, "\n", "\r\n"), strings.ReplaceAll(s, "\r", ""), s + "\r"})
		}
		ls[i] = strings.TrimSpace(ls[i])
	}
	return strings.Join(ls, "\n")
}

func (g *gen) mutVal(v Val, standalone bool) Val {
	if v.K == "rep" {
		switch g.r.Intn(4) {
		case 0:
			v.N++
		case 1:
			v.Ks = []string{g.pick([]string{"", "\n", "\nend", "\nother", "!"}), ""}
		case 2: // the same length, another byte in the middle
			mid := []byte(v.S)
			mid[0]++
			if v.Ks = append([]string{}, v.Ks...); v.Ks[1] != "" {
				mid[0]++
			}
			v.Ks[1] = string(mid)
		default:
			return g.val(standalone)
		}
		return v
	}
	if v.K == "s" && g.pct(92) {
		s := g.mutText(string(v.S), standalone)
		if !standalone {
			s = noCR(s)
		}
		v.S = Raw(s)
		return v
	}
	return g.val(standalone)
}

// noCR removes what the documentation excludes: carriage returns at the end of a line.
func noCR(s string) string {
	for strings.Contains(s, "\r\n") {
		s = strings.ReplaceAll(s, "\r\n", "\n")
	}
	return strings.TrimRight(s, "\r")
}

// ---------------------------------------------------------------- JSON

var (
	jkeys    = []string{`"a"`, `"b"`, `"name"`, `"id"`, `"a.b"`, `"x-y"`, `"k k"`, `"é"`, `"A"`, `"aa"`, `"ab"`, `"B"`, `"z9"`, `"list"`, `"user"`, `"created_at"`, `"userId"`, `"_id"`}
	jkeysOdd = []string{`":a"`, `":authority"`, `"\u0061x"`, `"<h>"`, `"q\"q"`, `"\n"`, `""`, `"k10"`, `"k9"`, `"10"`, `"9"`, `"---"`, `" a"`, `"a "`, `"a/b"`, `"$ref"`, `"x*y"`, `"w?"`, `"p|q"`, `"#"`, `"#1"`, `"@type"`, `"!x"`, `"{k}"`, `"a,b"`, `"a=b"`, `"[0]"`, `"~"`, `"-1"`, `"\\"`}
	jstrs    = []string{`".:x"`, `"a.#(b"`, `"p.:q|r"`, `"(x).y#"`, `""`, `"x"`, `"hello"`, `"a b"`, `"\u00e9"`, `"é"`, `"\n"`, `"q\"uo"`, `"back\\s"`, `"\/"`, `"---"`, `"[TestAlpha - 1]"`, `"<&>"`, `"\ud83d\ude00"`, `"😀"`, `"\u0000"`, `"<Any value>"`, `"2020-01-01"`, `"aGVsbG8="`, `"\u2028"`, `"%d"`, `"{}"`}
	jnums    = []string{"0", "1", "-1", "42", "1.5", "1e3", "1E+2", "-0", "12345678901234567890", "0.10", "1.0", "100", "2.50e-3", "9007199254740993", "1e400"}
)

func (g *gen) jv(depth int) *JV {
	n := g.r.Intn(10)
	if depth > 0 && n < 4 {
		k := "o"
		if n == 3 {
			k = "a"
		}
		v := &JV{K: k}
		m := g.r.Intn(5)
		used := map[string]bool{}
		for i := 0; i < m; i++ {
			if k == "o" {
				key := g.pick(jkeys)
				if g.pct(12) {
					key = g.pick(jkeysOdd)
				}
				if used[unq(key)] {
					continue
				}
				used[unq(key)] = true
				v.Ks = append(v.Ks, key)
			}
			v.L = append(v.L, g.jv(depth-1))
		}
		return v
	}
	switch g.r.Intn(6) {
	case 0:
		return &JV{K: "t"}
	case 1:
		return &JV{K: "f"}
	case 2:
		return &JV{K: "z"}
	case 3, 4:
		return &JV{K: "s", S: g.pick(jstrs)}
	}
	return &JV{K: "n", S: g.pick(jnums)}
}

func (g *gen) jroot() *JV {
	if g.sc["doc"] && g.pct(40) {
		return g.jlarge()
	}
	if g.pct(12) {
		return g.jv(1)
	}
	if g.pct(8) {
		return g.jrecords()
	}
	for {
		v := g.jv(3)
		if v.K == "o" || v.K == "a" && g.pct(30) {
			return v
		}
	}
}

// jrecords is a list of similar objects, which queries can tell apart.
func (g *gen) jrecords() *JV {
	l := &JV{K: "a"}
	for n := 1 + g.r.Intn(4); n > 0; n-- {
		x := &JV{K: "o"}
		add := func(k string, v *JV) { x.Ks, x.L = append(x.Ks, k), append(x.L, v) }
		if g.pct(70) {
			add(`"id"`, &JV{K: "n", S: strconv.Itoa(g.r.Intn(4))})
		}
		if g.pct(70) {
			add(`"name"`, &JV{K: "s", S: g.pick([]string{`"x"`, `".:x"`, `"a.#(b"`, `"p.:q|r"`, `"(x).y#"`, `"hello"`, `"a b"`})})
		}
		if g.pct(60) {
			add(`"a"`, g.jv(1))
		}
		if g.pct(40) {
			in := &JV{K: "a"}
			for m := g.r.Intn(3); m > 0; m-- {
				in.L = append(in.L, &JV{K: "o", Ks: []string{`"a"`, `":b"`}, L: []*JV{g.jv(0), g.jv(0)}})
			}
			add(`"l"`, in)
		}
		l.L = append(l.L, x)
	}
	if g.pct(30) {
		return l
	}
	return &JV{K: "o", Ks: []string{`"a"`, `"list"`, `":b"`}, L: []*JV{g.jv(0), l, g.jv(1)}}
}

// jlarge is a document with a long list, many members, or deep nesting.
func (g *gen) jlarge() *JV {
	v := &JV{K: "o", Ks: []string{`"a"`}, L: []*JV{g.jv(1)}}
	put := func(k string, x *JV) {
		for _, have := range v.Ks {
			if have == k {
				return
			}
		}
		v.Ks, v.L = append(v.Ks, k), append(v.L, x)
	}
	switch g.r.Intn(3) {
	case 0:
		l := &JV{K: "a"}
		for n := 9 + g.r.Intn(30); n > 0; n-- {
			l.L = append(l.L, g.jv(1))
		}
		put(`"list"`, l)
	case 1:
		for n := 15 + g.r.Intn(40); n > 0; n-- {
			put(fmt.Sprintf(`"m%d"`, g.r.Intn(200)), g.jv(1))
		}
	default:
		x := g.jv(1)
		for n := 8 + g.r.Intn(20); n > 0; n-- {
			if g.pct(70) {
				x = &JV{K: "o", Ks: []string{g.pick(jkeys)}, L: []*JV{x}}
			} else {
				x = &JV{K: "a", L: []*JV{g.jv(0), x}}
			}
		}
		put(`"deep"`, x)
	}
	if g.pct(50) {
		put(`"name"`, g.jv(1))
	}
	return v
}

type jpath struct {
	path  string
	comps []string
	node  *JV
}

// plainKey: keys that need no more than dot escaping in a path.
func plainKey(k string) bool {
	if k == "" {
		return false
	}
	for _, r := range k {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', strings.ContainsRune(".-é: _/$,=~*?|#@!{}[]\\", r):
		case r >= '0' && r <= '9':
		default:
			return false
		}
	}
	return true
}

// escPath is the path component for a key.
func escPath(k string) string {
	var b strings.Builder
	for _, r := range k {
		if strings.ContainsRune(`.*?|#@!{}[]\\`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (v *JV) paths() []jpath {
	var out []jpath
	var walk func(v *JV, pre string, comps []string)
	walk = func(v *JV, pre string, comps []string) {
		for i, c := range v.L {
			k := strconv.Itoa(i)
			if v.K == "o" {
				k = unq(v.Ks[i])
				if !plainKey(k) || v.Ks[i] != `"`+k+`"` {
					continue
				}
			}
			p := escPath(k)
			if pre != "" {
				p = pre + "." + p
			}
			cs := append(append([]string{}, comps...), k)
			out = append(out, jpath{p, cs, c})
			walk(c, p, cs)
		}
	}
	walk(v, "", nil)
	return out
}

var badJSON = []string{"", "\ufeff{}", "\u00a0[1]", "[1]\x00", "\"\xff", "\"a\u2028", "NaN", "-", "+1", ".5", "[1]]", "\"\\x\"", "\"\\ud800\\u00\"", "true false", "{\"a\":1,\"a\"}", "{", `{"a":}`, `{"a":1,}`, "nope", `{"a":1} x`, `[1,2`, `"unterminated`, `{'a':1}`, "\xff", `{"a" 1}`, "01", "1.", " ", "nul", "[1,,2]", "{\"a\":\"\n\"}", `{"a":1}{"b":2}`}

func (g *gen) jsonIn(o *Op) {
	o.M = nil
	if g.pct(g.pr.bad) {
		o.J = &JIn{Form: g.pick([]string{"text", "btext"}), Text: Raw(g.pick(badJSON))}
		if g.pct(55) {
			o.J.Text = Raw(g.mutBytes(g.jroot().text(uint64(g.r.Intn(50)), 0), `{}[],:"\'0123456789truefalsn.eE+- ;`+"\n\t\x00\x7f\xff"))
			if g.pct(25) {
				g.jmatchersFor(o, &JV{K: "o"})
			}
		}
		if g.pct(15) {
			o.J = &JIn{Form: "bad"}
		}
		return
	}
	o.J = &JIn{Form: g.pick([]string{"str", "bytes", "go"}), Doc: g.jroot()}
	g.jform(o.J)
	if g.pct(g.pr.match) {
		g.jmatchers(o)
	}
	if o.J.Form == "bytes" && g.pct(g.pr.buf) {
		g.nbuf++
		o.J.Buf = g.nbuf
	}
}

// mutBytes makes a few random edits, most of them near the ends.
func (g *gen) mutBytes(s string, alphabet string) string {
	b := []byte(s)
	for n := 1 + g.r.Intn(3)/2; n > 0; n-- {
		i := g.r.Intn(len(b) + 1)
		switch g.r.Intn(4) {
		case 0:
			i = len(b)
		case 1:
			i = 0
		}
		c := alphabet[g.r.Intn(len(alphabet))]
		switch {
		case g.pct(45) || i == len(b):
			b = append(b[:i], append([]byte{c}, b[i:]...)...)
		case g.pct(50):
			b = append(b[:i], b[i+1:]...)
		default:
			b[i] = c
		}
	}
	return string(b)
}

func (g *gen) jform(j *JIn) {
	if j.Doc == nil {
		return
	}
	j.Form = g.pick([]string{"str", "bytes", "go"})
	j.Ws, j.Perm = 0, 0
	if g.pct(60) {
		j.Ws = 1 + uint64(g.r.Intn(1000))
	}
	if g.pct(60) {
		j.Perm = 1 + uint64(g.r.Intn(1000))
	}
	if j.Form == "go" && hasBigNum(j.Doc) {
		j.Form = "str"
	}
}

func hasBigNum(v *JV) bool {
	if v.K == "n" && v.S == "1e400" {
		return true
	}
	for _, c := range v.L {
		if hasBigNum(c) {
			return true
		}
	}
	return false
}

func (g *gen) placeholder() *Val {
	vs := []Val{{K: "s", S: "<masked>"}, {K: "s", S: "q\"\\\n"}, {K: "i", N: 7}, {K: "t", N: 1}, {K: "n"}, {K: "f", F: 1.5},
		{K: "m", Ks: []string{"k"}, L: []Val{{K: "i", N: 1}}}, {K: "l", L: []Val{{K: "s", S: "e"}}}, {K: "s", S: "---"}, {K: "s", S: ""}}
	if g.pct(3) {
		return &Val{K: "inf", N: int64(g.r.Intn(4))}
	}
	v := vs[g.r.Intn(len(vs))]
	return &v
}

var missing = []string{"nope", "a.nope", "list.99", "user.x.y", "zz.0"}

// search is a path with wildcards and queries that leads to the value, or to one before it.
func (g *gen) search(doc *JV, p jpath, multi bool) string {
	if strings.Contains(p.path, "\\") {
		return p.path // gjson loses its way when it tries a list before the member a wildcard means
	}
	cs := make([]string, len(p.comps))
	v, wild := doc, false
	for i, c := range p.comps {
		cs[i] = escPath(c)
		o, n := v, v.get([]string{c})
		v = n
		switch {
		case o.K == "o" && simpleKey(c) && g.pct(40):
			j := g.r.Intn(len(c))
			wild = true
			cs[i] = g.pick([]string{"*", c[:j] + "*", "*" + c[j:], c[:j] + "?" + c[j+1:], c + "*", c[:j] + "*" + c[j:]})
		case o.K == "a" && n.K == "o" && !wild && g.pct(80):
			var qs []string
			for j, k := range n.Ks {
				if k = unq(k); !simpleKey(k) {
					continue
				}
				qs = append(qs, k)
				if x := n.L[j]; x.K == "s" && queryable(x.S) || x.K == "n" && index1(x.S) {
					qs = append(qs, k+"=="+x.S, k+"!="+g.pick([]string{`"x"`, x.S}))
				} else if x.K == "t" {
					qs = append(qs, k+"==true", k+"!=false")
				}
			}
			if len(qs) == 0 {
				continue
			}
			cs[i] = "#(" + g.pick(qs) + ")"
			// gjson can't locate all elements of a list below a query
			if multi && g.pct(35) {
				cs[i] += "#"
			}
			multi = false
		}
	}
	return strings.Join(cs, ".")
}

func simpleKey(k string) bool {
	for _, r := range k {
		if (r < 'a' || r > 'z') && (r < 'A' || r > 'Z') {
			return false
		}
	}
	return k != ""
}

// queryable: string tokens that mean the same as the literal of a query.
func queryable(s string) bool {
	for _, r := range s[1 : len(s)-1] {
		if r < ' ' || r > 'z' || r == '\\' || r == '"' || r == '~' {
			return false
		}
	}
	return len(s) > 2 && len(s) < 60
}

func index1(s string) bool { _, ok := index(s); return ok }

// first is the first value a path names.
func (v *JV) first(p string) *JV {
	if ns, _, _ := v.targets(p); len(ns) > 0 {
		return ns[0]
	}
	return nil
}

// oddPaths describe no position of a document, or several.
var oddPaths = []string{"a|b", "list.#", "list.#.id", "#.a", "list.#.name", "{a,b}", "a.@this", "@keys", "user.list.#.a", ":a", "list.0|id", "list.#.l.#.a", "#.list.#.id", "list.#.#.a"}

// noPaths describe something that is no part of the document.
var noPaths = []string{"a|b", "list.#", "{a,b}", "{a}", "a.@this", "list.0|id", "user|name", "user.@this", "list.@this"}

func (g *gen) jmatchers(o *Op) { g.jmatchersFor(o, o.J.Doc.clone()) }

func (g *gen) jmatchersFor(o *Op, doc *JV) {
	n := 1 + g.r.Intn(3)
	if g.sc["matchers"] && g.pct(50) {
		n = 4 + g.r.Intn(6)
	}
	for ; n > 0; n-- {
		ps := doc.paths()
		m := MSpec{K: g.pick([]string{"any", "any", "type", "custom"})}
		ko := g.pct(g.pr.matchKo)
		if g.pct(20) {
			m.NoErr = true
		}
		np := 1
		if m.K != "custom" && g.pct(35) {
			np = 2 + g.r.Intn(2)
			if g.sc["paths"] {
				np = 4 + g.r.Intn(8)
			}
		}
		for i := 0; i < np; i++ {
			var cand []jpath
			if m.K == "type" && !ko && i > 0 {
				for _, p := range ps {
					if typeName(p.node.plain()) == m.T {
						cand = append(cand, p)
					}
				}
			} else {
				cand = append(cand, ps...)
			}
			if len(cand) == 0 || (ko && g.pct(60)) || (m.NoErr && g.pct(40)) {
				if !ko && !m.NoErr && i > 0 {
					continue
				}
				if !ko && !m.NoErr {
					m.NoErr = true
				}
				m.Paths = append(m.Paths, g.pick(missing))
				if m.T == "" {
					m.T = "string"
				}
				continue
			}
			p := cand[g.r.Intn(len(cand))]
			if g.pct(3) {
				p.path = g.pick(oddPaths)
				if m.K != "any" {
					p.path = g.pick(noPaths)
				}
			}
			if g.pct(16) {
				p.path = g.search(doc, p, m.K == "any")
			}
			m.Paths = append(m.Paths, p.path)
			if m.T == "" || m.K != "type" {
				m.T = typeName(p.node.plain())
			}
		}
		switch m.K {
		case "any":
			m.T = ""
			if g.pct(40) {
				m.Ph = g.placeholder()
				if ko && g.pct(8) {
					m.Ph = &Val{K: "ch"}
				}
			}
		case "type":
			if ko && g.pct(50) {
				m.T = g.pick(typeNames)
			} else if g.pct(12) {
				m.T = anyType
			}
			ok := m.T == anyType
			for _, t := range typeNames {
				ok = ok || t == m.T
			}
			if !ok {
				m.T = "string"
			}
		case "custom":
			m.T = "const"
			m.Ph = g.placeholder()
			switch {
			case ko && g.pct(50):
				m.T = "err"
			case g.pct(20):
				m.T = "ident"
			case g.pct(20):
				m.T = "typed"
			case ko || g.pct(3):
				m.Ph = &Val{K: "ch"}
			}
			if m.T == "ident" {
				if n := doc.first(m.Paths[0]); n != nil && n.K != "s" && n.K != "t" && n.K != "f" && n.K != "z" {
					m.T = "const"
				}
			}
		}
		if g.pct(g.pr.buf) {
			g.nms++
			m.Shared = g.nms
		}
		o.M = append(o.M, m)
		if d, _, unsure := applyJSON(doc, []MSpec{m}); !unsure {
			doc = d
		}
	}
}

// ---------------------------------------------------------------- YAML

var yamlTexts = []string{
	"a: 1\nb: two\n", "a: 1", "# comment\na: 1 # trailing\nb: [1, 2]\n", "---\na: 1\n---\nb: 2\n", "---\na: 1\n...\n", "- 1\n- 2\n- x: y\n",
	"a:\n  b:\n    - c\n    - d: |\n        line\n          more\n\n", "z: 1\na: 2\nm: 3\n", "a: \"---\"\n", "s: >-\n  folded\n  text\n", "\n\na: 1\n\n\n", "a: 'it''s'\n",
	"a: &x\n  k: v\nb: *x\n", "{a: 1, b: [x, y]}\n", "plain scalar", "", "a: ~\n", "a: 1\n---\n", "--- \na: 1\n", "# only a comment\n", "a: |\n  [TestAlpha - 1]\n  ---\n  x\n",
	"a: é日本\n", "key with space: v\n", "\"quoted.key\": 1\n", "a: 0x1F\nb: 1_000\nc: 1.50\nd: yes\n", "a: 1\n\n---\n\nb: 2\n---\nc: 3", "a:   1    # odd   spacing\nb:\t2\n", "a: \"\\u00e9\\n\"\n",
	"/-/-/-/", "a: |\n  /-/-/-/\n", "'---'\n", "list:\n- a\n- b\n", "list:\n    -   a\n    -   b\n", "date: 2020-01-01\nt: 2001-12-14t21:59:43.10-05:00\n", "? k\n: v\n", "[TestAlpha - 1]\n", "a: [\n  1,\n  2\n]\n",
	"/-/-/-/\n", "//-/-/-/\n", "a: 1 \nb: 2  \n", "\ufeffa: 1\n", "\ufeff", "%YAML 1.2\n---\na: 1\n", "a: !!str 1\n", "a: &x {k: v}\nb:\n  <<: *x\n  c: 1\n", "...\n", "a: \"x\u2028y\"\n",
	"a: \u00a0\n", "---", "---\n---\n", "--- # c\na: 1\n", "a: |+\n  x\n\n\n", "a: |2-\n    x\n", "-\n-\n", "[]\n", "\"\"", " ", "\n", "\n\n", "#", "a: 1 # ---\n", "a: 1\n#---\n---\n#[TestAlpha - 1]\n", "a: 1\u2028\n", "\u00a0a: 1\n", "a: 1\x00\n", "\xff: 1\n", "a: \xff\n",
}

var badYAML = []string{"a: b: c\n", "{a: ", "key: [1, 2", "\"unterminated", "a: 1\n b: 2\n  - x", "%", "a: 'x", "- a\nb: 1\n", "a: &\n", "\tx: 1\n", "a:\n\t- 1\n", "}"}

// ---------------------------------------------------------------- initial disk

func (g *gen) initial() {
	if !g.pct(g.pr.initf) {
		return
	}
	p := g.p
	// what a complete earlier run could have left, in some order, with strangers among it
	files := map[string][]entry{}
	var order []string
	add := func(path, id, body string) {
		if _, ok := files[path]; !ok {
			order = append(order, path)
		}
		for _, e := range files[path] {
			if e.ID == id {
				return
			}
		}
		files[path] = append(files[path], entry{ID: id, Body: body})
	}
	dirs := map[string]bool{}
	var walk func(ops []Op, full string, file int)
	var names []string
	walk = func(ops []Op, full string, file int) {
		names = append(names, full)
		ord := map[string]int{}
		for i := range ops {
			o := &ops[i]
			if o.K == "run" {
				walk(o.Sub.Ops, full+"/"+strings.NewReplacer(" ", "_", "\t", "_").Replace(o.Sub.Name), o.Sub.File)
				continue
			}
			if !o.isMatch() {
				continue
			}
			pre, suf := p.location(o, file, full)
			ord[pre+"\x00"+suf]++
			k := ord[pre+"\x00"+suf]
			path := pre
			if o.standalone() {
				path = pre + strconv.Itoa(k) + suf
			}
			dirs[path[:strings.LastIndexByte(path, '/')]] = true
			if !g.pct(60) {
				continue
			}
			e := p.format(o)
			if e.Err || len(e.Fails) > 0 || e.Unsure {
				continue
			}
			txt := e.Text
			if g.pct(15) {
				txt = noCR(g.mutText(txt, false))
			}
			if o.standalone() {
				p.Init = append(p.Init, FileSpec{Path: path, Data: Raw(txt)})
			} else {
				add(path, full+" - "+strconv.Itoa(k), txt)
				if g.pct(25) {
					add(path, full+" - "+strconv.Itoa(k+1+g.r.Intn(10)), g.noHeadText())
				}
			}
		}
	}
	for i := range g.p0 {
		walk(g.p0[i].Ops, g.p0[i].Name, g.p0[i].File)
	}
	for _, path := range append([]string{}, order...) {
		n := g.r.Intn(4)
		if g.sc["stale"] {
			n = 10 + g.r.Intn(50)
		}
		for ; n > 0; n-- {
			t := g.pick([]string{"TestGone", "TestAlphaGone", "TestAlpha/gone", "FuzzGone", "TestZ/a_b/c", "TestBeta", "TestAlpha"})
			add(path, t+" - "+strconv.Itoa(1+g.r.Intn(12+n*2)), g.noHeadText())
		}
	}
	shuffle := g.pct(60)
	for _, path := range order {
		es := files[path]
		if shuffle {
			for i := len(es) - 1; i > 0; i-- {
				j := g.r.Intn(i + 1)
				es[i], es[j] = es[j], es[i]
			}
		}
		if g.pr.twins > 0 && g.pct(g.pr.twins) {
			for n := 1 + g.r.Intn(3); n > 0; n-- {
				e, i := es[g.r.Intn(len(es))], g.r.Intn(len(es)+1)
				if g.pct(70) {
					e.Body = g.noHeadText()
				}
				es = append(es[:i:i], append([]entry{e}, es[i:]...)...)
			}
		}
		p.Init = append(p.Init, FileSpec{Path: path, Data: Raw(g.layOut(es))})
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sortStrings(ds)
	for _, d := range append([]string{}, ds...) {
		if up := d[:max(0, strings.LastIndexByte(d, '/'))]; g.pct(25) && !dirs[up] && strings.HasPrefix(up, "/sim/") {
			ds = append(ds, up)
		}
	}
	if g.pct(40) {
		ds = append(ds, p.dirName()+"/__snapshots__")
	}
	if g.pct(30) {
		ds = append(ds, p.dirName()+"/elsewhere")
	}
	known := map[string]bool{}
	for _, f := range p.Init {
		known[f.Path] = true
	}
	for _, d := range ds {
		for n := g.r.Intn(4); n > 0; n-- {
			f := FileSpec{Path: d + "/" + g.pick([]string{"notes.txt", "README.md", "foreign.snap", "old_test.snap", "x.snapshot", "TestGone_1.snap", "TestGone_1.snap.json",
				"TestAlpha_7.snap", "two_test.snap", ".snap", "a.snap.bak", "snap", "sub.snap/inner.snap", "sub/inner.snap", "one_test.go", "TestAlpha_sub_3.snap", "TestAlphaBeta_1.snap",
				"old.SNAP", "x.snap~", ".hidden.snap", "TestAlpha_x.snap", "TestGone_1.snap.txt", "a.snapped", "x.snap.snap", ".snapx", "#a.snap#", "日本.snap", "TestGone.snap"})}
			if known[f.Path] {
				continue
			}
			known[f.Path] = true
			switch {
			case g.pct(30):
				f.Data = Raw(encodeEntry("TestOld - 1", "old", true))
			case g.pct(60):
				// entries of tests that live elsewhere now, are gone, or only look like tests of the plan
				var b strings.Builder
				ids := map[string]bool{}
				for n := 1 + g.r.Intn(3); n > 0; n-- {
					t := "TestOld"
					switch {
					case len(names) > 0 && g.pct(35):
						t = g.pick(names)
					case g.pct(50):
						t = g.pick([]string{"TestGone", "TestAlphaGone", "FuzzGone", "TestZ/a_b/c", "TestBeta", "TestAlpha"})
					}
					id := t + " - " + strconv.Itoa(1+g.r.Intn(3))
					if ids[id] {
						continue
					}
					ids[id] = true
					body := string(g.noHeadText())
					if len(names) > 0 && g.pct(40) {
						body = g.pick([]string{"", "x\n", "\n"}) + "[" + g.pick(names) + " - 1]" + g.pick([]string{"", "\ny"})
					}
					b.WriteString(encodeEntry(id, body, true))
				}
				f.Data = Raw(b.String())
			default:
				f.Data = "some text\n"
			}
			p.Init = append(p.Init, f)
		}
	}
}

// layOut writes entries, sometimes spaced as only an editor or a merge would.
func (g *gen) layOut(es []entry) string {
	by := g.pct(12)
	var b strings.Builder
	for _, e := range es {
		t := encodeEntry(e.ID, e.Body, true)
		if e.Body == "" && g.pct(30) {
			t = "\n[" + e.ID + "]\n---\n"
		}
		if by {
			switch g.r.Intn(4) {
			case 0:
				t = t[1:]
			case 1:
				t = "\n\n" + t
			case 2:
				t += "\n"
			}
		}
		b.WriteString(t)
	}
	s := b.String()
	if by && g.pct(40) {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

// noHeadText is a body without lines that look like the frame of an entry.
func (g *gen) noHeadText() string { return noCR(g.text(false)) }

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// ---------------------------------------------------------------- histories

func eachOp(ts []TestSpec, f func(o *Op)) {
	for i := range ts {
		eachIn(ts[i].Ops, f)
	}
}

func eachIn(ops []Op, f func(o *Op)) {
	for i := range ops {
		f(&ops[i])
		if ops[i].Sub != nil {
			eachIn(ops[i].Sub.Ops, f)
		}
		eachIn(ops[i].Ops, f)
	}
}

// derive is the program of the next run.
func (g *gen) derive(ts []TestSpec) []TestSpec {
	if g.pct(12) {
		ts = cloneTests(g.p0)
	}
	// undo what earlier runs added temporarily
	eachLists(ts, func(ops []Op) []Op {
		var out []Op
		for _, o := range ops {
			if o.K != "skip" && o.K != "skipf" && o.K != "skipnow" && o.K != "tskip" && o.K != "fatal" {
				out = append(out, o)
			}
		}
		return out
	})
	if g.pct(g.pr.rews) {
		eachOp(ts, func(o *Op) {
			if o.J != nil && g.pct(60) {
				c := g.p.cfg(o.Cfg).JSON
				perm := o.J.Perm
				g.jform(o.J)
				if c != nil && !c.Sort {
					o.J.Perm = perm
					if o.J.Form == "go" {
						o.J.Form = "str"
					}
				}
			}
		})
	}
	if g.pct(g.pr.remask) {
		eachOp(ts, func(o *Op) {
			if len(o.M) > 0 && o.J != nil && g.pct(70) {
				g.remask(o)
			}
			if len(o.M) > 0 && o.Y != nil && g.pct(70) {
				g.remaskY(o)
			}
		})
	}
	if g.pct(g.pr.mutate) {
		frac := []int{20, 50, 100}[g.r.Intn(3)]
		eachOp(ts, func(o *Op) {
			if !o.isMatch() || !g.pct(frac) {
				return
			}
			g.mutateOp(o)
		})
	}
	if g.pct(g.pr.drop) {
		for i := len(ts) - 1; i >= 0; i-- {
			if len(ts) > 1 && g.pct(25) {
				ts = append(ts[:i], ts[i+1:]...)
			}
		}
		eachLists(ts, func(ops []Op) []Op {
			var out []Op
			for _, o := range ops {
				if (o.isMatch() || o.K == "run") && g.pct(25) {
					continue
				}
				out = append(out, o)
			}
			return out
		})
	}
	if g.pct(g.pr.add) {
		for i := range ts {
			if g.pct(40) {
				k := len(ts[i].Ops)
				for k > 0 && ts[i].Ops[k-1].K == "cleanup" {
					k--
				}
				rest := append([]Op{g.op(ts[i].Name)}, ts[i].Ops[k:]...)
				ts[i].Ops = append(ts[i].Ops[:k], rest...)
			}
		}
	}
	if g.pct(g.pr.reorder) {
		for i := len(ts) - 1; i > 0; i-- {
			j := g.r.Intn(i + 1)
			ts[i], ts[j] = ts[j], ts[i]
		}
	}
	return ts
}

func eachLists(ts []TestSpec, f func([]Op) []Op) {
	for i := range ts {
		ts[i].Ops = f(ts[i].Ops)
		for k := range ts[i].Ops {
			if s := ts[i].Ops[k].Sub; s != nil {
				l := []TestSpec{*s}
				eachLists(l, f)
				*s = l[0]
			}
		}
	}
}

// wrap lets some calls get the test inside a value of the user's own type.
func (g *gen) wrap(ts []TestSpec) {
	eachLists(ts, func(ops []Op) []Op {
		for i := range ops {
			if (ops[i].isMatch() || strings.HasPrefix(ops[i].K, "skip")) && g.pct(60) {
				ops[i].Wrap = 1 + g.r.Intn(3)
			}
		}
		return ops
	})
}

func (g *gen) mutateOp(o *Op) {
	switch o.K {
	case "snap", "ssnap":
		i := g.r.Intn(len(o.Vals))
		o.Vals[i] = g.mutVal(o.Vals[i], o.K == "ssnap")
	case "json", "sjson":
		if o.J.Doc == nil || g.pct(15) {
			g.value(o)
			return
		}
		ps := o.J.Doc.paths()
		if len(ps) == 0 {
			g.value(o)
			return
		}
		n := ps[g.r.Intn(len(ps))].node
		*n = *g.jv(1)
		if o.J.Form == "go" && hasBigNum(o.J.Doc) {
			o.J.Form = "str"
		}
		o.J.Buf = 0
	case "yaml":
		g.mutYAML(o)
	}
}

// remask changes only values under masked paths, keeping their type.
func (g *gen) remask(o *Op) {
	if o.J.Doc == nil {
		return
	}
	o.J.Buf = 0
	for _, m := range o.M {
		if m.T == "ident" || m.T == "err" {
			continue
		}
		for _, p := range m.Paths {
			n := o.J.Doc.first(p)
			if n == nil || hasBigNum(n) {
				continue
			}
			if (m.K == "any" || m.T == anyType) && n.K != "z" && n.K != "o" && n.K != "a" && g.pct(40) {
				*n = JV{K: g.pick([]string{"s", "t", "f"}), S: g.pick(jstrs)}
				if n.K != "s" {
					n.S = ""
				}
				continue
			}
			switch n.K {
			case "s":
				n.S = g.pick(jstrs)
			case "n":
				n.S = g.pick(jnums[:len(jnums)-1])
			case "t", "f":
				n.K = g.pick([]string{"t", "f"})
			case "o", "a":
				if m.K != "type" || g.pct(50) {
					k := n.K
					for {
						v := g.jv(2)
						if v.K == k {
							if !hasBigNum(v) {
								*n = *v
							}
							break
						}
					}
				}
			case "z":
				if m.K == "any" {
					*n = JV{K: "s", S: `"was null"`}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- one run

func (g *gen) run(i, n int, ts []TestSpec, trim bool) RunSpec {
	r := RunSpec{Env: map[string]string{}, MapSeed: g.r.U64() % 1000003, Tests: ts}
	switch {
	case g.pct(g.pr.ci):
		switch g.r.Intn(4) {
		case 0:
			r.Env["GITHUB_ACTIONS"] = "true"
		case 1:
			r.Env["BUILD_NUMBER"] = "12"
		default:
			r.Env["CI"] = g.pick([]string{"true", "1", "yes"})
		}
	case g.pct(6):
		r.Env["CI"] = g.pick([]string{"false", ""})
		if r.Env["CI"] == "false" && g.pct(40) {
			r.Env["GITHUB_ACTIONS"] = "true"
		}
	}
	switch {
	case i > 0 && g.pct(g.pr.upd):
		r.Env["UPDATE_SNAPS"] = "true"
	case g.pct(35):
		r.Env["UPDATE_SNAPS"] = g.pick([]string{"clean", "clean", "clean", "true", "false", "", "1", "True", "always", "clean ", "TRUE", "CLEAN", "truely", "cleanup", "t", " true", "update"})
	}
	if g.pct(g.pr.nocolor) {
		r.Env["NO_COLOR"] = g.pick([]string{"1", "", "true"})
	}
	if trim || (g.pr.trim > 30 && g.pct(30)) {
		r.Trim = true
		if g.pct(50) {
			r.Env["GOFLAGS"] = g.pick([]string{"-trimpath", "-mod=mod -trimpath", "--trimpath -v"})
		}
	} else if g.pct(g.pr.chdir) {
		// a test binary, compiled by go test -c, that is run from another directory
		r.Start = g.pick([]string{"/", "/sim", "/sim/abs", "/sim/mod"})
	}
	if g.pct(g.pr.count) || g.sc["count"] {
		r.Count = 2 + g.r.Intn(2)
		if g.sc["count"] {
			r.Count = 4 + g.r.Intn(9)
		}
		if g.pct(g.pr.iters) {
			eachOp(r.Tests, func(o *Op) {
				if (o.isMatch() || o.K == "run") && g.pct(30) {
					for k := 1; k <= r.Count; k++ {
						if g.pct(55) {
							o.Iters = append(o.Iters, k)
						}
					}
				}
			})
		}
	}
	if g.pct(g.pr.skip) {
		g.addSkips(r.Tests)
	}
	if g.pct(g.pr.fatal) {
		eachLists(r.Tests, func(ops []Op) []Op {
			if g.pct(30) {
				return g.insert(ops, Op{K: g.pick([]string{"fatal", "tskip"})})
			}
			return ops
		})
	}
	if g.pct(g.pr.cleanup) {
		eachLists(r.Tests, func(ops []Op) []Op {
			if !g.pct(40) || (len(ops) > 0 && ops[len(ops)-1].K == "cleanup") {
				return ops
			}
			o := g.op("")
			for o.standalone() || o.Cfg > 0 {
				o = Op{K: "snap"}
				g.value(&o)
			}
			o.Shape = ""
			return append(ops, Op{K: "cleanup", Ops: []Op{o}})
		})
	}
	if g.pct(g.pr.chdir) && !g.par {
		eachLists(r.Tests, func(ops []Op) []Op {
			if g.pct(40) {
				return g.insert(ops, Op{K: "chdir", Arg: g.pick([]string{"/", "/sim", "..", "/sim/abs", "."})})
			}
			return ops
		})
	}
	if g.pct(g.pr.filter) {
		r.RunPat = g.pattern(r.Tests)
	}
	if g.par {
		r.Parallel = []int{0, 1, 2, 3, 8}[g.r.Intn(5)]
	}
	if g.pct(g.pr.clean) {
		k := 1 + g.r.Intn(8)/6
		if g.sc["cleans"] {
			k = 3 + g.r.Intn(2)
		}
		for ; k > 0; k-- {
			r.Clean = append(r.Clean, CleanSpec{Sort: g.pct(g.pr.sort)})
		}
		if len(r.Clean) == 2 && g.pct(60) {
			r.Clean[1] = r.Clean[0]
		}
	}
	r.Sched = simrt.Sched{Strat: g.pick([]string{"run", "random", "random", "sticky", "sticky", "pct", "rr"}), Seed: g.r.U64() % 1000003, Depth: 1 + g.r.Intn(5)}
	if g.par && g.pct(g.pr.yield) {
		r.Sched.YieldGap = []int{1, 2, 5, 15, 50}[g.r.Intn(5)]
	}
	if g.pct(g.pr.knobs) {
		r.Chunk = []int{1, 3, 16, 64}[g.r.Intn(4)]
		r.ShortRd = g.pct(50)
	}
	if g.pct(25) {
		r.StepNS = []int64{1, 1000_000, 300_000_000, 2_000_000_000}[g.r.Intn(4)]
	}
	if g.pct(g.pr.faults) {
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			r.Faults = append(r.Faults, g.fault())
		}
	}
	if g.pct(g.pr.jump) {
		r.Faults = append(r.Faults, simrt.Fault{Kind: "any", Nth: 1 + g.r.Intn(60), Mode: "jump", Arg: []int{1, 999, 5000, 86400000}[g.r.Intn(4)]})
	}
	if g.pct(g.pr.crash) && i < n-1 {
		f := simrt.Fault{Kind: "any", Nth: 1 + g.r.Intn(40), Mode: "crash", Scope: g.pick([]string{"", "call", "call", "clean"})}
		r.Faults = append(r.Faults, f)
	}
	return r
}

func (g *gen) insert(ops []Op, o Op) []Op {
	i := g.r.Intn(len(ops) + 1)
	if i == 0 && len(ops) > 0 && ops[0].K == "parallel" {
		i = 1
	}
	out := append([]Op{}, ops[:i]...)
	out = append(out, o)
	return append(out, ops[i:]...)
}

func (g *gen) addSkips(ts []TestSpec) {
	done := false
	eachLists(ts, func(ops []Op) []Op {
		if !g.pct(35) {
			return ops
		}
		done = true
		o := Op{K: g.pick([]string{"skip", "skipf", "skipnow"})}
		if g.pct(60) {
			return append([]Op{o}, ops...)
		}
		return g.insert(ops, o)
	})
	if !done && len(ts) > 0 {
		i := g.r.Intn(len(ts))
		ts[i].Ops = append([]Op{{K: "skip"}}, ts[i].Ops...)
	}
	// a skipped test and a test that shares its name as a prefix, with fewer calls than it had
	if !g.pct(30) {
		return
	}
	type pair struct{ a, b *TestSpec }
	var pairs []pair
	var walk func(sibs []*TestSpec)
	walk = func(sibs []*TestSpec) {
		for _, a := range sibs {
			for _, b := range sibs {
				if a != b && len(b.Name) > len(a.Name) && strings.HasPrefix(b.Name, a.Name) {
					pairs = append(pairs, pair{a, b})
				}
			}
		}
		for _, t := range sibs {
			var subs []*TestSpec
			for i := range t.Ops {
				if t.Ops[i].Sub != nil {
					subs = append(subs, t.Ops[i].Sub)
				}
			}
			walk(subs)
		}
	}
	var top []*TestSpec
	for i := range ts {
		top = append(top, &ts[i])
	}
	walk(top)
	if len(pairs) > 0 {
		p := pairs[g.r.Intn(len(pairs))]
		if len(p.b.Ops) > 0 {
			p.b.Ops = p.b.Ops[:g.r.Intn(len(p.b.Ops))]
		}
		p.a.Ops = append([]Op{{K: g.pick([]string{"skip", "skipf", "skipnow"})}}, p.a.Ops...)
	}
}

// bracketPats have the separators of -run inside brackets and parentheses.
var bracketPats = []string{"^Test[^/]*$", "Test[^|]lpha", "Test[A|B]", "Test(Alpha|Beta)", "Test(Alpha|Beta)/(sub|case|a)", "Test[[:upper:]]", "^Test[A|B][^/|]+$|Gamma", "Test/[^/]+$",
	"(Test(Alpha|Delta)|TestB)", "Test[()]|Beta", "TestA[^]]*/.", "Alpha/[a|s]/x|Beta", "Test[\\]]|Alpha", "Test\\w+|None/x", "((Alpha))/((.))", "^(Test[AB][^)]*|TestGamma)$/."}

func (g *gen) pattern(ts []TestSpec) string {
	var names []string
	var walk func(t *TestSpec, full string)
	walk = func(t *TestSpec, full string) {
		names = append(names, full)
		for i := range t.Ops {
			if s := t.Ops[i].Sub; s != nil {
				walk(s, full+"/"+strings.NewReplacer(" ", "_", "\t", "_").Replace(s.Name))
			}
		}
	}
	for i := range ts {
		walk(&ts[i], ts[i].Name)
	}
	if len(names) == 0 {
		return "Test"
	}
	quote := func(s string) string {
		var b strings.Builder
		for _, r := range s {
			if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
				b.WriteByte('\\')
			}
			b.WriteRune(r)
		}
		return b.String()
	}
	n := quote(g.pick(names))
	switch g.r.Intn(11) {
	case 9, 10:
		return g.pick(bracketPats)
	case 0, 1:
		return n
	case 2:
		return "^" + strings.ReplaceAll(n, "/", "$/^") + "$"
	case 3:
		return n + "|" + quote(g.pick(names))
	case 4:
		return "^" + strings.SplitN(n, "/", 2)[0] + "$"
	case 5:
		return "Test[A-D]"
	case 6:
		return "Alpha|Beta"
	case 7:
		return "Test/sub"
	}
	return fmt.Sprintf("(%s|TestNothing)", strings.SplitN(n, "/", 2)[0])
}

func (g *gen) fault() simrt.Fault {
	f := simrt.Fault{Nth: 1 + g.r.Intn(6), Scope: "call"}
	if g.pct(g.pr.cleanFl) {
		f.Scope = "clean"
	}
	type km struct {
		k string
		m []string
	}
	c := []km{
		{"write", []string{"ENOSPC", "EIO", "short", "torn", "EDQUOT"}}, {"write", []string{"ENOSPC", "short", "torn"}},
		{"openw", []string{"EACCES", "EROFS", "EMFILE", "ENOSPC"}}, {"open", []string{"EACCES", "EMFILE", "EIO"}},
		{"read", []string{"EIO"}}, {"truncate", []string{"EIO", "EPERM"}}, {"seek", []string{"EIO"}}, {"close", []string{"EIO", "ENOSPC"}},
		{"mkdir", []string{"EACCES", "ENOSPC", "EROFS"}}, {"readdir", []string{"EIO", "EACCES"}}, {"remove", []string{"EACCES", "EPERM", "EIO"}},
		{"fstat", []string{"EIO"}}, {"rename", []string{"EIO", "ENOSPC"}}, {"fsync", []string{"EIO"}}, {"stat", []string{"EIO"}},
	}
	x := c[g.r.Intn(len(c))]
	f.Kind, f.Mode = x.k, g.pick(x.m)
	if f.Mode == "torn" || f.Mode == "short" {
		f.Arg = 1 + g.r.Intn(20)
	}
	if f.Scope == "clean" {
		f.Nth = 1 + g.r.Intn(3)
	}
	return f
}
