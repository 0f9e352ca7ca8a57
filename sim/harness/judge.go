package harness

import (
	"bytes"
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
	"github.com/gkampitakis/go-snaps/verifsim/stest"
	"github.com/maruel/natural"
)

// Viol is one way in which an execution broke properties.
type Viol struct {
	Tags  []string
	Class string // stable name, used while shrinking
	Msg   string
	Run   int
}

func (v *Viol) Has(prop string) bool {
	for _, t := range v.Tags {
		if t == prop {
			return true
		}
	}
	return false
}

var allProps = func() []string {
	var o []string
	for i := 1; i <= 20; i++ {
		o = append(o, fmt.Sprintf("C%02d", i))
	}
	return o
}()

// Result is the outcome of executing and judging one plan.
type Result struct {
	Viols  []Viol
	Runs   []*RunRes
	Stats  Coverage
	Files  map[string][]byte // final disk
	Hashes []uint64
}

// Coverage counts what a plan actually reached.
type Coverage struct {
	Procs, Calls, Steps, Decisions, Switches int
	SimNS                                    int64
	Faults                                   map[string]int
	Outcomes                                 map[string]int
	Probes                                   map[string]int
	Overlaps                                 int
}

func (c *Coverage) probe(s string) { c.Probes[s]++ }

type judge struct {
	p       *Plan
	res     *Result
	run     int
	r       *RunSpec
	rr      *RunRes
	tainted map[string]bool
	stray   map[string]bool            // working files a failed or killed write may leave beside its file
	owners  map[string]map[string]bool // standalone path prefix+suffix -> tests
	ctx     []string                   // properties whose mechanism earlier runs exercised
	exp     map[*Op]*expected
	obs     map[int]string // observed outcome of each call
	races   bool
}

// enough: the plan broke the property it was made for, or anything ten times.
func (j *judge) enough() bool {
	for i := range j.res.Viols {
		if p := j.p.Prop; p == "" || j.res.Viols[i].Has(p) {
			return true
		}
	}
	return len(j.res.Viols) >= 10
}

// Execute runs the whole plan; it stops after the first process that breaks the property in question.
func Execute(p *Plan) *Result {
	j := &judge{p: p, res: &Result{}, tainted: map[string]bool{}, stray: map[string]bool{}, owners: map[string]map[string]bool{}, exp: map[*Op]*expected{}}
	st := &j.res.Stats
	st.Faults, st.Outcomes, st.Probes = map[string]int{}, map[string]int{}, map[string]int{}
	fs := p.setup()
	for i := range p.Runs {
		j.run, j.r = i, &p.Runs[i]
		j.rr = p.execRun(fs, j.r)
		j.res.Runs = append(j.res.Runs, j.rr)
		ps := &j.rr.Proc.Stats
		st.Procs++
		st.Calls += len(j.rr.Calls)
		st.Steps += ps.Steps
		st.Decisions += ps.Decisions
		st.Switches += ps.Switches
		st.SimNS += ps.SimNS
		for k, v := range ps.Faults {
			st.Faults[k] += v
		}
		j.res.Hashes = append(j.res.Hashes, ps.Hash)
		j.judgeRun()
		if j.enough() {
			break
		}
	}
	if !j.enough() {
		j.judgePairs(fs)
	}
	j.res.Files = fs.Files()
	return j.res
}

func (j *judge) bad(class string, tags []string, f string, a ...any) {
	seen := map[string]bool{}
	var t []string
	for _, x := range tags {
		if x != "" && !seen[x] {
			seen[x] = true
			t = append(t, x)
		}
	}
	sort.Strings(t)
	j.res.Viols = append(j.res.Viols, Viol{Tags: t, Class: class, Msg: fmt.Sprintf("run %d: ", j.run) + fmt.Sprintf(f, a...), Run: j.run})
}

func (j *judge) expect(o *Op) *expected {
	if e := j.exp[o]; e != nil {
		return e
	}
	e := j.p.format(o)
	j.exp[o] = &e
	return &e
}

func (r *RunSpec) ci() bool {
	if r.Env["CI"] == "false" {
		return false
	}
	// a variable that is set, even to nothing, counts (ciinfo)
	for _, k := range []string{"CI", "GITHUB_ACTIONS", "BUILD_NUMBER"} {
		if _, ok := r.Env[k]; ok {
			return true
		}
	}
	return false
}

func (r *RunSpec) upd() string { return r.Env["UPDATE_SNAPS"] }

func (r *RunSpec) cleanMode() bool { return !r.ci() && (r.upd() == "true" || r.upd() == "clean") }

// perms is the mode table of C05.
func (j *judge) perms(o *Op) (create, update bool) {
	if j.r.ci() {
		return false, false
	}
	if u := j.p.cfg(o.Cfg).Update; u != nil {
		return *u, *u
	}
	return true, j.r.upd() == "true"
}

func (j *judge) parallelRun() bool { return j.rr.Proc.Stats.MaxTasks > 2 && j.hasParallel(j.r.Tests) }

func (j *judge) hasParallel(ts []TestSpec) bool {
	for i := range ts {
		if opsParallel(ts[i].Ops) {
			return true
		}
	}
	return false
}

func opsParallel(ops []Op) bool {
	for i := range ops {
		if ops[i].K == "parallel" || (ops[i].Sub != nil && opsParallel(ops[i].Sub.Ops)) {
			return true
		}
	}
	return false
}

// callTags are the properties a wrong outcome or effect of this call speaks about.
func (j *judge) callTags(c *Call) []string {
	t := append([]string{}, j.ctx...)
	o := c.Op
	switch o.K {
	case "json":
		t = append(t, "C14")
	case "sjson":
		t = append(t, "C14", "C19")
	case "ssnap":
		t = append(t, "C19")
	case "yaml":
		t = append(t, "C18")
	}
	if len(o.M) > 0 {
		t = append(t, "C15", "C16", "C17")
	}
	if o.Cfg > 0 && !j.p.Cfgs[o.Cfg-1].Fresh {
		t = append(t, "C12")
	}
	if o.Cfg > 0 || j.r.Trim || (o.Shape != "" && o.Shape != "direct") || o.standalone() {
		t = append(t, "C11")
	}
	if j.parallelRun() {
		t = append(t, "C06")
	}
	if j.rr.Iters > 1 {
		t = append(t, "C03")
	}
	return t
}

type slotState struct {
	has  bool
	text string
}

// wantFile is the model of one multi-entry file during a run.
type wantFile struct {
	pre   snapFile
	order []string // ids in file order: pre-existing ones, then created ones in call order
	raw   map[string]string
	val   map[string]string
	fresh map[string]bool // created or rewritten in this run
	maybe map[string][]string
	wrote bool
	// an entry could not be written, which may leave the file it was made for empty
	undone bool
}

func (j *judge) judgeRun() {
	rr, pr := j.rr, j.rr.Proc
	if pr.Panic != "" {
		j.bad("panic", allProps, "the test process died: %s", cut(pr.Panic, 1500))
		return
	}
	if pr.Deadlock != "" {
		j.bad("deadlock", allProps, "deadlock: %s", pr.Deadlock)
		return
	}
	if pr.Livelock != "" {
		j.bad("livelock", allProps, "no progress: %s", pr.Livelock)
		return
	}
	if pr.Exited {
		j.bad("exit", allProps, "go-snaps called os.Exit(%d)", pr.ExitCode)
		return
	}
	if rr.Races > 0 {
		t := []string{"C06"}
		if len(j.p.Cfgs) > 0 {
			t = append(t, "C12")
		}
		for _, c := range rr.Calls {
			if len(c.Op.M) > 0 {
				t = append(t, "C15")
				break
			}
		}
		j.races = true
		j.bad("race", t, "%d data race(s) reported between concurrent tests", rr.Races)
		return
	}
	if j.parallelRun() {
		j.res.Stats.probe("parallel run")
	}
	j.learnOwners(j.r.Tests)
	j.obs = map[int]string{}
	j.judgeDisk(j.judgeCalls())
	j.judgeClean()
	// what this run exercised and a later run may reveal
	add := func(p string) {
		for _, x := range j.ctx {
			if x == p {
				return
			}
		}
		j.ctx = append(j.ctx, p)
	}
	for _, o := range pr.Ops {
		if o.Call == -1 && o.Mut {
			add("C10")
			add("C07")
			if o.Kind == "remove" {
				add("C09")
			}
		}
	}
	for _, c := range rr.Calls {
		if j.obs[c.ID] == "updated" {
			add("C04")
			break
		}
	}
	if j.parallelRun() {
		add("C06")
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (j *judge) learnOwners(ts []TestSpec) {
	for _, c := range j.rr.Calls {
		if c.Op.standalone() {
			key := c.Path + "\x00" + c.Suf
			if j.owners[key] == nil {
				j.owners[key] = map[string]bool{}
			}
			j.owners[key][c.Test] = true
		}
	}
}

// outcome classifies what a call signalled to its test.
func outcome(es []stest.Event) (string, string) {
	var errs, logs []stest.Event
	for _, e := range es {
		switch e.Kind {
		case "error":
			errs = append(errs, e)
		case "log":
			logs = append(logs, e)
		default:
			return "", "unexpected " + e.Kind
		}
	}
	switch {
	case len(errs) == 0 && len(logs) == 0:
		return "passed", ""
	case len(errs) == 1 && len(logs) == 0:
		return "failed", ""
	case len(errs) == 0 && len(logs) == 1:
		l := strings.ToLower(logs[0].Text)
		a, u := strings.Contains(l, "added"), strings.Contains(l, "updated")
		if a && !u {
			return "added", ""
		}
		if u && !a {
			return "updated", ""
		}
	}
	return "", "signalled " + stest.Text(es)
}

func (j *judge) faulted(c *Call) (any, mut bool) {
	for _, o := range c.FSOps {
		if o.Fault != "" {
			any = true
		}
		if o.Mut && !strings.HasPrefix(o.Kind, "mkdir") {
			mut = true
		}
	}
	return
}

// undone: the call failed because a write to its file did (with nothing else going wrong, and with no
// other call using the file meanwhile). The file holds more than the entry of the call, so it must be
// what it was: part of a new entry would take in the entries that come after it, and part of a rewritten
// file lacks those of others.
func (j *judge) undone(c *Call) bool {
	if !c.Done || c.Op.standalone() {
		return false
	}
	first, last, ok := -1, -1, false
	for _, o := range c.FSOps {
		if strings.HasPrefix(o.Kind, "mkdir") {
			if o.Fault != "" {
				return false
			}
			continue
		}
		if o.Path != c.Slot() && (o.Mut || o.Fault != "") {
			return false
		}
		if o.Fault != "" {
			if ok || o.Kind != "write" && o.Kind != "seek" {
				return false
			}
			ok = true
		}
		if first < 0 && (o.Mut || o.Fault != "") {
			first = o.N
		}
		last = o.N
	}
	if !ok {
		return false
	}
	for _, d := range j.rr.Calls {
		for _, o := range d.FSOps {
			if d != c && o.Path == c.Slot() && o.N > first && o.N <= last {
				return false
			}
		}
	}
	return true
}

// leavings notes what a write that failed or was killed may leave behind: files it made itself in the
// directory of the file it was writing.
func (j *judge) leavings(ops []simrt.FSOp, dirs map[string]bool, before map[string][]byte) {
	slots := map[string]bool{}
	for _, c := range j.rr.Calls {
		slots[c.Slot()] = true
	}
	for _, o := range ops {
		if slots[o.Path] {
			continue
		}
		if _, had := before[o.Path]; o.Mut && !had && dirs[filepath.Dir(o.Path)] && !strings.HasSuffix(o.Path, "/") {
			j.stray[o.Path] = true
		}
	}
}

func (j *judge) judgeCalls() map[string]*wantFile {
	rr := j.rr
	files := map[string]*wantFile{}
	load := func(path string) *wantFile {
		if f := files[path]; f != nil {
			return f
		}
		f := &wantFile{raw: map[string]string{}, val: map[string]string{}, fresh: map[string]bool{}, maybe: map[string][]string{}}
		f.pre = parseSnap(rr.Before[path])
		if f.pre.Torn || f.pre.Junk != "" || bytes.Contains(rr.Before[path], []byte("\r\n")) {
			j.tainted[path] = true
		}
		for _, e := range f.pre.Entries {
			if _, dup := f.raw[e.ID]; dup {
				j.tainted[path] = true
				continue
			}
			f.order = append(f.order, e.ID)
			f.raw[e.ID], f.val[e.ID] = e.Raw, e.Body
		}
		files[path] = f
		return f
	}
	alone := map[string]*slotState{}
	// a call that failed half way through changing a file spoils it, from that operation on, also for
	// the calls that overlap it
	spoilt := map[string]int{}
	for _, c := range rr.Calls {
		if ft, mut := j.faulted(c); !mut || (c.Done && !ft) || j.undone(c) {
			continue
		}
		if obs, _ := outcome(c.Events); c.Done && obs != "failed" {
			continue
		}
		for _, o := range c.FSOps {
			if o.Mut && !strings.HasPrefix(o.Kind, "mkdir") {
				if n, ok := spoilt[c.Slot()]; !ok || o.N < n {
					spoilt[c.Slot()] = o.N
				}
				break
			}
		}
	}
	for _, c := range rr.Calls {
		if n, ok := spoilt[c.Slot()]; ok && len(c.FSOps) > 0 && c.FSOps[len(c.FSOps)-1].N > n {
			j.tainted[c.Slot()] = true
		}
		if c.Dirty != "" {
			j.bad("caller-data", []string{"C15"}, "%s changed the bytes it was given: %s", j.desc(c), cut(c.Dirty, 400))
		}
		exp := j.expect(c.Op)
		if exp.Unsure {
			j.tainted[c.Slot()] = true
		}
		if len(exp.Problems) > 0 && c.Done {
			t := exp.PTags
			if c.Op.J != nil {
				t = []string{"C14"}
			}
			j.bad("reference", t, "%s: %s", j.desc(c), cut(exp.Problems[0], 800))
		}
		slot := c.Slot()
		id := c.Test + " - " + strconv.Itoa(c.K)
		var old slotState
		var wf *wantFile
		if c.Op.standalone() {
			s := alone[slot]
			if s == nil {
				b, ok := rr.Before[slot]
				s = &slotState{ok, string(b)}
				alone[slot] = s
			}
			old = *s
		} else {
			wf = load(slot)
			old.text, old.has = wf.val[id]
		}
		create, update := j.perms(c.Op)
		want, why := "", ""
		switch {
		case exp.Err:
			want, why = "failed", "input"
		case len(exp.Fails) > 0:
			want, why = "failed", "matcher"
		case !old.has && create:
			want = "added"
		case !old.has:
			want, why = "failed", "missing"
		case old.text == exp.Text:
			want = "passed"
		case update:
			want = "updated"
		default:
			want, why = "failed", "mismatch"
		}
		ft, mut := j.faulted(c)
		if (ft || !c.Done) && (want == "added" || want == "updated") {
			j.leavings(c.FSOps, map[string]bool{filepath.Dir(slot): true}, rr.Before)
		}
		if !c.Done { // the process died inside this call
			if mut || noCR(exp.Text) != exp.Text {
				j.tainted[slot] = true
			} else if wf != nil {
				wf.maybe[id] = append(wf.maybe[id], exp.Text)
			}
			j.res.Stats.probe("died inside a call")
			continue
		}
		obs, sig := outcome(c.Events)
		if obs == "" {
			j.bad("signal", append(j.callTags(c), "C20"), "%s %s", j.desc(c), cut(sig, 600))
			continue
		}
		j.obs[c.ID] = obs
		j.res.Stats.Outcomes[obs]++
		if j.tainted[slot] {
			continue
		}
		if ft {
			j.res.Stats.probe("faulted call " + want + "->" + obs)
			if obs == "failed" {
				if wf != nil && (want == "added" || want == "updated") && j.undone(c) {
					j.res.Stats.probe("failed write undone: " + want)
					wf.undone = true
				} else if mut {
					j.tainted[slot] = true
				}
				continue
			}
			// a fault that the call survived must not change its meaning
		}
		if !c.Op.standalone() && !exp.Err && noCR(exp.Text) != exp.Text {
			if want == "added" && len(exp.Fails) == 0 {
				j.judgeCR(c, obs, exp)
			}
			j.tainted[slot] = true
			continue
		}
		if obs != want {
			j.wrongOutcome(c, want, why, obs, old, exp)
			j.tainted[slot] = true
			continue
		}
		j.res.Stats.probe(c.Op.K + ":" + want + why)
		if why == "mismatch" {
			j.judgeReport(c, old.text, exp.Text)
		}
		if why == "matcher" {
			txt := c.Events[0].Text
			for _, f := range exp.Fails {
				if !strings.Contains(txt, f.Path) || !strings.Contains(txt, f.Matcher) {
					j.bad("matcher-message", []string{"C17"}, "%s: the failure does not name match.%s(%q): %q", j.desc(c), f.Matcher, f.Path, cut(txt, 300))
				}
			}
		}
		if want != "added" && want != "updated" {
			for _, o := range c.FSOps {
				if o.Mut {
					t := append(j.callTags(c), "C05", "C04")
					switch {
					case want == "passed":
						t = append(t, "C01")
					case why == "matcher":
						t = append(t, "C17")
					case why == "mismatch":
						t = append(t, "C02")
					}
					j.bad("write-in-"+want+why, t, "%s must not write (%s %s) but did %s %s", j.desc(c), want, why, o.Kind, o.Path)
					break
				}
			}
			continue
		}
		if wf == nil {
			*alone[slot] = slotState{true, exp.Text}
			continue
		}
		if !old.has {
			wf.order = append(wf.order, id)
		}
		wf.val[id] = exp.Text
		wf.fresh[id] = true
		wf.wrote = true
	}
	for p, s := range alone {
		files[p] = &wantFile{val: map[string]string{"": s.text}, wrote: s.has, order: nil}
	}
	return files
}

// judgeCR: a value with carriage returns at the end of lines is stored as it is; that it does not
// replay is the documented limitation.
func (j *judge) judgeCR(c *Call, obs string, exp *expected) {
	if obs != "added" {
		j.wrongOutcome(c, "added", "", obs, slotState{}, exp)
		return
	}
	for _, o := range j.rr.Calls {
		if o == c || o.Slot() != c.Slot() || len(c.FSOps) == 0 {
			continue
		}
		for _, f := range o.FSOps {
			if f.Mut && f.N > c.FSOps[0].N { // also by a call that started earlier
				return
			}
		}
	}
	got, ok := j.rr.After[c.Slot()]
	if !ok || strings.Contains(exp.Text, "---") || strings.Contains(exp.Text, "/-") {
		return
	}
	j.res.Stats.probe("carriage returns stored")
	if !strings.Contains(string(got), "]\n"+exp.Text+"\n---\n") {
		j.bad("stored-text", append(j.callTags(c), "C18"), "%s: %q is not stored as it is: %q", j.desc(c), exp.Text, cut(string(got), 600))
	}
}

func (j *judge) desc(c *Call) string {
	return fmt.Sprintf("call %d (%s #%d of %s, iteration %d, slot %s)", c.ID, c.Op.K, c.K, c.Test, c.Iter, c.Slot())
}

func (j *judge) wrongOutcome(c *Call, want, why, obs string, old slotState, exp *expected) {
	t := j.callTags(c)
	switch {
	case want == "passed":
		t = append(t, "C01", "C03", "C04")
		if obs != "failed" {
			t = append(t, "C05")
		}
	case why == "mismatch" || want == "updated":
		t = append(t, "C02", "C03")
		if want == "updated" {
			t = append(t, "C04", "C05")
		}
		if obs == "passed" {
			t = append(t, "C13")
		} else {
			t = append(t, "C05")
		}
	case why == "missing":
		t = append(t, "C05", "C03", "C02")
	case want == "added":
		t = append(t, "C05", "C03", "C01")
	case why == "matcher":
		t = append(t, "C17")
	case why == "input":
		t = append(t, "C14", "C18")
	}
	j.bad("outcome:"+want+why+"->"+obs, t, "%s should have %s %s but %s; stored %s, received %s; signalled %s",
		j.desc(c), want, why, obs, quoteOr(old), cut(strconv.Quote(exp.Text), 300), cut(stest.Text(c.Events), 500))
}

func quoteOr(s slotState) string {
	if !s.has {
		return "nothing"
	}
	return cut(strconv.Quote(s.text), 300)
}

// judgeDisk compares the disk after the tests (before Clean) with the model.
func (j *judge) judgeDisk(files map[string]*wantFile) {
	rr := j.rr
	after := rr.After
	crashed := after == nil
	if crashed {
		after = rr.End
		for _, o := range rr.Proc.Ops {
			if o.Call == -1 {
				return // died inside Clean; the state before it is not known separately
			}
		}
	}
	byPath := map[string]*Call{}
	for _, c := range rr.Calls {
		byPath[c.Slot()] = c
	}
	tagsFor := func(p string) []string {
		if c := byPath[p]; c != nil {
			return j.callTags(c)
		}
		return append([]string{}, j.ctx...)
	}
	for _, p := range stest.SortedKeys(files) {
		wf := files[p]
		got, ok := after[p]
		if j.tainted[p] {
			if wf.raw != nil {
				j.judgeKept(p, got, tagsFor(p))
			}
			continue
		}
		if wf.raw == nil { // standalone
			if wf.wrote != ok {
				j.bad("standalone-presence", append(tagsFor(p), "C19", "C11", "C05", "C03"), "%s exists: %v, expected %v", p, ok, wf.wrote)
			} else if ok && string(got) != wf.val[""] {
				j.bad("standalone-content", append(tagsFor(p), "C19", "C04", "C03"), "%s holds %q, expected %q", p, cut(string(got), 400), cut(wf.val[""], 400))
			}
			continue
		}
		before, had := rr.Before[p]
		if !wf.wrote && len(wf.maybe) == 0 {
			if wf.undone && !had && len(got) == 0 {
				continue // made for an entry that could not be written
			}
			if ok != had || !bytes.Equal(before, got) {
				j.bad("file-changed", append(tagsFor(p), "C01", "C05", "C04", "C03"), "%s changed although no call may write it: %q became %q", p, cut(string(before), 300), cut(string(got), 300))
			}
			continue
		}
		j.judgeFile(p, wf, got, tagsFor(p))
	}
	// nothing else may appear, vanish or change
	for _, p := range stest.SortedKeys(after) {
		if files[p] != nil || j.tainted[p] || j.stray[p] {
			continue
		}
		b, had := rr.Before[p]
		dir := strings.HasSuffix(p, "/")
		switch {
		case !had && dir:
			needed := false
			for q, wf := range files {
				if strings.HasPrefix(q, p) && (wf.wrote || j.tainted[q] || len(wf.maybe) > 0 || j.anyFault()) {
					needed = true
				}
			}
			if !needed && !j.anyTaint() && !crashed {
				j.bad("new-dir", append(j.allTags(), "C05", "C11"), "directory %s was created", p)
			}
		case !had:
			j.bad("new-file", append(j.allTags(), "C11", "C05", "C12", "C03"), "unexpected file %s created: %q", p, cut(string(after[p]), 300))
		case !bytes.Equal(b, after[p]):
			j.bad("other-file", append(j.allTags(), "C03", "C05", "C11"), "file %s, which no call addresses, changed: %q became %q", p, cut(string(b), 300), cut(string(after[p]), 300))
		}
	}
	for _, p := range stest.SortedKeys(rr.Before) {
		if _, ok := after[p]; !ok && !j.tainted[p] && !j.stray[p] {
			j.bad("lost-file", append(j.allTags(), "C03", "C05", "C07"), "%s disappeared", p)
		}
	}
}

// judgeKept: whatever went wrong while entries were added to a file (a failed write, a crash, an
// unterminated entry of an earlier one), the complete entries that were there stay as they are.
func (j *judge) judgeKept(p string, got []byte, tags []string) {
	for _, c := range j.rr.Calls {
		if _, update := j.perms(c.Op); update && c.Slot() == p {
			return
		}
	}
	rest := got
	for _, e := range parseSnap(j.rr.Before[p]).Entries {
		s := "[" + e.ID + "]\n"
		if e.Raw != "" { // an empty one has one line or none
			s += e.Raw + "\n---"
		}
		if j.rr.Before[p] == nil || !bytes.Contains(j.rr.Before[p], []byte(s)) {
			return // carriage returns
		}
		i := bytes.Index(rest, []byte(s))
		if i < 0 {
			j.bad("entry-lost", append(tags, "C03", "C06"), "%s: the entry [%s] is not what it was although only additions were made: %q", p, e.ID, cut(string(got), 700))
			return
		}
		rest = rest[i+len(s):]
	}
	j.res.Stats.probe("entries kept through a fault")
}

func (j *judge) anyTaint() bool { return len(j.tainted) > 0 }

func (j *judge) anyFault() bool {
	for _, o := range j.rr.Proc.Ops {
		if o.Fault != "" {
			return true
		}
	}
	return false
}

func (j *judge) allTags() []string {
	t := append([]string{}, j.ctx...)
	for _, c := range j.rr.Calls {
		t = append(t, j.callTags(c)...)
	}
	return t
}

// judgeFile checks a multi-entry file that calls were allowed to write.
func (j *judge) judgeFile(p string, wf *wantFile, got []byte, tags []string) {
	f := parseSnap(got)
	if f.Torn || f.Junk != "" {
		j.bad("malformed", append(tags, "C03", "C04", "C06", "C01"), "%s is not well formed: %q", p, cut(string(got), 700))
		return
	}
	pos := map[string]int{}
	for i, e := range f.Entries {
		if _, dup := pos[e.ID]; dup {
			j.bad("duplicate", append(tags, "C03", "C06"), "%s holds [%s] twice: %q", p, e.ID, cut(string(got), 700))
			return
		}
		pos[e.ID] = i
	}
	last := -1
	for _, e := range wf.pre.Entries {
		i, ok := pos[e.ID]
		if !ok {
			j.bad("entry-lost", append(tags, "C03", "C06", "C04"), "%s lost the entry [%s]", p, e.ID)
			return
		}
		if i < last {
			j.bad("entry-order", append(tags, "C03", "C04"), "%s: the entry [%s] moved", p, e.ID)
			return
		}
		last = i
	}
	for _, id := range wf.order {
		i, ok := pos[id]
		if !ok {
			j.bad("entry-missing", append(tags, "C03", "C06", "C05"), "%s has no entry [%s]: %q", p, id, cut(string(got), 500))
			return
		}
		e := f.Entries[i]
		if wf.fresh[id] {
			if e.Body != wf.val[id] {
				okv := false
				for _, m := range wf.maybe[id] {
					okv = okv || m == e.Body
				}
				if !okv {
					j.bad("entry-value", append(tags, "C03", "C04", "C06", "C01"), "%s: [%s] replays as %q, expected %q", p, id, cut(e.Body, 300), cut(wf.val[id], 300))
				}
			}
		} else if e.Raw != wf.raw[id] && len(wf.maybe[id]) == 0 {
			j.bad("entry-changed", append(tags, "C03", "C04", "C06"), "%s: [%s] was %q and is now %q", p, id, cut(wf.raw[id], 300), cut(e.Raw, 300))
		}
		delete(pos, id)
	}
	for _, id := range stest.SortedKeys(pos) {
		if len(wf.maybe[id]) > 0 {
			continue
		}
		j.bad("entry-extra", append(tags, "C03", "C06", "C05"), "%s holds an unexpected entry [%s]", p, id)
	}
	if len(wf.pre.Entries) > 0 && len(f.Entries) > 0 && !strings.HasPrefix(string(got), "\n[") && strings.HasPrefix(string(j.rr.Before[p]), "\n[") {
		j.bad("entry-sep", append(tags, "C04", "C03"), "%s: blank separator lost: %q", p, cut(string(got), 200))
	}
}

// ---------------------------------------------------------------- Clean

var (
	ansi   = regexp.MustCompile("\x1b\\[[0-9;]*m")
	totals = regexp.MustCompile(`^\S+ (\d+) snapshots? (passed|failed|added|updated|skipped)$`)
	headRe = regexp.MustCompile(`^\S+ (\d+) snapshot (file|test)s? (obsolete|removed)$`)
	itemRe = regexp.MustCompile(`^\s*↳\s*• ?(.*)$`)
)

type summary struct {
	counts map[string]int
	files  []string
	tests  []string
	action map[string]string
	nhead  map[string]int
}

func parseSummary(out, cwd string) summary {
	s := summary{counts: map[string]int{}, action: map[string]string{}, nhead: map[string]int{}}
	cur := ""
	for _, l := range strings.Split(ansi.ReplaceAllString(out, ""), "\n") {
		if m := totals.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			s.counts[m[2]] += n
			continue
		}
		if m := headRe.FindStringSubmatch(l); m != nil {
			cur = m[2]
			s.action[cur] = m[3]
			n, _ := strconv.Atoi(m[1])
			s.nhead[cur] = n
			continue
		}
		if m := itemRe.FindStringSubmatch(l); m != nil {
			it := m[1]
			if cur == "file" {
				if !filepath.IsAbs(it) {
					it = filepath.Join(cwd, it)
				}
				s.files = append(s.files, it)
			} else {
				s.tests = append(s.tests, it)
			}
		}
	}
	return s
}

const (
	keep   = iota // must be neither listed nor touched
	stale         // must be listed, and removed exactly in clean mode
	either        // undetermined: listing and removal must agree
)

func desc(test, of string) bool { return test == of || strings.HasPrefix(test, of+"/") }

func (j *judge) protectedTest(test string) bool {
	for _, s := range j.rr.Skips {
		if desc(test, s.Test) {
			return true
		}
	}
	return false
}

// overProtected adds C08 for a stale entry whose test only shares a prefix with a skipped one.
func (j *judge) overProtected(test string, tags ...string) []string {
	for _, s := range j.rr.Skips {
		if strings.HasPrefix(test, s.Test) || strings.HasPrefix(s.Test, test) {
			return append(tags, "C08")
		}
	}
	return tags
}

// filtered: -run did not select this test.
func (j *judge) filtered(test string) bool {
	ok, _ := stest.Selected(j.r.RunPat, test)
	return !ok
}

func (j *judge) judgeClean() {
	rr := j.rr
	addr := map[string]map[string]bool{} // multi-entry file -> ids
	alone := map[string]bool{}
	dirs := map[string]bool{}
	for _, c := range rr.Calls {
		s := c.Slot()
		dirs[filepath.Dir(s)] = true
		if c.Op.standalone() {
			alone[s] = true
			continue
		}
		if addr[s] == nil {
			addr[s] = map[string]bool{}
		}
		addr[s][c.Test+" - "+strconv.Itoa(c.K)] = true
	}
	cleanFault := false
	for _, o := range rr.Proc.Ops {
		if o.Call == -1 {
			if o.Fault != "" {
				cleanFault = true
			}
		}
	}
	if rr.Proc.Crashed {
		for i := range rr.Cleans {
			cleanFault = cleanFault || !rr.Cleans[i].Finished
		}
		for _, o := range rr.Proc.Ops {
			if o.Call == -1 {
				cleanFault = true
			}
		}
	}
	for i := range rr.Cleans {
		c := &rr.Cleans[i]
		end := c.OpEnd
		after := c.After
		if !c.Finished {
			end, after = len(rr.Proc.Ops), rr.End
		}
		ops := rr.Proc.Ops[c.OpStart:end]
		j.judgeOneClean(i, c, ops, after, addr, alone, dirs, cleanFault)
	}
}

// judgeTwins checks a file that holds several entries with the same id, as a merge can leave it. A
// call reads the first of them, so Clean must not give it another value.
func (j *judge) judgeTwins(c *CleanRes, p string, before, after []byte, addr map[string]bool) {
	f, g := parseSnap(before), parseSnap(after)
	first := func(s snapFile) (map[string]string, bool) {
		m, twins := map[string]string{}, false
		for _, e := range s.Entries {
			if _, ok := m[e.ID]; ok {
				twins = true
				continue
			}
			m[e.ID] = e.Raw
		}
		return m, twins
	}
	was, twins := first(f)
	if !twins || f.Torn || f.Junk != "" {
		return
	}
	j.res.Stats.probe("clean of a file with equal ids")
	is, _ := first(g)
	for _, e := range f.Entries {
		got, ok := is[e.ID]
		if ok && got != was[e.ID] || !ok && addr[e.ID] {
			t := []string{"C10"}
			if addr[e.ID] {
				t = append(t, "C07")
			}
			j.bad("clean-twins", t, "Clean (sort=%v, UPDATE_SNAPS=%q) made [%s] in %s, which occurs twice, replay as %q instead of %q", c.Sort, j.r.upd(), e.ID, p, cut(got, 300), cut(was[e.ID], 300))
			return
		}
	}
}

// undoneClean: Clean failed to read or write p, and nothing else went wrong with it.
func undoneClean(ops []simrt.FSOp, p string) bool {
	faults := 0
	for _, o := range ops {
		if o.Path != p || o.Fault == "" {
			continue
		}
		switch o.Kind {
		case "write", "seek", "read", "truncate", "open", "openw":
			faults++
		default:
			return false
		}
	}
	return faults == 1
}

func (j *judge) judgeOneClean(n int, c *CleanRes, ops []simrt.FSOp, after map[string][]byte,
	addr map[string]map[string]bool, alone, dirs map[string]bool, faulty bool) {
	r := j.r
	del := r.cleanMode()
	sum := parseSummary(c.Out, j.p.startDir(j.r))
	mut := map[string]bool{}
	for _, o := range ops {
		if o.Mut {
			mut[o.Path] = true
			if r.ci() {
				j.bad("clean-ci", []string{"C05", "C09"}, "Clean on CI did %s %s", o.Kind, o.Path)
				break
			}
		}
	}
	if faulty || !c.Finished {
		j.leavings(ops, dirs, c.Before)
	}
	if faulty {
		j.res.Stats.probe("faulted clean")
		for p := range mut {
			if addr[p] != nil {
				if !j.tainted[p] && c.Finished && undoneClean(ops, p) {
					j.res.Stats.probe("failed write undone: clean")
					if !bytes.Equal(c.Before[p], after[p]) {
						j.bad("clean-failed-write", []string{"C10", "C07"}, "Clean failed to read or write %s and %q became %q", p, cut(string(c.Before[p]), 400), cut(string(after[p]), 400))
					}
				}
				j.tainted[p] = true
			}
		}
	}
	wantTests := map[string]int{} // id -> times it must be listed
	mayTests := map[string]int{}
	sortTags := func(t ...string) []string { return t }
	entries := func(p string) {
		b, ok := c.Before[p]
		if ok && !faulty {
			j.judgeTwins(c, p, b, after[p], addr[p])
		}
		if !ok || j.tainted[p] {
			return
		}
		f := parseSnap(b)
		if f.Torn || f.Junk != "" {
			return
		}
		got, exists := after[p]
		if !exists {
			j.bad("clean-lost-file", sortTags("C07", "C10", "C09", "C03"), "Clean removed %s, which calls of this run addressed", p)
			return
		}
		g := parseSnap(got)
		surv := map[string]entry{}
		var gotIDs []string
		for _, e := range g.Entries {
			if _, dup := surv[e.ID]; dup {
				j.bad("clean-dup", sortTags("C10", "C07"), "after Clean %s holds [%s] twice", p, e.ID)
				return
			}
			surv[e.ID] = e
			gotIDs = append(gotIDs, e.ID)
		}
		if g.Torn || g.Junk != "" {
			j.bad("clean-malformed", sortTags("C10", "C07", "C09"), "after Clean %s is not well formed: %q", p, cut(string(got), 600))
			return
		}
		removed := 0
		var survOrder []string
		class := map[string]int{}
		for _, e := range f.Entries {
			test, _ := splitID(e.ID)
			st := stale
			why := ""
			switch {
			case addr[p][e.ID]:
				st, why = keep, "C07"
			case j.protectedTest(test):
				st, why = keep, "C08"
			case r.RunPat != "" && j.filtered(test):
				st, why = keep, "C08"
			case r.RunPat != "":
				st = either
			}
			class[e.ID] = st
			s, in := surv[e.ID]
			if in {
				survOrder = append(survOrder, e.ID)
				delete(surv, e.ID)
				if s.Raw != e.Raw {
					t := sortTags("C10", why)
					if st == keep && why == "C07" {
						t = append(t, "C07")
					}
					j.bad("clean-altered", t, "Clean (sort=%v, UPDATE_SNAPS=%q) changed [%s] in %s from %q to %q", c.Sort, r.upd(), e.ID, p, cut(e.Raw, 300), cut(s.Raw, 300))
					return
				}
			}
			listed := count(sum.tests, e.ID)
			switch st {
			case keep:
				if !in {
					j.bad("clean-lost", sortTags(why, "C10", "C09"), "Clean (sort=%v, UPDATE_SNAPS=%q, -run %q, -count %d) deleted [%s] from %s", c.Sort, r.upd(), r.RunPat, j.rr.Iters, e.ID, p)
					return
				}
				if why == "C08" {
					j.res.Stats.probe("clean protected entry")
				}
			case stale:
				j.res.Stats.probe("clean stale entry")
				wantTests[e.ID]++
				if !in {
					removed++
					if !del {
						j.bad("clean-removed", sortTags("C09", "C10", "C05"), "Clean (sort=%v, UPDATE_SNAPS=%q) deleted the stale entry [%s] from %s although it may not", c.Sort, r.upd(), e.ID, p)
						return
					}
				} else if del && !faulty {
					j.bad("clean-kept", j.overProtected(test, "C09"), "Clean in clean mode left the stale entry [%s] in %s", e.ID, p)
					return
				}
			case either:
				mayTests[e.ID]++
				if !in {
					removed++
				}
				if !faulty && len(addr) == 1 && inconsistent(listed > 0, in, del) {
					j.bad("clean-inconsistent", sortTags("C09", "C20"), "[%s] in %s: listed %v, kept %v, clean mode %v", e.ID, p, listed > 0, in, del)
					return
				}
			}
		}
		for _, id := range stest.SortedKeys(surv) {
			j.bad("clean-invented", sortTags("C10", "C07"), "Clean added [%s] to %s", id, p)
			return
		}
		if faulty {
			return
		}
		if c.Sort && !r.ci() {
			j.res.Stats.probe("clean sort")
			for i := 1; i < len(gotIDs); i++ {
				if natural.Less(gotIDs[i], gotIDs[i-1]) {
					j.bad("clean-unsorted", sortTags("C10"), "%s is not in natural order after sorting: [%s] before [%s]", p, gotIDs[i-1], gotIDs[i])
					return
				}
			}
		} else if strings.Join(survOrder, "\n") != strings.Join(gotIDs, "\n") {
			j.bad("clean-order", sortTags("C10", "C09", "C05"), "Clean reordered %s without being asked to: %q", p, gotIDs)
			return
		}
		var ids []string
		for _, e := range f.Entries {
			ids = append(ids, e.ID)
		}
		needSort := c.Sort && !r.ci() && !sort.SliceIsSorted(ids, func(a, b int) bool { return natural.Less(ids[a], ids[b]) })
		if removed == 0 && !needSort {
			if mut[p] {
				j.bad("clean-rewrite", sortTags("C10", "C05"), "Clean wrote %s, which needs neither pruning nor sorting", p)
				return
			}
			if !bytes.Equal(b, got) {
				j.bad("clean-bytes", sortTags("C10", "C09"), "Clean changed the bytes of %s, which needs neither pruning nor sorting", p)
				return
			}
		}
	}
	for _, p := range stest.SortedKeys(addr) {
		entries(p)
	}
	// files
	wantFiles := map[string]bool{}
	mayFiles := map[string]bool{}
	file := func(p string) {
		if strings.HasSuffix(p, "/") {
			if _, ok := after[p]; !ok {
				j.bad("clean-dir", sortTags("C09"), "Clean removed the directory %s", p)
				return
			}
			return
		}
		if j.stray[p] {
			mayFiles[p] = true
			return
		}
		if addr[p] != nil {
			if _, ok := after[p]; !ok {
				j.bad("clean-lost-file", sortTags("C07", "C09"), "Clean removed %s", p)
				return
			}
			if count(sum.files, p) > 0 {
				j.bad("clean-listed-file", sortTags("C07", "C09"), "Clean lists the addressed file %s as obsolete", p)
				return
			}
			return
		}
		got, in := after[p]
		if in && !bytes.Equal(got, c.Before[p]) {
			t := sortTags("C09", "C10")
			if alone[p] {
				t = append(t, "C07")
			}
			j.bad("clean-other", t, "Clean changed %s", p)
			return
		}
		st := keep
		why := "C09"
		if dirs[filepath.Dir(p)] && strings.Contains(filepath.Base(p), ".snap") {
			st, why = j.fileClass(p, c.Before[p], alone)
		}
		listed := count(sum.files, p)
		switch st {
		case keep:
			if !in {
				j.bad("clean-lost-file", sortTags(why, "C09"), "Clean (UPDATE_SNAPS=%q, -run %q, -count %d) deleted %s", r.upd(), r.RunPat, j.rr.Iters, p)
				return
			}
			if listed > 0 {
				j.bad("clean-listed-file", sortTags(why, "C20"), "Clean (-run %q) lists %s as obsolete", r.RunPat, p)
				return
			}
			if why == "C08" {
				j.res.Stats.probe("clean protected file")
			}
		case stale:
			j.res.Stats.probe("clean stale file")
			wantFiles[p] = true
			if !in && !del {
				j.bad("clean-removed-file", sortTags("C09", "C05"), "Clean deleted %s with UPDATE_SNAPS=%q", p, r.upd())
				return
			}
			if in && del && !faulty {
				j.bad("clean-kept-file", sortTags("C09"), "Clean in clean mode left the stale file %s", p)
				return
			}
		case either:
			mayFiles[p] = true
			if !faulty && inconsistent(listed > 0, in, del) {
				j.bad("clean-inconsistent-file", sortTags("C09", "C20"), "%s: listed %v, kept %v, clean mode %v", p, listed > 0, in, del)
				return
			}
		}
	}
	for _, p := range stest.SortedKeys(c.Before) {
		file(p)
	}
	for _, p := range stest.SortedKeys(after) {
		if _, ok := c.Before[p]; !ok && !j.stray[p] {
			j.bad("clean-created", sortTags("C09", "C05"), "Clean created %s", p)
			break
		}
	}
	if faulty {
		return
	}
	// the printed summary
	for _, p := range sum.files {
		p = strings.TrimSpace(p)
		if !wantFiles[p] && !mayFiles[p] {
			if _, known := c.Before[p]; !known {
				j.bad("clean-list", sortTags("C20", "C09"), "Clean lists %q, which does not exist", p)
				break
			}
		}
	}
	for _, p := range stest.SortedKeys(wantFiles) {
		if count(sum.files, p) != 1 {
			j.bad("clean-unlisted-file", sortTags("C09", "C20"), "Clean lists the stale file %s %d times", p, count(sum.files, p))
			break
		}
	}
	listedTests := map[string]int{}
	for _, t := range sum.tests {
		listedTests[t]++
	}
	taintedAddr := false
	for p := range addr {
		taintedAddr = taintedAddr || j.tainted[p]
	}
	for _, id := range stest.SortedKeys(wantTests) {
		k := wantTests[id]
		if listedTests[id] < k && !taintedAddr {
			t, _ := splitID(id)
			j.bad("clean-unlisted", j.overProtected(t, "C09", "C20"), "Clean lists the stale entry [%s] %d times instead of %d", id, listedTests[id], k)
			break
		}
	}
	for _, id := range stest.SortedKeys(listedTests) {
		k := listedTests[id]
		if k > wantTests[id]+mayTests[id] && !taintedAddr {
			test := id
			if _, ok := headerID("[" + id + "]"); ok {
				test, _ = splitID(id)
			}
			t := sortTags("C20", "C09")
			for _, p := range stest.SortedKeys(addr) {
				if addr[p][id] {
					t = append(t, "C07")
				}
			}
			if j.protectedTest(test) || (r.RunPat != "" && j.filtered(test)) {
				t = append(t, "C08")
			}
			j.bad("clean-listed", t, "Clean lists [%s] as obsolete %d times, expected %d (-run %q, -count %d)", id, k, wantTests[id]+mayTests[id], r.RunPat, j.rr.Iters)
			break
		}
	}
	for _, k := range stest.SortedKeys(sum.nhead) {
		n := sum.nhead[k]
		if l := map[string]int{"file": len(sum.files), "test": len(sum.tests)}[k]; l != n {
			j.bad("summary-head", sortTags("C20"), "the summary announces %d obsolete %ss and lists %d", n, k, l)
			return
		}
		if (sum.action[k] == "removed") != del {
			j.bad("summary-action", sortTags("C20", "C09", "C05"), "the summary says %q with UPDATE_SNAPS=%q ci=%v", sum.action[k], r.upd(), r.ci())
			break
		}
	}
	want := map[string]int{}
	for _, cl := range j.rr.Calls {
		if o := j.obs[cl.ID]; o != "" {
			want[o]++
		}
	}
	want["skipped"] = len(j.rr.Skips)
	for _, k := range []string{"passed", "failed", "added", "updated", "skipped"} {
		if want[k] != sum.counts[k] {
			j.bad("summary-count", sortTags("C20", map[bool]string{true: "C06"}[j.parallelRun()]), "the summary shows %d %s, the process had %d: %q", sum.counts[k], k, want[k], cut(c.Out, 600))
			break
		}
	}
	if n > 0 && c.Sort == j.rr.Cleans[n-1].Sort {
		for _, p := range stest.SortedKeys(mut) {
			j.bad("clean-again", sortTags("C10"), "a second Clean in the same process wrote %s", p)
			break
		}
	}
}

var standaloneName = regexp.MustCompile(`_[0-9]+\.snap`)

// fileClass says what Clean must do with an unaddressed .snap file in a visited directory.
func (j *judge) fileClass(p string, data []byte, alone map[string]bool) (int, string) {
	if alone[p] {
		return keep, "C07"
	}
	r := j.r
	// who owns it?
	var owners []string
	known, custom := false, false
	for key, ts := range j.owners {
		i := strings.IndexByte(key, 0)
		pre, suf := key[:i], key[i+1:]
		if strings.HasPrefix(p, pre) && strings.HasSuffix(p, suf) && len(p) > len(pre)+len(suf) {
			if _, ok := index(p[len(pre) : len(p)-len(suf)]); ok {
				for t := range ts {
					known = true
					if j.protectedTest(t) && filepath.Base(pre) != strings.ReplaceAll(t, "/", "_")+"_" {
						custom = true
						continue
					}
					owners = append(owners, t)
				}
			}
		}
	}
	f := parseSnap(data)
	unsure := false
	protected := func(t string) bool { return j.protectedTest(t) || (r.RunPat != "" && j.filtered(t)) }
	for _, e := range f.Entries {
		t, _ := splitID(e.ID)
		if known || custom {
			// the text of a standalone snapshot may look like entries
			unsure = unsure || protected(t)
			continue
		}
		owners = append(owners, t)
	}
	// lines inside the entries of a well-formed file are values, whatever they look like
	framed := f.Junk == "" && !f.Torn && len(f.Entries) > 0 && !known && !custom && !standaloneName.MatchString(filepath.Base(p))
	for _, l := range strings.Split(string(data), "\n") {
		if id, ok := headerID(strings.TrimSuffix(l, "\r")); ok && !framed {
			t, _ := splitID(id)
			unsure = unsure || protected(t)
		}
	}
	sort.Strings(owners)
	for _, t := range owners {
		if protected(t) {
			return keep, "C08"
		}
	}
	if custom {
		// Recorded finding: nothing on disk tells that a standalone file with a custom
		// name belongs to a test that was skipped before its first call.
		if j.p.Strict {
			return keep, "C08"
		}
		return either, ""
	}
	if r.RunPat != "" || unsure {
		return either, ""
	}
	{
		// by its name it could belong to a skipped test
		for _, s := range j.rr.Skips {
			n := strings.ReplaceAll(s.Test, "/", "_")
			if strings.HasPrefix(filepath.Base(p), n+"_") {
				return either, ""
			}
		}
	}
	return stale, ""
}

// inconsistent: what is listed is what is removed, in clean mode, and nothing is removed otherwise.
func inconsistent(listed, in, del bool) bool {
	if !del {
		return !in
	}
	return listed == in
}

func count(l []string, s string) int {
	n := 0
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return n
}
