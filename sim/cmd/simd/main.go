// Command simd runs simulated histories of go-snaps test processes.
//
//	simd worker  -prop C06 -base N -from I -stride S -count N -deadline SEC -state FILE
//	simd drive   -prop C06 -tier quick -race PATH -evidence FILE -replays DIR -known FILE
//	simd replay  FILE [-prop C06] [-trace]
//	simd gen     -prop C06 -seed N
//	simd determinism -prop C06 -n N
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gkampitakis/go-snaps/verifsim/harness"
	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simd worker|drive|replay|gen|determinism ...")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	a := os.Args[2:]
	switch os.Args[1] {
	case "worker":
		worker(a)
	case "drive":
		drive(a)
	case "replay":
		os.Exit(replay(a))
	case "shrink":
		shrinkCmd(a)
	case "gen":
		genCmd(a)
	case "determinism":
		determinism(a)
	default:
		os.Exit(2)
	}
}

// seedOf makes run i's seed from VERIF_SEED and the property.
func seedOf(base int64, prop string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", base, prop, i)
	return h.Sum64()
}

func find(r *harness.Result, prop string) *harness.Viol {
	for i := range r.Viols {
		if prop == "" || r.Viols[i].Has(prop) {
			return &r.Viols[i]
		}
	}
	return nil
}

// ---------------------------------------------------------------- worker

type found struct {
	Index int
	Seed  uint64
	Class string
	Msg   string
}

type stats struct {
	Plans, Procs, Calls, Steps, Decisions, Switches, Overlaps int
	SimNS                                                     int64
	Faults, Outcomes, Probes, Other                           map[string]int
	Sigs                                                      []uint64
	Scheds                                                    []uint64
	Done                                                      bool
	Found                                                     *found
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Int64("base", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	count := fs.Int("count", 1000, "")
	deadline := fs.Float64("deadline", 60, "")
	state := fs.String("state", "", "")
	all := fs.Bool("all", false, "keep going and print every violation, of every property")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	var sf *os.File
	if *state != "" {
		var err error
		if sf, err = os.OpenFile(*state, os.O_CREATE|os.O_RDWR, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	st := stats{Faults: map[string]int{}, Outcomes: map[string]int{}, Probes: map[string]int{}, Other: map[string]int{}}
	sigs, scheds := map[uint64]bool{}, map[uint64]bool{}
	end := time.Now().Add(time.Duration(*deadline * float64(time.Second)))
	var mu sync.Mutex
	cur, since := 0, time.Now()
	go func() { // a run that never ends is a finding of the driver, not a hung check
		for {
			time.Sleep(500 * time.Millisecond)
			mu.Lock()
			d := time.Since(since)
			i := cur
			mu.Unlock()
			if d > 25*time.Second {
				fmt.Fprintf(os.Stderr, "HANG index %d\n", i)
				os.Exit(86)
			}
		}
	}()
	for i := *from; i < *count; i += *stride {
		if time.Now().After(end) {
			break
		}
		mu.Lock()
		cur, since = i, time.Now()
		mu.Unlock()
		if sf != nil {
			sf.WriteAt([]byte(fmt.Sprintf("%012d", i)), 0)
		}
		seed := seedOf(*base, *prop, i)
		p := harness.Generate(*prop, seed)
		res := harness.Execute(p)
		st.add(res, sigs, scheds)
		if *all {
			for _, v := range res.Viols {
				fmt.Printf("index %d seed %d %s %v %s\n", i, seed, v.Class, v.Tags, v.Msg)
			}
			continue
		}
		if v := find(res, *prop); v != nil {
			st.Found = &found{i, seed, v.Class, v.Msg}
			break
		} else if len(res.Viols) > 0 {
			st.Other[res.Viols[0].Class+" "+strings.Join(res.Viols[0].Tags, ",")]++
		}
	}
	if st.Found == nil {
		st.Done = true
	}
	for k := range sigs {
		st.Sigs = append(st.Sigs, k)
	}
	for k := range scheds {
		st.Scheds = append(st.Scheds, k)
	}
	if *all {
		st.Sigs, st.Scheds = nil, nil
	}
	b, _ := json.Marshal(st)
	fmt.Println("STATS " + string(b))
}

func (st *stats) add(res *harness.Result, sigs, scheds map[uint64]bool) {
	s := &res.Stats
	st.Plans++
	st.Procs += s.Procs
	st.Calls += s.Calls
	st.Steps += s.Steps
	st.Decisions += s.Decisions
	st.Switches += s.Switches
	st.SimNS += s.SimNS
	for k, v := range s.Faults {
		st.Faults[k] += v
	}
	for k, v := range s.Outcomes {
		st.Outcomes[k] += v
	}
	for k, v := range s.Probes {
		st.Probes[k] += v
	}
	h := uint64(14695981039346656037)
	for i, r := range res.Runs {
		h = (h ^ res.Hashes[i]) * 1099511628211
		for _, c := range r.Calls {
			h = (h ^ uint64(len(c.Events)*31+c.K)) * 1099511628211
			for _, e := range c.Events {
				h = (h ^ uint64(len(e.Text))) * 1099511628211
			}
		}
		if r.Proc.Stats.Decisions > 0 {
			scheds[res.Hashes[i]] = true
		}
	}
	if s.Calls > 0 {
		sigs[h] = true
	}
}

// ---------------------------------------------------------------- gen, replay, determinism

func genCmd(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 0, "")
	fs.Parse(args)
	b, _ := json.MarshalIndent(harness.Generate(*prop, *seed), "", " ")
	fmt.Println(string(b))
}

func loadPlan(f string) (*harness.Plan, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	p := &harness.Plan{}
	return p, json.Unmarshal(b, p)
}

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	class := fs.String("class", "", "")
	trace := fs.Bool("trace", false, "")
	times := fs.Int("times", 1, "")
	file := args[0]
	fs.Parse(args[1:])
	p, err := loadPlan(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for n := 0; n < *times; n++ {
		simrt.Trace = *trace
		res := harness.Execute(p)
		if *trace {
			for i, r := range res.Runs {
				fmt.Printf("--- process %d\n%s\n", i, strings.Join(r.Proc.Log, "\n"))
				for _, e := range r.Events {
					fmt.Printf("    %s/%d call %d %s %q\n", e.Test, e.Iter, e.Call, e.Kind, e.Text)
				}
				for _, c := range r.Cleans {
					fmt.Printf("    clean: %q\n", c.Out)
				}
			}
			for k, v := range res.Files {
				if !strings.HasSuffix(k, "/") && strings.Contains(k, ".snap") {
					fmt.Printf("    disk %s %q\n", k, v)
				}
			}
		}
		hit := false
		for _, v := range res.Viols {
			if (*prop == "" || v.Has(*prop)) && (*class == "" || v.Class == *class) {
				fmt.Printf("VIOLATES %s %v\n%s\n", v.Class, v.Tags, v.Msg)
				hit = true
			}
		}
		if hit {
			return 1
		}
	}
	fmt.Println("holds")
	return 0
}

func shrinkCmd(args []string) {
	fs := flag.NewFlagSet("shrink", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tag := fs.String("tag", "", "")
	seed := fs.Uint64("seed", 0, "")
	class := fs.String("class", "", "")
	out := fs.String("out", "", "")
	budget := fs.Float64("budget", 20, "")
	fs.Parse(args)
	p := harness.Generate(*prop, *seed)
	if *tag == "" {
		*tag = *prop
	}
	if *tag == "any" {
		*tag = ""
	}
	tries := 1
	if *class == "race" {
		tries = 4
	}
	bad := func(q *harness.Plan) bool {
		for i := 0; i < tries; i++ {
			res := harness.Execute(q)
			for _, v := range res.Viols {
				if v.Class == *class && (*tag == "" || v.Has(*tag)) {
					return true
				}
			}
		}
		return false
	}
	q := harness.Shrink(p, time.Duration(*budget*float64(time.Second)), bad)
	q = harness.ShrinkPicks(q, time.Duration(*budget*float64(time.Second))/3, bad)
	res := harness.Execute(q)
	for _, v := range res.Viols {
		if v.Class == *class {
			q.Note = v.Class + ": " + v.Msg
		}
	}
	b, _ := json.MarshalIndent(q, "", " ")
	if *out == "" {
		fmt.Println(string(b))
	} else if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// determinism runs every seed twice in one process and prints a digest of everything observable;
// the caller compares digests of different processes and worker layouts.
func determinism(args []string) {
	fs := flag.NewFlagSet("determinism", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Int64("base", 1, "")
	n := fs.Int("n", 100, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	fs.Parse(args)
	simrt.Trace = true
	digest := func(i int) uint64 {
		h := fnv.New64a()
		res := harness.Execute(harness.Generate(*prop, seedOf(*base, *prop, i)))
		for _, r := range res.Runs {
			for _, l := range r.Proc.Log {
				fmt.Fprintln(h, l)
			}
			for _, e := range r.Events {
				fmt.Fprintln(h, e)
			}
			for _, o := range r.Proc.Ops {
				fmt.Fprintln(h, o)
			}
			h.Write(r.Proc.Stdout)
		}
		ks := []string{}
		for k := range res.Files {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(h, "%s %q\n", k, res.Files[k])
		}
		for _, v := range res.Viols {
			fmt.Fprintln(h, v.Class, v.Tags, v.Msg)
		}
		return h.Sum64()
	}
	bad := 0
	for i := *from; i < *n; i += *stride {
		a := digest(i)
		if b := digest(i); a != b {
			fmt.Printf("index %d differs within one process: %x %x\n", i, a, b)
			bad++
		}
		fmt.Printf("%d %016x\n", i, a)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

// ---------------------------------------------------------------- driver

type knownFinding struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Replay   string `json:"replay"`
	Class    string `json:"class"`
}

func drive(args []string) {
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	racebin := fs.String("race", "", "")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	base := fs.Int64("base", 1, "")
	count := fs.Int("count", 0, "")
	wall := fs.Float64("wall", 0, "")
	raceCount := fs.Int("racecount", 0, "")
	build := fs.Float64("build", 0, "seconds spent building")
	level := fs.String("level", "", "")
	fs.Parse(args)
	start := time.Now()
	self, err := os.Executable()
	must(err)
	tmp, err := os.MkdirTemp("", "simd")
	must(err)
	defer os.RemoveAll(tmp)
	must(os.MkdirAll(*replays, 0o755))

	// replay the listed findings first
	nKnown := 0
	if b, err := os.ReadFile(*known); err == nil {
		var ks []knownFinding
		must(json.Unmarshal(b, &ks))
		for _, k := range ks {
			if k.Property != *prop || k.Replay == "" {
				continue
			}
			p, err := loadPlan(filepath.Join(filepath.Dir(*known), k.Replay))
			must(err)
			hit := false
			for _, v := range harness.Execute(p).Viols {
				hit = hit || (v.Has(*prop) && v.Class == k.Class)
			}
			if hit {
				nKnown++
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
			}
		}
	}

	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	type job struct {
		bin             string
		from, stride, n int
		race            bool
		st              stats
		state           string
		stderr          bytes.Buffer
		err             error
		cmd             *exec.Cmd
	}
	var jobs []*job
	add := func(bin string, race bool, from, stride, n int) {
		jobs = append(jobs, &job{bin: bin, race: race, from: from, stride: stride, n: n, state: filepath.Join(tmp, fmt.Sprintf("w%d", len(jobs)))})
	}
	rw := 0
	if *racebin != "" && *raceCount > 0 {
		rw = 3
		for i := 0; i < rw; i++ {
			add(*racebin, true, *count+i, rw, *count+*raceCount)
		}
	}
	for i := 0; i < nw-rw; i++ {
		add(self, false, i, nw-rw, *count)
	}
	var wg sync.WaitGroup
	hit := make(chan *job, len(jobs))
	for _, j := range jobs {
		j.cmd = exec.Command(j.bin, "worker", "-prop", *prop, "-base", strconv.FormatInt(*base, 10), "-from", strconv.Itoa(j.from), "-stride", strconv.Itoa(j.stride),
			"-count", strconv.Itoa(j.n), "-deadline", fmt.Sprint(*wall), "-state", j.state)
		j.cmd.Stderr = &j.stderr
		j.cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(tmp, "race")+" suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=2", "GOMEMLIMIT=2500MiB")
		out, err := j.cmd.StdoutPipe()
		must(err)
		must(j.cmd.Start())
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			sc := bufio.NewScanner(out)
			sc.Buffer(make([]byte, 1<<20), 1<<30)
			for sc.Scan() {
				if l := sc.Text(); strings.HasPrefix(l, "STATS ") {
					json.Unmarshal([]byte(l[6:]), &j.st)
				}
			}
			j.err = j.cmd.Wait()
			if j.st.Found != nil || (j.err != nil && !j.st.Done) {
				hit <- j
			}
		}(j)
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	var first *job
	select {
	case first = <-hit:
		select { // let the others report an earlier seed, but not for long
		case <-all:
		case <-time.After(1500 * time.Millisecond):
			for _, j := range jobs {
				j.cmd.Process.Kill()
			}
			<-all
		}
	case <-all:
	}
	if first == nil { // reported just as everything ended
		select {
		case first = <-hit:
		default:
		}
	}
	tot := stats{Faults: map[string]int{}, Outcomes: map[string]int{}, Probes: map[string]int{}, Other: map[string]int{}}
	sigs, scheds := map[uint64]bool{}, map[uint64]bool{}
	raceRuns := 0
	for _, j := range jobs {
		s := &j.st
		if j.race {
			raceRuns += s.Plans
		}
		tot.Plans += s.Plans
		tot.Procs += s.Procs
		tot.Calls += s.Calls
		tot.Steps += s.Steps
		tot.Decisions += s.Decisions
		tot.Switches += s.Switches
		tot.SimNS += s.SimNS
		merge(tot.Faults, s.Faults)
		merge(tot.Outcomes, s.Outcomes)
		merge(tot.Probes, s.Probes)
		merge(tot.Other, s.Other)
		for _, x := range s.Sigs {
			sigs[x] = true
		}
		for _, x := range s.Scheds {
			scheds[x] = true
		}
	}
	var best *job
	for _, j := range jobs {
		if j.st.Found != nil && (best == nil || j.st.Found.Index < best.st.Found.Index) {
			best = j
		}
	}
	code := 0
	switch {
	case best != nil:
		f := best.st.Found
		code = report(best.bin, *prop, f, *replays, tmp)
	case first != nil && first.err != nil:
		// a worker died or hung: decide in a fresh process whether the code under test is to blame
		b, _ := os.ReadFile(first.state)
		i, e := strconv.Atoi(strings.TrimSpace(string(b)))
		if e != nil {
			fmt.Fprintf(os.Stderr, "worker failed: %v\n%s\n", first.err, first.stderr.String())
			os.Exit(2)
		}
		code = reportDead(first.bin, *prop, i, *base, *replays, first.stderr.String())
	}
	wallS := time.Since(start).Seconds()
	writeEvidence(*evidence, *prop, *tier, *base, *level, &tot, len(sigs), len(scheds), wallS, *build, nKnown, raceRuns, code)
	if code == 0 {
		fmt.Printf("%s: held on %d histories (%d simulated processes, %d calls, %d distinct) in %.1f s\n", *prop, tot.Plans, tot.Procs, tot.Calls, len(sigs), wallS)
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "simd:", err)
		os.Exit(2)
	}
}

func merge(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func report(bin, prop string, f *found, dir, tmp string) int {
	file := filepath.Join(dir, fmt.Sprintf("%s-%x.json", prop, f.Seed))
	race := f.Class == "race"
	budget := "25"
	cmd := exec.Command(bin, "shrink", "-prop", prop, "-seed", strconv.FormatUint(f.Seed, 10), "-class", f.Class, "-out", file, "-budget", budget)
	cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(tmp, "race")+" suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=2")
	done := make(chan error, 1)
	if err := cmd.Start(); err == nil {
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(90 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	times := "1"
	if race {
		times = "20"
	}
	confirm := func() bool {
		c := exec.Command(bin, "replay", file, "-prop", prop, "-class", f.Class, "-times", times)
		c.Env = cmd.Env
		err := c.Run()
		ee, ok := err.(*exec.ExitError)
		return ok && ee.ExitCode() == 1
	}
	ok := confirm()
	if !ok { // the minimised plan does not reproduce: fall back to the plan as generated
		b, _ := json.MarshalIndent(harness.Generate(prop, f.Seed), "", " ")
		must(os.WriteFile(file, b, 0o644))
		ok = confirm()
	}
	if !ok {
		fmt.Fprintf(os.Stderr, "simd: seed %d (%s) did not reproduce in a fresh process: %s\n", f.Seed, f.Class, f.Msg)
		return 2
	}
	fmt.Printf("%s (seed %d): %s\n", f.Class, f.Seed, f.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	return 1
}

func reportDead(bin, prop string, index int, base int64, dir, stderr string) int {
	seed := seedOf(base, prop, index)
	p := harness.Generate(prop, seed)
	file := filepath.Join(dir, fmt.Sprintf("%s-%x.json", prop, seed))
	b, _ := json.MarshalIndent(p, "", " ")
	must(os.WriteFile(file, b, 0o644))
	cmd := exec.Command(bin, "replay", file)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 1 && ee.ExitCode() != 0 {
			fmt.Printf("the simulated process kills its host: %s\n", tail(eb.String()))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			return 1
		}
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		fmt.Printf("seed %d never finishes\n", seed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		return 1
	}
	fmt.Fprintf(os.Stderr, "simd: a worker ended unexpectedly at index %d, not reproducible\n%s\n", index, tail(stderr))
	return 2
}

func tail(s string) string {
	if len(s) > 800 {
		return s[:800]
	}
	return s
}

func writeEvidence(file, prop, tier string, seed int64, level string, t *stats, sigs, scheds int, wall, build float64, known, raceRuns, code int) {
	if file == "" {
		return
	}
	var samples []any
	for i := 0; i < 3; i++ {
		s := seedOf(seed, prop, i)
		p := harness.Generate(prop, s)
		var runs []string
		for k := range p.Runs {
			r := &p.Runs[k]
			runs = append(runs, fmt.Sprintf("env=%v run=%q count=%d trim=%v tests=%d clean=%v faults=%v sched=%s/%d", r.Env, r.RunPat, r.Count, r.Trim, len(r.Tests), r.Clean, r.Faults, r.Sched.Strat, r.Sched.YieldGap))
		}
		samples = append(samples, map[string]any{"seed": s, "processes": runs})
	}
	nf := 0
	for _, v := range t.Faults {
		nf += v
	}
	perH := 0.0
	if wall > 0 {
		perH = float64(t.Plans) / wall * 3600
	}
	result := "held"
	if code == 1 {
		result = "violated"
	}
	cov := map[string]any{
		"evaluations":         t.Plans,
		"distinct_nontrivial": sigs,
		"rule": "one evaluation is one generated history (1..5 simulated test processes over one simulated disk) executed and judged; distinct histories are counted by a hash of the " +
			"whole sequence of (task, operation) steps of every process plus each call's slot and signalled text lengths; a history without a Match* call is trivial and not counted",
		"samples":                samples,
		"result":                 result,
		"simulated_processes":    t.Procs,
		"match_calls":            t.Calls,
		"runs_per_hour":          int(perH),
		"seeds_per_hour":         int(perH),
		"simulated_time_s":       float64(t.SimNS) / 1e9,
		"kernel_steps":           t.Steps,
		"scheduling_decisions":   t.Decisions,
		"preemptions":            t.Switches,
		"distinct_interleavings": scheds,
		"faults_injected":        t.Faults,
		"faults_total":           nf,
		"outcomes":               t.Outcomes,
		"probes":                 t.Probes,
		"race_build_histories":   raceRuns,
		"known_findings":         known,
		"build_s":                build,
		"real_components":        "snaps, match, match/internal/yaml, internal/colors, internal/difflib from /repo's working tree; ciinfo and go-diff (clock and environment redirected); goccy/go-yaml, tidwall gjson/sjson/pretty/match, kr/pretty, maruel/natural, std unmodified",
		"stub_components":        "file system, environment, flags, clock, stdout, goroutine scheduler and lock hand-off, map iteration order, testing runner (port of testing's tRunner and matcher), runtime.Caller file names",
	}
	if len(t.Other) > 0 {
		cov["violations_of_other_properties"] = t.Other
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": wall}
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.MkdirAll(filepath.Dir(file), 0o755))
	must(os.WriteFile(file, append(b, '\n'), 0o644))
}
