package harness

import (
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

var (
	sgr      = regexp.MustCompile(`\x1b\[[0-9;]*m`)
	repRange = regexp.MustCompile(`^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@$`)
)

var repHead = regexp.MustCompile(`^\n- Snapshot +- (\d+)\n\+ Received +\+ (\d+)\n\n`)

// judgeReport checks a failure report against the two texts it compares (C13).
func (j *judge) judgeReport(c *Call, stored, received string) {
	t := append(j.ctxFor(c), "C13")
	rep := strings.TrimSuffix(c.Events[0].Text, "\n")
	if strings.TrimSpace(rep) == "" {
		j.bad("report-empty", append(t, "C02"), "%s: the texts differ but the report is empty", j.desc(c))
		return
	}
	_, nc := j.r.Env["NO_COLOR"]
	if !nc {
		// in colour the texts themselves must not hold what is stripped from the report
		j.res.Stats.probe("report in colour")
		if strings.Contains(stored+received, "\x1b") || !utf8.ValidString(stored) || !utf8.ValidString(received) {
			return
		}
		rep = sgr.ReplaceAllString(rep, "")
	}
	m := repHead.FindStringSubmatchIndex(rep)
	if m == nil {
		j.bad("report-head", t, "%s: unrecognised report header in %q", j.desc(c), cut(rep, 300))
		return
	}
	nd, _ := strconv.Atoi(rep[m[2]:m[3]])
	ni, _ := strconv.Atoi(rep[m[4]:m[5]])
	body := rep[m[1]:]
	if i := strings.LastIndex(body, "\nat "); i >= 0 {
		if strings.Contains(body[i:], "\x1b") {
			j.bad("report-escape", t, "%s: escape sequence in the footer", j.desc(c))
			return
		}
		body = body[:i]
	}
	one := func(s string) bool { return s != "" && !strings.Contains(strings.TrimSuffix(s, "\n"), "\n") }
	if !nc && one(stored) && one(received) { // the final newline is shown as a symbol of the line
		stored, received = strings.TrimSuffix(stored, "\n"), strings.TrimSuffix(received, "\n")
	}
	a, b := strings.Split(stored, "\n"), strings.Split(received, "\n")
	var ops []repOp
	lines := strings.Split(strings.TrimSuffix(body, "\n"), "\n")
	del, ins := 0, 0
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		switch {
		case strings.HasPrefix(l, "- "):
			ops = append(ops, repOp{k: '-', s: l[2:]})
			del++
		case strings.HasPrefix(l, "+ "):
			ops = append(ops, repOp{k: '+', s: l[2:]})
			ins++
		case strings.HasPrefix(l, "  "):
			ops = append(ops, repOp{k: ' ', s: l[2:]})
		case strings.HasPrefix(l, "@@ -") && strings.HasSuffix(l, " @@"):
			o := repOp{k: '@'}
			if r := repRange.FindStringSubmatch(l); r != nil {
				o.at = true
				o.i, o.li = rangeOf(r[1], r[2])
				o.j, o.lj = rangeOf(r[3], r[4])
			}
			ops = append(ops, o)
			if i+1 < len(lines) && lines[i+1] == "" {
				i++
			}
		default:
			j.bad("report-line", t, "%s: report line %q is neither context, - nor +; report %q", j.desc(c), cut(l, 200), cut(rep, 600))
			return
		}
	}
	if nc && (del != nd || ins != ni) {
		j.bad("report-count", t, "%s: header says -%d +%d, the report shows -%d +%d: %q", j.desc(c), nd, ni, del, ins, cut(rep, 600))
		return
	}
	if del+ins == 0 {
		j.bad("report-noedit", t, "%s: the report shows no changed line", j.desc(c))
		return
	}
	j.res.Stats.probe("report checked")
	ok := replay(a, b, ops, !nc)
	if !ok && c.Op.K == "json" {
		// MatchJSON shows an entry written by another kind of call as it is in the file
		for i, l := range a {
			a[i] = escapeLine(l)
		}
		ok = replay(a, b, ops, !nc)
	}
	if !ok {
		j.bad("report-edit", t, "%s: the shown edit does not turn the stored text into the received one; stored %s received %s report %q",
			j.desc(c), cut(strconv.Quote(stored), 500), cut(strconv.Quote(received), 500), cut(rep, 900))
	}
}

func (j *judge) ctxFor(c *Call) []string {
	if j.parallelRun() {
		return []string{"C06"}
	}
	return nil
}

type repOp struct {
	k    byte
	s    string
	at   bool // a hunk header that says where
	i, j int
	li   int
	lj   int
}

// rangeOf reads "start,length" as unified diffs write it.
func rangeOf(s, l string) (int, int) {
	n, _ := strconv.Atoi(s)
	if l == "" {
		return n - 1, 1
	}
	k, _ := strconv.Atoi(l)
	if k == 0 {
		return n, 0
	}
	return n - 1, k
}

// replay decides whether the operations, with equal lines skipped between them, rewrite a into b.
func replay(a, b []string, ops []repOp, colour bool) bool {
	is := func(line, shown string) bool {
		return line == shown || (colour && line == strings.TrimSuffix(shown, "↵"))
	}
	for i := 0; i < len(ops); i++ { // the lengths hunk headers give
		if !ops[i].at {
			continue
		}
		la, lb := 0, 0
		for _, o := range ops[i+1:] {
			if o.k == '@' {
				break
			}
			if o.k != '+' {
				la++
			}
			if o.k != '-' {
				lb++
			}
		}
		if la != ops[i].li || lb != ops[i].lj {
			return false
		}
	}
	// state: after k operations, at (i, j); i-j is determined by k, so the set of i suffices
	cur := map[int]bool{0: true}
	shift := 0 // j = i + shift
	closure := func(s map[int]bool) map[int]bool {
		out := map[int]bool{}
		for i := range s {
			for {
				if out[i] {
					break
				}
				out[i] = true
				jj := i + shift
				if i < len(a) && jj < len(b) && a[i] == b[jj] {
					i++
					continue
				}
				break
			}
		}
		return out
	}
	for _, o := range ops {
		cur = closure(cur)
		if o.k == '@' {
			if o.at && (!cur[o.i] || o.i+shift != o.j) {
				return false
			}
			if o.at {
				cur = map[int]bool{o.i: true}
			}
			continue
		}
		next := map[int]bool{}
		for i := range cur {
			jj := i + shift
			switch o.k {
			case ' ':
				if i < len(a) && jj >= 0 && jj < len(b) && a[i] == b[jj] && (a[i] == o.s || (a[i] == "" && o.s == "↵")) {
					next[i+1] = true
				}
			case '-':
				if i < len(a) && is(a[i], o.s) {
					next[i+1] = true
				}
			case '+':
				if jj >= 0 && jj < len(b) && is(b[jj], o.s) {
					next[i] = true
				}
			}
		}
		if o.k == '-' {
			shift--
		} else if o.k == '+' {
			shift++
		}
		cur = next
		if len(cur) == 0 {
			return false
		}
	}
	cur = closure(cur)
	for i := range cur {
		if i == len(a) && i+shift == len(b) {
			return true
		}
	}
	return false
}
