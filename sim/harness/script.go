package harness

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

// Pair is two texts, in lines, whose edit script and hunks are judged (C13).
type Pair struct{ A, B Raw }

func (p Pair) lines() (a, b []string) { return splitKeep(string(p.A)), splitKeep(string(p.B)) }

func splitKeep(s string) []string {
	if s == "" {
		return nil
	}
	return strings.SplitAfter(strings.TrimSuffix(s, "\n")+"\n", "\n")[:strings.Count(strings.TrimSuffix(s, "\n"), "\n")+1]
}

// pairs are chosen independently of everything else in the plan: all pairs of line sequences of up to
// five lines over three letters (sampled), and larger ones in the regions where the engine changes
// its ways (long equal stretches, popular lines, many occurrences).
func pairs(seed uint64) (out []Pair) {
	r := simrt.NewRng(seed ^ 0x5c219f)
	seq := func(alpha, n int) []string {
		s := make([]string, n)
		for i := range s {
			s[i] = string(rune('a'+r.Intn(alpha))) + "\n"
		}
		return s
	}
	tiny := func() []string {
		x := r.Intn(364) // 1+3+9+27+81+243
		n, w := 0, 1
		for x >= w {
			x -= w
			w *= 3
			n++
		}
		s := make([]string, n)
		for i := range s {
			s[i] = string(rune('a'+x%3)) + "\n"
			x /= 3
		}
		return s
	}
	edit := func(a []string, k int, line func() string) []string {
		b := append([]string{}, a...)
		for ; k > 0; k-- {
			i := r.Intn(len(b) + 1)
			switch r.Intn(5) {
			case 0, 1:
				b = append(b[:i], append([]string{line()}, b[i:]...)...)
			case 2, 3:
				if i < len(b) {
					b = append(b[:i], b[i+1:]...)
				}
			default:
				if i < len(b) {
					m := i + r.Intn(len(b)-i)
					c := append([]string{}, b[i:m]...)
					b = append(append(b[:i:i], b[m:]...), c...)
				}
			}
		}
		return b
	}
	add := func(a, b []string) {
		out = append(out, Pair{Raw(strings.Join(a, "")), Raw(strings.Join(b, ""))})
	}
	for i := 0; i < 8; i++ {
		add(tiny(), tiny())
	}
	for i := 0; i < 3; i++ {
		al := 2 + r.Intn(8)
		a := seq(al, r.Intn(40))
		if r.Prob(1, 2) {
			add(a, seq(al, r.Intn(40)))
		} else {
			add(a, edit(a, 1+r.Intn(5), func() string { return seq(al, 1)[0] }))
		}
	}
	n := 0
	uniq := func() string { n++; return "u" + strconv.Itoa(n) + "\n" }
	a := []string{}
	for i, l := 0, 150+r.Intn(200); i < l; i++ { // popular lines among unique ones
		switch {
		case r.Prob(1, 4):
			a = append(a, "}\n")
		case r.Prob(1, 12):
			a = append(a, "\n")
		default:
			a = append(a, uniq())
		}
	}
	add(a, edit(a, 1+r.Intn(8), func() string {
		if r.Prob(1, 3) {
			return "}\n"
		}
		return uniq()
	}))
	if r.Prob(1, 5) { // many hunks
		a, b := []string{}, []string{}
		for i, gap := 0, 0; i < 60+r.Intn(240); i++ {
			for gap = 5 + r.Intn(6); gap > 0; gap-- {
				l := uniq()
				a, b = append(a, l), append(b, l)
			}
			switch r.Intn(3) {
			case 0:
				a = append(a, uniq())
			case 1:
				b = append(b, uniq())
			default:
				a, b = append(a, uniq()), append(b, uniq())
			}
		}
		add(a, b)
	}
	if r.Prob(1, 3) {
		add(seq(2, 190+r.Intn(40)), seq(2, 190+r.Intn(40)))
	}
	return out
}

// judgePairs asks the diff engine of a simulated process for the script and the hunks of each pair.
func (j *judge) judgePairs(fs *simrt.FS) {
	if len(j.p.Pairs) == 0 || simrt.DiffScript == nil {
		return
	}
	type res struct {
		script []simrt.ScriptOp
		hunks  [][][]simrt.ScriptOp
	}
	ctx := []int{3, 0, 1, 5}
	rs := make([]res, len(j.p.Pairs))
	pr := simrt.RunProc(fs, simrt.ProcSpec{MapSeed: j.p.Seed, Cwd: "/"}, func() {
		for i, p := range j.p.Pairs {
			a, b := p.lines()
			rs[i].script = simrt.DiffScript(a, b)
			for _, n := range ctx {
				a, b := p.lines()
				rs[i].hunks = append(rs[i].hunks, simrt.DiffHunks(a, b, n))
			}
		}
	})
	if pr.Panic != "" || pr.Livelock != "" || pr.Deadlock != "" {
		j.bad("script-panic", []string{"C13"}, "the diff engine died: %s%s%s", cut(pr.Panic, 800), pr.Livelock, pr.Deadlock)
		return
	}
	for i, p := range j.p.Pairs {
		a, b := p.lines()
		if e := checkScript(a, b, rs[i].script); e != "" {
			j.bad("script", []string{"C13"}, "edit script of %q and %q: %s: %+v", cut(string(p.A), 300), cut(string(p.B), 300), e, rs[i].script)
			return
		}
		for k, n := range ctx {
			if e := checkHunks(a, b, rs[i].hunks[k]); e != "" {
				j.bad("hunks", []string{"C13"}, "hunks (context %d) of %q and %q: %s: %+v", n, cut(string(p.A), 300), cut(string(p.B), 300), e, rs[i].hunks[k])
				return
			}
		}
		j.res.Stats.probe("edit script checked")
	}
}

// walk follows contiguous operations from (i, j) and returns where they end.
func walk(a, b []string, i, j int, ops []simrt.ScriptOp) (int, int, string) {
	for _, o := range ops {
		if o.I1 != i || o.J1 != j {
			return 0, 0, fmt.Sprintf("%+v does not start at (%d,%d)", o, i, j)
		}
		if o.I2 < o.I1 || o.J2 < o.J1 || o.I2 > len(a) || o.J2 > len(b) {
			return 0, 0, fmt.Sprintf("%+v is out of range", o)
		}
		switch o.Tag {
		case "equal":
			if o.I2-o.I1 != o.J2-o.J1 {
				return 0, 0, fmt.Sprintf("%+v: equal ranges of different lengths", o)
			}
			for k := o.I1; k < o.I2; k++ {
				if a[k] != b[o.J1+k-o.I1] {
					return 0, 0, fmt.Sprintf("%+v: line %d is not line %d", o, k, o.J1+k-o.I1)
				}
			}
		case "delete":
			if o.J1 != o.J2 {
				return 0, 0, fmt.Sprintf("%+v: a deletion with received lines", o)
			}
		case "insert":
			if o.I1 != o.I2 {
				return 0, 0, fmt.Sprintf("%+v: an insertion with stored lines", o)
			}
		case "replace":
		default:
			return 0, 0, fmt.Sprintf("%+v: unknown tag", o)
		}
		i, j = o.I2, o.J2
	}
	return i, j, ""
}

func checkScript(a, b []string, ops []simrt.ScriptOp) string {
	i, j, e := walk(a, b, 0, 0, ops)
	if e == "" && (i != len(a) || j != len(b)) {
		e = fmt.Sprintf("ends at (%d,%d) of (%d,%d)", i, j, len(a), len(b))
	}
	return e
}

func checkHunks(a, b []string, hunks [][]simrt.ScriptOp) string {
	i, j := 0, 0
	gap := func(i2, j2 int) string {
		if i2 < i || j2 < j || i2-i != j2-j {
			return fmt.Sprintf("between (%d,%d) and (%d,%d) a changed line is omitted", i, j, i2, j2)
		}
		for k := i; k < i2; k++ {
			if a[k] != b[j+k-i] {
				return fmt.Sprintf("between (%d,%d) and (%d,%d) changed line %d is omitted", i, j, i2, j2, k)
			}
		}
		return ""
	}
	for _, h := range hunks {
		if len(h) == 0 {
			return "empty hunk"
		}
		if e := gap(h[0].I1, h[0].J1); e != "" {
			return e
		}
		var e string
		if i, j, e = walk(a, b, h[0].I1, h[0].J1, h); e != "" {
			return e
		}
	}
	return gap(len(a), len(b))
}
