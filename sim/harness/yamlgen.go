package harness

import (
	"hash/fnv"
	"maps"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/goccy/go-yaml/parser"
)

// ---------------------------------------------------------------- YAML inputs
//
// A document is a JV tree: "o" mappings and "a" sequences (S == "flow" when written inline), "n"
// scalars with their source text in S, and "b" block scalars with their header in S and lines in
// Ks. Keys are source text, too.

var (
	yscalars = []string{"1", "42", "-3", "1.5", "true", "false", "hello", "two words", "\"quo ted\"", "'single'", "null", "2020-01-01", "\"---\"", "é", "\"a: b\"", "\"\"", "0", "'#no'", "\"x\\ny\"",
		"other", "2.5", "7", "~", "'it''s'", "\"tab\\there\"", "\"\\u00e9\"", "0x1F", "'1'", "\"true\"", "changed"}
	yodd  = []string{"http://x.y/z?q=1#f", "x:y", "a, b", "it's", "1_000", ".inf", "-.inf", ".nan", ".INF", "0o17", "0b11", "0x1F", "+1", "1e3", ".5", "5.", "~", "NULL", "True", "no", "on", "0777", "1.0", "123456789012345678901", "-0", "1e999", "=", "@x", "`x", "%x", "12:30", "-1.5e3", "yes", "v1.2.3", "a-b", "a # b", "C:\\x", "--- x", "<Any value>"}
	ykeys = []string{"a", "b", "c", "name", "id", "user", "list", "x_y"}
	ykodd = []string{"a.b", "\"q k\"", "'s k'", "x y", "é", "a-b", "\"c.d\"", "10", "\"11\"", "a/b", "A"}
	yhdrs = []string{"|", "|", "|-", ">", ">-", "|", "|+"}
)

func (g *gen) yleaf(flow bool) *JV {
	switch {
	case flow || !g.pct(g.pr.rich):
	case g.pct(35):
		v := &JV{K: "b", S: g.pick(yhdrs)}
		if v.S == "|+" && !g.pct(20) {
			v.S = "|"
		}
		for n := 1 + g.r.Intn(3); n > 0; n-- {
			v.Ks = append(v.Ks, g.pick([]string{"line", "more text", "---", "# no comment", "a: b", "- x", "[TestAlpha - 1]", "  deeper", "/-/-/-/", "é"}))
			if g.pct(15) && n > 1 {
				v.Ks = append(v.Ks, "")
			}
		}
		if v.Ks[0] == "  deeper" {
			v.Ks[0] = "first"
		}
		return v
	case g.pct(40):
		return &JV{K: "n", S: g.pick(yodd)}
	}
	return &JV{K: "n", S: g.pick(yscalars)}
}

func (g *gen) ytree(depth int) *JV {
	if g.sc["doc"] {
		depth += g.r.Intn(5)
	}
	return g.ynode(depth, false)
}

func (g *gen) ynode(depth int, flow bool) *JV {
	n := g.r.Intn(10)
	if depth <= 0 || n >= 5 {
		return g.yleaf(flow)
	}
	v := &JV{K: "o"}
	if n == 4 {
		v.K = "a"
	}
	if flow || (g.pct(g.pr.rich) && g.pct(35)) {
		v.S, flow = "flow", true
	}
	used := map[string]bool{}
	m := 1 + g.r.Intn(3)
	if g.sc["doc"] && !flow && v.K == "a" {
		m = 9 + g.r.Intn(8)
	}
	if flow && g.pct(15) {
		m = 0
	}
	for ; m > 0; m-- {
		if v.K == "o" {
			k := g.pick(ykeys)
			if g.pct(g.pr.rich) && g.pct(30) {
				k = g.pick(ykodd)
			}
			if used[ykey(k)] {
				continue
			}
			used[ykey(k)] = true
			v.Ks = append(v.Ks, k)
		}
		v.L = append(v.L, g.ynode(depth-1, flow))
	}
	return v
}

// ykey is the key a source text stands for.
func ykey(src string) string {
	if len(src) > 1 && (src[0] == '"' || src[0] == '\'') {
		return src[1 : len(src)-1]
	}
	return src
}

func ystepOf(v *JV, i int) string {
	if v.K == "a" {
		return "[" + strconv.Itoa(i) + "]"
	}
	k := ykey(v.Ks[i])
	if strings.ContainsAny(k, ".*[]$") {
		return ".'" + k + "'"
	}
	return "." + k
}

func (v *JV) ypaths() []jpath {
	var out []jpath
	var walk func(v *JV, pre string)
	walk = func(v *JV, pre string) {
		if v.K != "o" && v.K != "a" {
			return
		}
		for i, c := range v.L {
			p := pre + ystepOf(v, i)
			out = append(out, jpath{p, nil, c})
			walk(c, p)
		}
	}
	walk(v, "$")
	return out
}

func (y *YIn) paths() []jpath {
	out := y.Tree.ypaths()
	for _, d := range y.More {
		out = append(out, d.ypaths()...)
	}
	return out
}

// yprinter writes a tree; comments, blank lines and indentation depend on deco and the path only.
type yprinter struct {
	b    strings.Builder
	deco uint64
	w    string
	seq  bool // sequences are indented below their key
}

func (y *yprinter) chance(path, what string, pct int) bool {
	h := fnv.New64a()
	h.Write([]byte(strconv.FormatUint(y.deco, 16) + path + "\x00" + what))
	x := h.Sum64()
	x ^= x >> 29
	return int((x*0x9E3779B97F4A7C15)>>33)%100 < pct
}

func (y *yprinter) flow(v *JV) string {
	var ps []string
	switch v.K {
	case "o":
		for i, c := range v.L {
			ps = append(ps, v.Ks[i]+": "+y.flow(c))
		}
		return "{" + strings.Join(ps, ", ") + "}"
	case "a":
		for _, c := range v.L {
			ps = append(ps, y.flow(c))
		}
		return "[" + strings.Join(ps, ", ") + "]"
	case "b":
		return strconv.Quote(strings.Join(v.Ks, "\n"))
	}
	for _, s := range yodd {
		if s == v.S {
			return strconv.Quote(v.S)
		}
	}
	return v.S
}

func (y *yprinter) node(v *JV, path, ind string, inSeq bool) {
	for i, c := range v.L {
		pre, p := ind, path+ystepOf(v, i)
		if inSeq && i == 0 {
			pre = ""
		} else {
			if y.chance(p, "blank", 4) {
				y.b.WriteString("\n")
			}
			if y.chance(p, "note", 5) {
				y.b.WriteString(ind + "# note\n")
			}
		}
		head := "-"
		if v.K == "o" {
			head = v.Ks[i] + ":"
		}
		tail := "\n"
		if y.chance(p, "tail", 5) {
			tail = " # c\n"
		}
		switch {
		case c.K == "b":
			y.b.WriteString(pre + head + " " + c.S + "\n")
			for _, l := range c.Ks {
				if l != "" {
					l = ind + y.w + l
				}
				y.b.WriteString(l + "\n")
			}
		case c.K == "n" || c.S == "flow" || len(c.L) == 0:
			y.b.WriteString(pre + head + " " + y.flow(c) + tail)
		case v.K == "a":
			y.b.WriteString(pre + "- ")
			y.node(c, p, ind+"  ", true)
		case c.K == "a" && !y.seq:
			y.b.WriteString(pre + head + tail)
			y.node(c, p, ind, false)
		default:
			y.b.WriteString(pre + head + tail)
			y.node(c, p, ind+y.w, false)
		}
	}
}

func (y *YIn) render() Raw {
	p := &yprinter{deco: y.Deco, w: "  "}
	p.seq = !p.chance("", "seq", 25)
	if p.chance("", "wide", 15) {
		p.w = "    "
	}
	if p.chance("", "head", 10) {
		p.b.WriteString("# head\n")
	}
	if p.chance("", "start", 8) {
		p.b.WriteString("---\n")
	}
	for i, d := range append([]*JV{y.Tree}, y.More...) {
		if i > 0 {
			p.b.WriteString("---\n")
		}
		switch {
		case d.S == "flow" || d.K == "n" || len(d.L) == 0:
			p.b.WriteString(p.flow(d) + "\n")
		default:
			p.node(d, strconv.Itoa(i), "", false)
		}
	}
	if p.chance("", "end", 6) {
		p.b.WriteString("# end\n")
	}
	s := p.b.String()
	if p.chance("", "cut", 20) {
		s = strings.TrimSuffix(s, "\n")
	}
	return Raw(s)
}

// safeYAML: texts on which the YAML library itself panics are not this harness's subject.
func safeYAML(t string) bool {
	b := []byte(t)
	err, p1 := safely(func() error {
		var v any
		return yaml.Unmarshal(b, &v)
	})
	_, p2 := safely(func() error {
		f, err := parser.ParseBytes(b, parser.ParseComments)
		if err == nil {
			for _, d := range f.Docs {
				_ = ydocString(d)
			}
		}
		return err
	})
	_ = err
	return !p1 && !p2
}

func (g *gen) yamlIn(o *Op) {
	g.yamlIn1(o)
	if y := o.Y; g.pct(g.pr.crlf) && y.Form != "go" && len(o.M) == 0 {
		if t := strings.ReplaceAll(string(y.Text), "\n", "\r\n"); safeYAML(t) {
			*y = YIn{Form: y.Form, Text: Raw(t)}
		}
	}
}

func (g *gen) yamlIn1(o *Op) {
	o.M = nil
	form := g.pick([]string{"str", "bytes"})
	if g.pct(g.pr.bad) {
		o.Y = &YIn{Form: form, Text: Raw(g.pick(badYAML))}
		if g.pct(60) {
			y := g.ytext()
			t := g.mutBytes(string(y.render()), "{}[],:\"'-#|>&*!%@? \n\tab0~\x00\x7f\xff")
			if safeYAML(t) && noCR(t) == t {
				o.Y.Text = Raw(t)
				if g.pct(15) {
					g.ymatchers(o, y.paths())
				}
			}
		}
		return
	}
	if g.pct(12) {
		v := g.anyVal(2)
		for v.K == "e" || v.K == "d" || v.K == "b" || v.K == "s" {
			v = g.anyVal(2)
		}
		if !badForYAML(&v) {
			o.Y = &YIn{Form: "go", Go: &v}
			return
		}
	}
	m := g.pct(g.pr.match)
	if (!m && g.pct(55)) || (m && g.pct(4)) {
		o.Y = &YIn{Form: form, Text: Raw(g.pick(yamlTexts))}
		if m {
			g.ymatchers(o, nil)
		}
	} else {
		o.Y = g.ytext()
		o.Y.Form, o.Y.Text = form, o.Y.render()
		if m {
			g.ymatchers(o, o.Y.paths())
		}
	}
	if form == "bytes" && g.pct(g.pr.buf) {
		g.nbuf++
		o.Y.Buf = g.nbuf
	}
}

func (g *gen) ytext() *YIn {
	y := &YIn{Deco: g.r.U64() % 100003}
	doc := func() *JV {
		for {
			if t := g.ytree(3); len(t.L) > 0 && (t.K == "o" || (t.K == "a" && g.pct(30))) {
				return t
			}
		}
	}
	y.Tree = doc()
	if g.pct(g.pr.rich) && g.pct(30) {
		for n := 1 + g.r.Intn(2); n > 0; n-- {
			y.More = append(y.More, doc())
		}
	}
	return y
}

func badForYAML(v *Val) bool {
	switch v.K {
	case "e", "d", "b", "nb", "cx":
		return true
	case "s", "st", "ps", "ns", "ar", "mi", "ma":
		// carriage returns and text the library cannot carry are not this harness's subject
		for i := 0; i < len(v.S); i++ {
			if v.S[i] < ' ' || v.S[i] > '~' {
				return true
			}
		}
	}
	for i := range v.L {
		if badForYAML(&v.L[i]) {
			return true
		}
	}
	return false
}

func (g *gen) yplaceholder() *Val {
	vs := []Val{{K: "s", S: "masked"}, {K: "s", S: "a b"}, {K: "s", S: "<x>"}, {K: "i", N: 5}, {K: "n"}, {K: "t", N: 1}, {K: "f", F: 1.5}, {K: "s", S: "a, b"}, {K: "s", S: "- x"}, {K: "s", S: "multi\nline"},
		{K: "s", S: "trail\n"}, {K: "s", S: "---"}, {K: "s", S: "? a"}, {K: "s", S: "key: v"}, {K: "s", S: "#c"}, {K: "s", S: "1"}, {K: "s", S: "true"}, {K: "s", S: ""}, {K: "s", S: " lead"}, {K: "s", S: "tab\t"},
		{K: "m", Ks: []string{"k", "z"}, L: []Val{{K: "i", N: 1}, {K: "s", S: "a: b"}}}, {K: "l", L: []Val{{K: "s", S: "e"}, {K: "i", N: 2}}}, {K: "m"}, {K: "l"}, {K: "s", S: "it's \"q\""}, {K: "s", S: "{x"}, {K: "s", S: "x]"},
		{K: "s", S: "null"}, {K: "s", S: "0x10"}, {K: "s", S: "*ref"}, {K: "s", S: "2020-01-01"}}
	v := vs[g.r.Intn(len(vs))]
	if g.pct(40) {
		v = vs[g.r.Intn(4)]
	}
	if g.pct(3) {
		v = Val{K: "inf", N: int64(g.r.Intn(4))}
	}
	return &v
}

var ybadPaths = slices.Sorted(maps.Keys(ybad))

var yindex = regexp.MustCompile(`\[\d+\]`)

func (g *gen) ymatchers(o *Op, ps []jpath) {
	text := []byte(o.Y.Text)
	n := 1 + g.r.Intn(3)*2/3
	if g.sc["matchers"] && g.pct(50) {
		n = 3 + g.r.Intn(5)
	}
	for ; n > 0; n-- {
		m := MSpec{K: g.pick([]string{"any", "any", "type", "custom"})}
		ko := g.pct(g.pr.matchKo)
		m.NoErr = g.pct(20)
		np := 1
		if m.K != "custom" && g.pct(35) {
			np = 2
			if g.sc["paths"] {
				np = 3 + g.r.Intn(5)
			}
		}
		for i := 0; i < np; i++ {
			if ko && !m.NoErr && g.pct(12) {
				m.Paths = append(m.Paths, g.pick(ybadPaths))
				continue
			}
			if len(ps) == 0 || (ko && g.pct(60)) || (m.NoErr && g.pct(40)) {
				if !ko {
					m.NoErr = true
				}
				m.Paths = append(m.Paths, g.pick([]string{"$.nope", "$.a.nope", "$.list[99]", "$[7]", "$..nope", "$.list[*].nope", "$.'a.nope'", "$.a.b.c.d", "$.user[0]"}))
				continue
			}
			p := ps[g.r.Intn(len(ps))].path
			if m.K == "any" && g.pct(12) {
				switch q := yindex.ReplaceAllString(p, "[*]"); {
				case q != p:
					p = q
				case g.pct(25):
					p = "$"
				case g.pct(30):
					if i := strings.LastIndexByte(p, '.'); i > 0 && !strings.ContainsAny(p[i:], "['") {
						p = "$." + p[i:]
					}
				}
			}
			m.Paths = append(m.Paths, p)
		}
		switch m.K {
		case "any":
			if g.pct(45) {
				m.Ph = g.yplaceholder()
				if ko && g.pct(10) {
					m.Ph = &Val{K: "ch"}
				}
			}
		case "type":
			m.T = g.pick([]string{"string", "uint64", "float64", "bool", "map[string]interface {}", "[]interface {}"})
			if !ko {
				if docs, err := ydocs(text); err == nil {
					if c, ok := ypath(m.Paths[0]); ok {
						for i := range docs {
							if rs, ok, _ := ytargets(&docs[i], c); ok && len(rs) > 0 {
								m.T = ytype(*rs[0])
							}
						}
					}
				}
				if g.pct(12) {
					m.T = anyType
				}
				ok := m.T == anyType
				for _, t := range append([]string{"uint64"}, typeNames...) {
					ok = ok || t == m.T
				}
				if !ok {
					m.T = "string"
				}
			}
		case "custom":
			m.T = "const"
			m.Ph = &Val{K: "s", S: "custom result"}
			if g.pct(50) {
				m.Ph = g.yplaceholder()
			}
			switch {
			case ko && g.pct(60):
				m.T = "err"
			case ko:
				m.Ph = &Val{K: "ch"}
			case g.pct(15):
				m.T = "ident"
			case g.pct(15):
				m.T = "typed"
			}
		}
		if g.pct(g.pr.buf) {
			g.nms++
			m.Shared = g.nms
		}
		o.M = append(o.M, m)
	}
}

func (g *gen) mutYAML(o *Op) {
	if o.Y.Tree == nil || g.pct(25) {
		if o.Y.Form != "go" && o.Y.Tree == nil && g.pct(50) {
			t := string(o.Y.Text)
			switch g.r.Intn(4) {
			case 0:
				t = strings.TrimSuffix(t, "\n")
			case 1:
				t += "\n"
			case 2:
				t += "# c\n"
			case 3:
				t = "# c\n" + t
			}
			if noCR(t) == t && safeYAML(t) {
				o.Y.Text, o.Y.Buf, o.Y.Was = Raw(t), 0, ""
				return
			}
		}
		g.value(o)
		return
	}
	if ps := o.Y.paths(); len(ps) > 0 {
		*ps[g.r.Intn(len(ps))].node = *g.ytree(1)
	}
	o.Y.Text, o.Y.Buf, o.Y.Was = o.Y.render(), 0, ""
}

// remaskY changes only values under masked paths, keeping their type where it is checked.
func (g *gen) remaskY(o *Op) {
	y := o.Y
	if y.Tree == nil || y.render() != y.Text {
		return
	}
	y.Buf = 0
	pr := &yprinter{deco: y.Deco}
	class := func(v *JV) string {
		d, err := ydocs([]byte(pr.flow(v)))
		if err != nil || len(d) != 1 {
			return "?"
		}
		return ytype(d[0])
	}
	docs, err := ydocs([]byte(y.Text))
	if err != nil || len(docs) != 1+len(y.More) {
		return
	}
	for _, m := range o.M {
		if m.K == "custom" && m.T == "ident" {
			return // prints the value in its own way
		}
	}
	for _, m := range o.M {
		if m.T == "err" {
			continue
		}
		for _, p := range m.Paths {
			cs, ok := ypath(p)
			if !ok {
				continue
			}
			for di, d := range append([]*JV{y.Tree}, y.More...) {
				if _, found, undef := ytargets(&docs[di], cs); !found || undef {
					continue
				}
				for _, q := range d.ypaths() {
					i := strings.LastIndexByte(q.path, '.')
					if q.path != p && yindex.ReplaceAllString(q.path, "[*]") != p && !(i > 0 && "$."+q.path[i:] == p) {
						continue
					}
					flow := g.pct(50)
					nv := g.ynode(g.r.Intn(2), flow)
					full := strconv.Itoa(di) + q.path[1:]
					switch {
					case m.K != "any" && m.T != anyType && class(nv) != class(q.node):
						continue
					case m.T == anyType && (class(nv) == "<nil>" || class(q.node) == "<nil>"):
						continue
					case pr.chance(full, "tail", 5) && (q.node.K != "n" || nv.K != "n"):
						continue // the comment would move
					}
					*q.node = *nv
					break
				}
			}
		}
	}
	was := y.Text
	if y.Text = y.render(); y.Text != was {
		y.Was = was
	}
	after, err := ydocs([]byte(y.Text))
	if err != nil || len(after) != len(docs) {
		y.Was = ""
		return
	}
	for _, m := range o.M {
		for _, p := range m.Paths {
			cs, _ := ypath(p)
			for i := range docs {
				_, a, _ := ytargets(&docs[i], cs)
				_, b, _ := ytargets(&after[i], cs)
				if a != b {
					y.Was = "" // a value that was covered is not any more
				}
			}
		}
	}
}
