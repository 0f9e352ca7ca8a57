package harness

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/verifsim/shapes"
	kr "github.com/kr/pretty"
	tp "github.com/tidwall/pretty"
)

// ---------------------------------------------------------------- locations (C11)

func str(p *string, d string) string {
	if p == nil {
		return d
	}
	return *p
}

// callerFile is the test file a call through shape belongs to.
func callerFile(dir, file int, shape string) (string, string) {
	if shape == "other" {
		file = (file + 1) % shapes.TestFiles
	}
	f := shapes.Files[dir*shapes.FilesPerDir+file]
	return f.Dir, f.Name
}

func (p *Plan) cfg(i int) CfgSpec {
	if i == 0 {
		return CfgSpec{}
	}
	return p.Cfgs[i-1]
}

// location is where the model says the call's snapshot lives. For standalone calls it is the path
// with the ordinal left out: prefix and suffix.
func (p *Plan) location(op *Op, file int, test string) (pre, suf string) {
	c := p.cfg(op.Cfg)
	d, f := callerFile(p.Dir, file, op.Shape)
	dir := str(c.Dir, "__snapshots__")
	if !strings.HasPrefix(dir, "/") {
		dir = d + "/" + dir
	}
	dir = filepath.Clean(dir)
	name := str(c.File, "")
	ext := str(c.Ext, "")
	if op.standalone() {
		if name == "" {
			name = strings.ReplaceAll(test, "/", "_")
		}
		if op.K == "sjson" && ext == "" {
			ext = ".json"
		}
		return filepath.Clean(dir+"/"+name) + "_", ".snap" + ext
	}
	if name == "" {
		name = strings.TrimSuffix(f, ".go")
	}
	return filepath.Clean(dir + "/" + name + ".snap" + ext), ""
}

// ---------------------------------------------------------------- multi-entry files

type entry struct {
	ID   string // without brackets
	Raw  string // body bytes as stored, without the final newline
	Body string // value it replays as
}

type snapFile struct {
	Entries []entry
	Junk    string // content outside of entries, blank lines aside
	Torn    bool   // last entry has no terminator
}

func headerID(l string) (string, bool) {
	if len(l) < 3 || l[0] != '[' || l[len(l)-1] != ']' {
		return "", false
	}
	in := l[1 : len(l)-1]
	i := strings.LastIndex(in, " - ")
	if i <= 0 {
		return "", false
	}
	n := in[i+3:]
	if n == "" {
		return "", false
	}
	for j := 0; j < len(n); j++ {
		if n[j] < '0' || n[j] > '9' {
			return "", false
		}
	}
	return in, true
}

func splitID(id string) (string, int) {
	i := strings.LastIndex(id, " - ")
	n, _ := strconv.Atoi(id[i+3:])
	return id[:i], n
}

// parseSnap reads a multi-entry file by the documented structure.
func parseSnap(b []byte) snapFile {
	var f snapFile
	s := string(b)
	if s == "" {
		return f
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	for i := 0; i < len(lines); i++ {
		id, ok := headerID(lines[i])
		if !ok {
			if lines[i] != "" {
				f.Junk += lines[i] + "\n"
			}
			continue
		}
		j := i + 1
		for j < len(lines) && lines[j] != "---" {
			j++
		}
		if j == len(lines) {
			f.Torn = true
			f.Junk += strings.Join(lines[i:], "\n")
			break
		}
		raw := strings.Join(lines[i+1:j], "\n")
		f.Entries = append(f.Entries, entry{id, raw, decodeBody(raw)})
		i = j
	}
	return f
}

// decodeBody undoes the escaping of terminator lines: a line of k+1 slashes followed by -/-/-/ is k
// slashes followed by it, and the shortest is the terminator itself.
func decodeBody(raw string) string {
	if !strings.Contains(raw, "/-/-/-/") {
		return raw
	}
	ls := strings.Split(raw, "\n")
	for i, l := range ls {
		if l == "/-/-/-/" {
			ls[i] = "---"
		} else if strings.HasSuffix(l, "/-/-/-/") && strings.Trim(strings.TrimSuffix(l, "-/-/-/"), "/") == "" {
			ls[i] = l[1:]
		}
	}
	return strings.Join(ls, "\n")
}

// encodeEntry renders an entry the way a go-snaps run would have stored it.
func encodeEntry(id, body string, esc bool) string {
	if esc {
		ls := strings.Split(body, "\n")
		for i, l := range ls {
			if l == "---" {
				ls[i] = "/-/-/-/"
			} else if strings.HasSuffix(l, "/-/-/-/") && strings.Trim(strings.TrimSuffix(l, "-/-/-/"), "/") == "" {
				ls[i] = "/" + l
			}
		}
		body = strings.Join(ls, "\n")
	}
	return "\n[" + id + "]\n" + body + "\n---\n"
}

// ---------------------------------------------------------------- formatted values

type fail struct{ Matcher, Path string }

// expected is what the model says a call formats to.
type expected struct {
	Text     string
	Err      bool   // the input itself is rejected
	Fails    []fail // matchers that reject it
	Tree     *JV    // JSON calls: the value the stored text must parse to
	YTree    any    // YAML calls with matchers
	Unsure   bool   // the model does not define the outcome
	Problems []string
	PTags    []string
}

func (p *Plan) format(op *Op) expected {
	switch op.K {
	case "snap":
		parts := make([]string, len(op.Vals))
		for i := range op.Vals {
			parts[i] = kr.Sprint(op.Vals[i].Build())
		}
		return expected{Text: strings.Join(parts, "\n")}
	case "ssnap":
		return expected{Text: kr.Sprint(op.Vals[0].Build())}
	case "json", "sjson":
		return p.formatJSON(op)
	case "yaml":
		return formatYAML(op)
	}
	panic("format " + op.K)
}

func (j *JIn) textForm() (string, bool) {
	switch j.Form {
	case "str", "bytes":
		return j.Doc.text(j.Ws, j.Perm), true
	case "text", "btext":
		return string(j.Text), true
	case "go":
		b, err := json.Marshal(j.goInput())
		if err != nil {
			return "", false
		}
		return string(b), true
	}
	return "", false
}

func (p *Plan) formatJSON(op *Op) expected {
	var e expected
	t, ok := op.J.textForm()
	if !ok {
		return expected{Err: true}
	}
	doc, err := parseJSON(t)
	if err != nil {
		return expected{Err: true}
	}
	if doc.hasDup() {
		return expected{Unsure: true}
	}
	if len(op.M) > 0 {
		var unsure bool
		if doc, e.Fails, unsure = applyJSON(doc, op.M); unsure {
			return expected{Unsure: true}
		}
		t = doc.text(0, 0)
		if _, err := parseJSON(t); err != nil {
			return expected{Unsure: true} // a callback that returns an infinity
		}
	}
	o := &tp.Options{SortKeys: true, Indent: " "}
	if c := p.cfg(op.Cfg).JSON; c != nil {
		o = &tp.Options{Width: c.Width, Indent: c.Indent, SortKeys: c.Sort}
	}
	e.Tree = doc
	e.Text = strings.TrimSuffix(string(tp.PrettyOptions([]byte(t), o)), "\n")
	if o.SortKeys && o.Width == 0 {
		// the order of members and the whitespace of the input must not show
		canon := string(tp.PrettyOptions([]byte(sortedText(doc)), o))
		if strings.TrimSuffix(canon, "\n") != e.Text {
			e.Problems = append(e.Problems, fmt.Sprintf("%s is stored as %q but the same document with its members in another order as %q", t, e.Text, canon))
		}
	}
	back, err := parseJSON(e.Text)
	if err != nil || !sameValue(back, doc) {
		e.Problems = append(e.Problems, "reference printer is not lossless")
	}
	return e
}

// sortedText is the document without whitespace and with its members in a fixed order.
func sortedText(v *JV) string {
	var b strings.Builder
	switch v.K {
	case "o":
		idx := make([]int, len(v.Ks))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(a, b int) bool { return v.Ks[idx[a]] > v.Ks[idx[b]] })
		b.WriteByte('{')
		for n, i := range idx {
			if n > 0 {
				b.WriteByte(',')
			}
			b.WriteString(v.Ks[i] + ":" + sortedText(v.L[i]))
		}
		b.WriteByte('}')
	case "a":
		b.WriteByte('[')
		for i, x := range v.L {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(sortedText(x))
		}
		b.WriteByte(']')
	default:
		return v.text(0, 0)
	}
	return b.String()
}

// splitPath cuts a gjson path into components, honouring backslash escapes.
func splitPath(p string) []string {
	var out []string
	var cur strings.Builder
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			if i++; i < len(p) {
				cur.WriteByte(p[i])
			}
		case '.':
			out = append(out, cur.String())
			cur.Reset()
		default:
			cur.WriteByte(p[i])
		}
	}
	return append(out, cur.String())
}

// unescaped is the path with every escaped character hidden.
func unescaped(p string) string {
	b := []byte(p)
	for i := 0; i+1 < len(b); i++ {
		if b[i] == '\\' {
			b[i], b[i+1] = ' ', ' '
			i++
		}
	}
	return string(b)
}

// anyType is match.Type[any]: every value satisfies it, so the placeholder must not tell them apart.
const anyType = "interface {}"

func typeName(v any) string { return fmt.Sprintf("%T", v) }

var typeNames = []string{"string", "float64", "bool", "map[string]interface {}", "[]interface {}", "int"}

func matcherName(k string) string {
	return map[string]string{"any": "Any", "type": "Type", "custom": "Custom"}[k]
}

// customResult is what the harness's Custom callbacks return.
func customResult(m *MSpec, v any) (any, error) {
	switch m.T {
	case "err":
		return nil, fmt.Errorf("callback rejects %T", v)
	case "ident":
		return v, nil
	case "typed":
		if _, ok := v.(string); !ok {
			return nil, fmt.Errorf("expected string but got %T", v)
		}
		return "some string", nil
	}
	return m.Ph.Build(), nil
}

func applyJSON(doc *JV, ms []MSpec) (_ *JV, fails []fail, unsure bool) {
	for i := range ms {
		m := &ms[i]
		work := doc.clone()
		bad := 0
		for _, p := range m.Paths {
			ns, found, undef := work.targets(p)
			if undef {
				return nil, nil, true
			}
			if !found {
				if !m.NoErr {
					fails = append(fails, fail{matcherName(m.K), p})
					bad++
				}
				continue
			}
			if len(ns) == 0 {
				// the path names something that is no part of the document
				fails = append(fails, fail{matcherName(m.K), p})
				bad++
				continue
			}
			n := ns[0]
			var v any
			switch m.K {
			case "any":
				v = "<Any value>"
				if m.Ph != nil {
					v = m.Ph.Build()
				}
				if _, err := json.Marshal(v); err != nil {
					fails = append(fails, fail{"Any", p})
					bad++
					continue
				}
			case "type":
				if m.T == anyType && n.K == "z" {
					return nil, nil, true // is null a value of every type
				}
				if m.T != anyType && typeName(n.plain()) != m.T {
					fails = append(fails, fail{"Type", p})
					bad++
					continue
				}
				v = "<Type:" + m.T + ">"
			case "custom":
				r, err := customResult(m, n.plain())
				if err == nil {
					_, err = json.Marshal(r)
				}
				if err != nil {
					fails = append(fails, fail{"Custom", p})
					bad++
					continue
				}
				v = r
			}
			for _, n := range ns {
				*n = *jvOf(v)
			}
		}
		if bad == 0 {
			doc = work
		}
	}
	return doc, fails, false
}

// targets are the values at a gjson path. A path can also describe something
// that can be read but is at no position of the document: found without any.
func (v *JV) targets(p string) (ns []*JV, found, undef bool) {
	at := func(p string) ([]*JV, bool, bool) {
		n := v.get(splitPath(p))
		return nil, n != nil, n != nil && n.K == "a" && len(n.L) == 0
	}
	switch {
	case p == "@this":
		return nil, true, true // depends on the whitespace around the document
	case p == "@keys":
		return nil, true, v.K != "o" || len(v.L) == 0
	case strings.HasPrefix(p, "{"):
		return nil, true, false
	case strings.HasSuffix(p, ".@this"):
		return at(strings.TrimSuffix(p, ".@this"))
	case strings.Contains(unescaped(p), "|"):
		i := strings.Index(unescaped(p), "|")
		return at(p[:i] + "." + p[i+1:])
	}
	if strings.Contains(p, "#(") || strings.ContainsAny(unescaped(p), "*?") {
		return v.search(splitQuery(p))
	}
	cs, raw := splitPath(p), splitPath(unescaped(p))
	for i := range cs {
		if raw[i] != "#" {
			continue
		}
		l := v.get(cs[:i])
		if l == nil || l.K != "a" {
			break
		}
		if i == len(cs)-1 {
			return nil, true, false
		}
		nested := false
		for j := i + 1; j < len(cs); j++ {
			nested = nested || raw[j] == "#"
		}
		if nested {
			// gjson reads it but does not say where the values are
			for _, x := range l.L {
				if in, _, _ := x.targets(joinRaw(p, i+1)); len(in) == 0 {
					return nil, true, true
				}
			}
			return nil, true, len(l.L) == 0
		}
		for _, x := range l.L {
			if n := x.get(cs[i+1:]); n != nil {
				ns = append(ns, n)
			}
		}
		return ns, true, len(ns) == 0
	}
	if n := v.get(cs); n != nil {
		return []*JV{n}, true, false
	}
	return nil, false, false
}

// joinRaw is the path without its first n components.
func joinRaw(p string, n int) string {
	u := unescaped(p)
	for ; n > 0; n-- {
		i := strings.Index(u, ".")
		p, u = p[i+1:], u[i+1:]
	}
	return p
}

// splitQuery splits a path at the dots outside of queries and keeps what its components look like.
func splitQuery(p string) []string {
	var out []string
	start, depth, quoted := 0, 0, false
	for i := 0; i < len(p); i++ {
		switch c := p[i]; {
		case c == '\\':
			i++
		case depth > 0 && c == '"':
			quoted = !quoted
		case quoted:
		case c == '(' && i > 0 && p[i-1] == '#':
			depth++
		case c == ')' && depth > 0:
			depth--
		case c == '.' && depth == 0:
			out = append(out, p[start:i])
			start = i + 1
		}
	}
	return append(out, p[start:])
}

// search resolves paths with wildcards, which name the first member that has the rest of the path,
// and queries, which name the first element or, with a trailing #, all elements that satisfy it.
func (v *JV) search(cs []string) (ns []*JV, found, undef bool) {
	if len(cs) == 0 {
		return []*JV{v}, true, false
	}
	c := cs[0]
	switch {
	case strings.HasPrefix(c, "#("):
		if v.K != "a" {
			return nil, false, false
		}
		all := strings.HasSuffix(c, "#")
		q := strings.TrimSuffix(strings.TrimPrefix(strings.TrimSuffix(c, "#"), "#("), ")")
		for _, x := range v.L {
			if !x.satisfies(q) {
				continue
			}
			in, ok, un := x.search(cs[1:])
			if !all || un {
				return in, ok, un
			}
			if ok {
				ns = append(ns, in...)
			}
		}
		if all {
			return ns, true, len(ns) == 0
		}
		return nil, false, false
	case strings.ContainsAny(unescaped(c), "*?"):
		if v.K != "o" {
			return nil, false, false
		}
		for i, k := range v.Ks {
			if glob([]rune(c), []rune(unq(k))) {
				if ns, found, undef = v.L[i].search(cs[1:]); found {
					return ns, found, undef
				}
			}
		}
		return nil, false, false
	}
	n := v.get(splitPath(c))
	if n == nil {
		return nil, false, false
	}
	return n.search(cs[1:])
}

func glob(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if glob(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return len(s) > 0 && (p[0] == '?' || p[0] == s[0]) && glob(p[1:], s[1:])
}

// satisfies evaluates the queries the generator writes: key, key==literal and key!=literal, the
// literal being the token of a scalar. Comparing scalars of different types or numbers is left to
// literals for which every reading agrees.
func (v *JV) satisfies(q string) bool {
	key, lit, op := q, "", ""
	for _, o := range []string{"==", "!="} {
		if i := strings.Index(q, o); op == "" && i >= 0 {
			key, lit, op = q[:i], q[i+2:], o
		}
	}
	if v.K != "o" {
		return false
	}
	n := v.get([]string{key})
	if n == nil || op == "" {
		return n != nil
	}
	text := lit
	if strings.HasPrefix(lit, `"`) {
		text = unq(lit)
	}
	eq := false
	switch n.K {
	case "s":
		eq = unq(n.S) == text
	case "n":
		a, _ := strconv.ParseFloat(n.S, 64)
		b, _ := strconv.ParseFloat(text, 64)
		eq = a == b
	case "t":
		eq = text == "true"
	case "f":
		eq = text == "false"
	default:
		return false
	}
	return eq == (op == "==")
}

func jvOf(v any) *JV {
	switch x := v.(type) {
	case string:
		for i := 0; i < len(x); i++ {
			if x[i] < ' ' || x[i] > 0x7f || x[i] == '"' || x[i] == '\\' {
				b, _ := json.Marshal(x)
				return &JV{K: "s", S: string(b)}
			}
		}
		return &JV{K: "s", S: `"` + x + `"`}
	case float64:
		return &JV{K: "n", S: strconv.FormatFloat(x, 'f', -1, 64)}
	case []byte:
		return jvOf(string(x))
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	d, err := parseJSON(string(b))
	if err != nil {
		panic(err)
	}
	return d
}

// escapeLine is how a line of a value looks in a snapshot file.
func escapeLine(l string) string {
	if l == "---" {
		return "/-/-/-/"
	}
	if strings.HasSuffix(l, "/-/-/-/") && strings.Trim(strings.TrimSuffix(l, "/-/-/-/"), "/") == "" {
		return "/" + l
	}
	return l
}
