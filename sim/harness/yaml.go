package harness

import (
	"bytes"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/goccy/go-yaml"
	"github.com/goccy/go-yaml/ast"
	"github.com/goccy/go-yaml/parser"
)

// ---------------------------------------------------------------- YAML reference

var yamlOpts = []yaml.EncodeOption{yaml.Indent(2), yaml.IndentSequence(true)}

func (y *YIn) bytes() ([]byte, error) {
	if y.Form == "go" {
		return yaml.MarshalWithOptions(y.Go.Build(), yamlOpts...)
	}
	return []byte(y.Text), nil
}

// safely turns a panic of the YAML library into an error.
func safely(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			err, panicked = fmt.Errorf("panic: %v", r), true
		}
	}()
	return f(), false
}

// ydocs are the documents of a text.
func ydocs(b []byte) (out []any, err error) {
	err, _ = safely(func() error {
		d := yaml.NewDecoder(bytes.NewReader(b), yaml.UseOrderedMap())
		for {
			var v any
			switch err := d.Decode(&v); err {
			case nil:
				out = append(out, v)
			case io.EOF:
				return nil
			default:
				return err
			}
		}
	})
	return out, err
}

func validYAML(b []byte) (ok, panicked bool) {
	err, p := safely(func() error {
		var v any
		return yaml.Unmarshal(b, &v)
	})
	return err == nil, p
}

// yamlLossy reports that the YAML library cannot print this text from its syntax tree without
// changing a value or losing a document.
func yamlLossy(b []byte) bool {
	before, err := ydocs(b)
	if err != nil {
		return true
	}
	var ls []string
	err, _ = safely(func() error {
		f, err := parser.ParseBytes(b, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Docs {
			ls = append(ls, ydocString(d))
		}
		return nil
	})
	if err != nil {
		return true
	}
	text := strings.Join(ls, "\n")
	if bytes.HasSuffix(b, []byte("\n")) {
		text += "\n"
	}
	after, err := ydocs([]byte(text))
	if err != nil || !ysame(before, after) {
		return true
	}
	// a second matcher reads what the first one printed, comments included
	err, _ = safely(func() error {
		_, err := parser.ParseBytes([]byte(text), parser.ParseComments)
		return err
	})
	return err != nil
}

func ydocString(d *ast.DocumentNode) string {
	if d.Body != nil {
		return d.String()
	}
	if d.Start != nil {
		return d.Start.Value
	}
	return ""
}

func formatYAML(op *Op) expected {
	e := formatYAMLText(op)
	if op.Y.Was == "" || len(op.M) == 0 || e.Err || e.Unsure || len(e.Fails) > 0 {
		return e
	}
	o := *op
	y := *op.Y
	y.Was, y.Text = "", op.Y.Was
	o.Y = &y
	if was := formatYAMLText(&o); !was.Err && !was.Unsure && len(was.Fails) == 0 && was.Text != e.Text &&
		(op.Y.Strict || ylayout(was.Text, op.M) != ylayout(e.Text, op.M)) {
		e.Problems = append(e.Problems, fmt.Sprintf("inputs that differ only where masked\n%s\nand\n%s\nare stored as\n%s\nand\n%s", y.Text, op.Y.Text, was.Text, e.Text))
		e.PTags = []string{"C16"}
	}
	return e
}

// ylayout leaves out what the recorded C16 finding is about: the YAML library prints comments and
// blank lines with the value they follow, and lists at the column of the value they replace.
func ylayout(text string, ms []MSpec) string {
	list := false
	for i := range ms {
		var v any
		switch {
		case ms[i].K == "any" && ms[i].Ph != nil:
			v = ms[i].Ph.Build()
		case ms[i].K == "custom":
			v = []any{}
		}
		list = list || ycollection(v)
	}
	var out []string
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if i := strings.Index(t, " #"); i >= 0 {
			t = strings.TrimSpace(t[:i])
		}
		switch {
		case t == "" || t[0] == '#':
		case list:
			out = append(out, t)
		default:
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func formatYAMLText(op *Op) (e expected) {
	b, err := op.Y.bytes()
	if err != nil {
		return expected{Err: true}
	}
	if op.Y.Form != "go" {
		ok, panicked := validYAML(b)
		if panicked {
			return expected{Unsure: true}
		}
		if !ok {
			return expected{Err: true}
		}
	}
	if len(op.M) == 0 {
		return expected{Text: string(b)}
	}
	docs, err := ydocs(b)
	if err != nil || yamlLossy(b) && !op.Y.Strict || strings.ContainsAny(string(b), "&!") || strings.Contains(string(b), "? ") {
		return expected{Unsure: true}
	}
	out := b
	any := false
	for i := range op.M {
		m := &op.M[i]
		work := ycopy(docs).([]interface{})
		bad := 0
		shared := false
		for _, p := range m.Paths {
			st, undef := yapply(work, m, p)
			switch {
			case undef, shared && !op.Y.Strict:
				return expected{Unsure: true}
			case st == yFailed, st == yMissing && !m.NoErr:
				e.Fails = append(e.Fails, fail{matcherName(m.K), p})
				bad++
			case st == yNothing:
				any = true // the path exists, so the document may be printed anew
			case st == yReplaced:
				any = true
				// Recorded finding: the copies of a collection that replaced several values
				// are one node for the remaining paths of the matcher.
				shared = shared || ywild(p) && m.K == "any" && m.Ph != nil && ycollection(m.Ph.Build())
			}
		}
		if bad == 0 {
			docs = work[:0]
			for _, d := range work {
				if d != nil { // the library does not tell a null document from none
					docs = append(docs, d)
				}
			}
		}
		o, errs := buildYAMLMatcher(m).YAML(append([]byte(nil), out...))
		switch {
		case len(errs) == 0:
			out = o
		case bad == 0 && ykeyComment.Match(b):
			return expected{Unsure: true} // the library may refuse a key with a comment, or a tab
		}
	}
	e.Text, e.YTree = string(out), docs
	if len(e.Fails) > 0 {
		return e
	}
	if got, err := ydocs(out); err == nil && !op.Y.Strict && !ysame(got, docs) && ysame(ytrim(got), ytrim(docs)) {
		// Recorded finding: a masked neighbour can make the library forget the blank lines that
		// belong to a block scalar.
		return expected{Unsure: true}
	} else if err != nil || !ysame(got, docs) {
		e.Problems = append(e.Problems, fmt.Sprintf("matchers turned\n%s\ninto\n%s\n which is not the input with the targeted values replaced", b, out))
		e.PTags = []string{"C15", "C16"}
	} else if !any && e.Text != string(b) {
		e.Problems = append(e.Problems, fmt.Sprintf("matchers that find nothing turned\n%q\ninto\n%q", b, out))
		e.PTags = []string{"C18", "C15"}
	}
	return e
}

var ykeyComment = regexp.MustCompile(`:[ \t]+#|\n[ ]*\t`)

func buildYAMLMatcher(m *MSpec) match.YAMLMatcher { return buildMatcher(m).(match.YAMLMatcher) }

const (
	yMissing = iota
	yFailed
	yReplaced
	yNothing // found, but there is nothing to replace
)

// ybad are paths that are none: nothing is at them.
var ybad = map[string]bool{"name": true, "user.name": true, "a": true, "$.": true, "$a": true, "$..": true, "$.a[x]": true, "$.list[]": true, "$.'a": true, "list[0]": true}

// yapply replaces what one path of a matcher selects in the documents.
func yapply(docs []any, m *MSpec, p string) (st int, undef bool) {
	cs, ok := ypath(p)
	switch {
	case ok:
	case ybad[p] && !m.NoErr:
		return yFailed, false
	default:
		return 0, true
	}
	var refs []*any
	found, wild := 0, ywild(p)
	for i := range docs {
		rs, ok, undef := ytargets(&docs[i], cs)
		if undef {
			return 0, true
		}
		if ok {
			found++
			refs = append(refs, rs...)
		}
	}
	if len(cs) == 0 && len(docs) == 0 {
		return 0, true
	}
	if found == 0 {
		return yMissing, false
	}
	if len(refs) == 0 {
		if m.Ph != nil {
			if _, ok := ynorm(m.Ph.Build()); !ok {
				return 0, true
			}
		}
		return yNothing, m.K != "any"
	}
	if wild && m.K != "any" {
		return 0, true // the value checked is a list
	}
	var v any
	switch m.K {
	case "any":
		v = "<Any value>"
		if m.Ph != nil {
			v = m.Ph.Build()
		}
	case "type":
		for _, r := range refs[1:] {
			if ytype(*r) != ytype(*refs[0]) {
				return 0, true // the documents disagree
			}
		}
		if m.T == anyType && ytype(*refs[0]) == "<nil>" {
			return 0, true
		}
		if m.T != anyType && ytype(*refs[0]) != m.T {
			return yFailed, false
		}
		v = "<Type:" + m.T + ">"
	case "custom":
		if len(refs) > 1 && m.T != "const" && m.T != "err" {
			return 0, true
		}
		r, err := customResult(m, yplain(*refs[0]))
		if err != nil {
			return yFailed, false
		}
		v = r
	}
	if _, ok := ynorm(v); !ok {
		return yFailed, false
	}
	for _, r := range refs {
		*r, _ = ynorm(v)
	}
	return yReplaced, false
}

func ycollection(v any) bool {
	switch n, _ := ynorm(v); n.(type) {
	case []any, yaml.MapSlice:
		return true
	}
	return false
}

func ywild(p string) bool { return strings.Contains(p, "[*]") || strings.Contains(p, "..") }

// ypath parses $.a.b[0], $.'quoted'.x, $.l[*].k and $..k
func ypath(p string) ([]string, bool) {
	if !strings.HasPrefix(p, "$") {
		return nil, false
	}
	p = p[1:]
	var out []string
	for p != "" {
		switch {
		case strings.HasPrefix(p, ".'"):
			i := strings.Index(p[2:], "'")
			if i < 0 {
				return nil, false
			}
			out = append(out, "."+p[2:2+i])
			p = p[3+i:]
		case p[0] == '.':
			i := 1
			if strings.HasPrefix(p, "..") {
				i = 2
			}
			for i < len(p) && p[i] != '.' && p[i] != '[' {
				i++
			}
			out = append(out, p[:i])
			p = p[i:]
		case p[0] == '[':
			i := strings.IndexByte(p, ']')
			if i < 0 {
				return nil, false
			}
			if _, ok := index(p[1:i]); !ok && p[1:i] != "*" {
				return nil, false
			}
			out = append(out, p[:i+1])
			p = p[i+1:]
		default:
			return nil, false
		}
	}
	return out, true
}

// ytargets are the values the path selects. Wildcards select nothing at all when
// an element is of the wrong kind.
func ytargets(v *any, cs []string) (refs []*any, found, undef bool) {
	refs, found, _, undef = ywalk(v, cs)
	return
}

func ywalk(v *any, cs []string) (refs []*any, found, misfit, undef bool) {
	if len(cs) == 0 {
		return []*any{v}, true, false, false
	}
	c, rest := cs[0], cs[1:]
	switch {
	case strings.HasPrefix(c, ".."):
		if len(rest) > 0 {
			return nil, false, false, true
		}
		refs = yrecursive(v, c[2:])
		for _, r := range refs {
			if len(yrecursive(r, c[2:])) > 0 {
				undef = true // one inside of another
			}
		}
		return refs, len(refs) > 0, false, undef
	case c == "[*]":
		l, ok := (*v).([]any)
		if !ok {
			return nil, false, true, false
		}
		found = len(l) == 0
		for i := range l {
			rs, ok, misfit, undef := ywalk(&l[i], rest)
			if misfit || undef {
				return nil, false, misfit, undef
			}
			refs = append(refs, rs...)
			found = found || ok
		}
		return refs, found, false, false
	case c[0] == '[':
		l, ok := (*v).([]any)
		i, _ := index(c[1 : len(c)-1])
		if !ok || i >= len(l) {
			return nil, false, true, false
		}
		return ywalk(&l[i], rest)
	}
	m, ok := (*v).(yaml.MapSlice)
	if !ok {
		return nil, false, true, false
	}
	for i := range m {
		if fmt.Sprint(m[i].Key) == c[1:] {
			return ywalk(&m[i].Value, rest)
		}
	}
	return nil, false, false, false
}

func yrecursive(v *any, k string) (refs []*any) {
	switch x := (*v).(type) {
	case yaml.MapSlice:
		for i := range x {
			if fmt.Sprint(x[i].Key) == k {
				refs = append(refs, &x[i].Value)
			}
			refs = append(refs, yrecursive(&x[i].Value, k)...)
		}
	case []any:
		for i := range x {
			refs = append(refs, yrecursive(&x[i], k)...)
		}
	}
	return refs
}

func ycopy(v any) any {
	switch x := v.(type) {
	case yaml.MapSlice:
		o := make(yaml.MapSlice, len(x))
		for i, it := range x {
			o[i] = yaml.MapItem{Key: it.Key, Value: ycopy(it.Value)}
		}
		return o
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = ycopy(x[i])
		}
		return o
	}
	return v
}

func yplain(v any) any {
	switch x := v.(type) {
	case yaml.MapSlice:
		m := map[string]any{}
		for _, it := range x {
			m[fmt.Sprint(it.Key)] = yplain(it.Value)
		}
		return m
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = yplain(x[i])
		}
		return o
	}
	return v
}

func ytype(v any) string { return typeName(yplain(v)) }

// ynorm is v after a trip through YAML text; not every Go value has one.
func ynorm(v any) (out any, ok bool) {
	err, _ := safely(func() error {
		b, err := yaml.MarshalWithOptions(v, yaml.JSON())
		if err != nil {
			return err
		}
		return yaml.UnmarshalWithOptions(b, &out, yaml.UseOrderedMap())
	})
	return out, err == nil
}

// ytrim is the value with one newline at most at the end of its strings.
func ytrim(v any) any {
	switch x := v.(type) {
	case yaml.MapSlice:
		out := make(yaml.MapSlice, len(x))
		for i := range x {
			out[i] = yaml.MapItem{Key: x[i].Key, Value: ytrim(x[i].Value)}
		}
		return out
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = ytrim(x[i])
		}
		return out
	case string:
		if s := strings.TrimRight(x, "\n"); s != x {
			return s + "\n"
		}
	}
	return v
}

func ysame(a, b any) bool {
	switch x := a.(type) {
	case yaml.MapSlice:
		y, ok := b.(yaml.MapSlice)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if fmt.Sprint(x[i].Key) != fmt.Sprint(y[i].Key) || !ysame(x[i].Value, y[i].Value) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !ysame(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return fmt.Sprintf("%T %v", a, a) == fmt.Sprintf("%T %v", b, b)
}
