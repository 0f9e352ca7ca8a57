package harness

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

type sample struct {
	Name  string         `json:"name" yaml:"name"`
	Count int            `json:"count" yaml:"count"`
	Tags  []string       `json:"tags" yaml:"tags"`
	Meta  map[string]any `json:"meta,omitempty" yaml:"meta,omitempty"`
	Next  *sample        `json:"next,omitempty" yaml:"next,omitempty"`
}

// Build makes the Go value.
func (v *Val) Build() any {
	switch v.K {
	case "s":
		return string(v.S)
	case "b":
		return []byte(v.S)
	case "rep": // N times S, then a tail; one S in the middle may differ
		s := strings.Repeat(string(v.S), int(v.N))
		if len(v.Ks) > 1 && v.Ks[1] != "" && v.N > 1 {
			i := int(v.N/2) * len(v.S)
			s = s[:i] + v.Ks[1] + s[i+len(v.S):]
		}
		if len(v.Ks) > 0 {
			s += v.Ks[0]
		}
		return s
	case "ch":
		return make(chan int)
	case "i":
		return int(v.N)
	case "u":
		return uint64(v.N)
	case "f":
		return v.F
	case "t":
		return v.N != 0
	case "n":
		return nil
	case "e":
		return errors.New(string(v.S))
	case "d":
		return time.Duration(v.N)
	case "m":
		m := map[string]any{}
		for i, k := range v.Ks {
			m[k] = v.L[i].Build()
		}
		return m
	case "ns":
		return namedString(v.S)
	case "nb":
		return namedBytes(v.S)
	case "jn":
		return json.Number(strconv.FormatInt(v.N, 10))
	case "tm":
		return time.Unix(v.N*1e7, v.N).UTC()
	case "cx":
		return complex(v.F, float64(v.N))
	case "inf":
		return []any{math.Inf(1), math.Inf(-1), math.NaN(), float32(math.Inf(1))}[v.N]
	case "np":
		return (*sample)(nil)
	case "ar":
		return [3]any{string(v.S), v.N, nil}
	case "mi":
		m := map[int]string{}
		for i := int64(0); i < v.N%13; i++ {
			m[int(i*7-20)] = string(v.S)
		}
		return m
	case "ma":
		return map[any]any{"a": string(v.S), 7: v.N, true: nil, 2.5: "x", "10": 1, "9": 2}
	case "l":
		l := []any{}
		for i := range v.L {
			l = append(l, v.L[i].Build())
		}
		return l
	case "st", "ps":
		s := sample{Name: string(v.S), Count: int(v.N), Tags: v.Ks}
		for i := range v.L {
			if s.Meta == nil {
				s.Meta = map[string]any{}
			}
			s.Meta["k"+string(rune('a'+i))] = v.L[i].Build()
		}
		if v.K == "ps" {
			return &s
		}
		return s
	}
	panic("bad Val kind " + v.K)
}

// ---------------------------------------------------------------- JSON documents

func unq(tok string) string {
	var s string
	if err := json.Unmarshal([]byte(tok), &s); err != nil {
		panic("bad string token " + tok)
	}
	return s
}

func (v *JV) clone() *JV {
	c := &JV{K: v.K, S: v.S, Ks: append([]string(nil), v.Ks...)}
	for _, x := range v.L {
		c.L = append(c.L, x.clone())
	}
	return c
}

// text renders the document with the given whitespace and member order variation.
func (v *JV) text(ws, perm uint64) string {
	var b strings.Builder
	w, p := simrt.NewRng(ws), simrt.NewRng(perm)
	v.render(&b, ws != 0, &w, perm != 0, &p)
	return b.String()
}

func space(b *strings.Builder, on bool, r *simrt.Rng) {
	if !on {
		return
	}
	for n := r.Intn(3); n > 0; n-- {
		b.WriteByte(" \t\n\r "[r.Intn(5)])
	}
}

func (v *JV) render(b *strings.Builder, ws bool, w *simrt.Rng, perm bool, p *simrt.Rng) {
	space(b, ws, w)
	switch v.K {
	case "o":
		b.WriteByte('{')
		idx := make([]int, len(v.L))
		for i := range idx {
			idx[i] = i
		}
		if perm {
			for i := len(idx) - 1; i > 0; i-- {
				j := p.Intn(i + 1)
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
		for n, i := range idx {
			if n > 0 {
				b.WriteByte(',')
			}
			space(b, ws, w)
			b.WriteString(v.Ks[i])
			space(b, ws, w)
			b.WriteByte(':')
			v.L[i].render(b, ws, w, perm, p)
		}
		b.WriteByte('}')
	case "a":
		b.WriteByte('[')
		for i, x := range v.L {
			if i > 0 {
				b.WriteByte(',')
			}
			x.render(b, ws, w, perm, p)
		}
		b.WriteByte(']')
	case "s", "n":
		b.WriteString(v.S)
	case "t":
		b.WriteString("true")
	case "f":
		b.WriteString("false")
	case "z":
		b.WriteString("null")
	}
	space(b, ws, w)
}

// goValue is the document as a Go value (what a caller would pass instead of text).
func (v *JV) goValue() any {
	switch v.K {
	case "o":
		m := map[string]any{}
		for i, k := range v.Ks {
			m[unq(k)] = v.L[i].goValue()
		}
		return m
	case "a":
		l := make([]any, 0, len(v.L))
		for _, x := range v.L {
			l = append(l, x.goValue())
		}
		return l
	case "s":
		return unq(v.S)
	case "n":
		return json.Number(v.S)
	case "t":
		return true
	case "f":
		return false
	}
	return nil
}

type (
	namedString string
	namedBytes  []byte
	jsonText    struct{ text string }

	// textErr and textErr2 encode as the string; they also format in other ways.
	textErr  string
	textErr2 struct{ s string }
)

func (e textErr) Error() string                  { return "error: " + string(e) }
func (e *textErr2) String() string               { return "other " + e.s }
func (e *textErr2) MarshalText() ([]byte, error) { return []byte(e.s), nil }

// MarshalJSON makes jsonText a custom marshaler.
func (t jsonText) MarshalJSON() ([]byte, error) { return []byte(t.text), nil }

// goInput is the Go value given to the call. A plain string or []byte would be taken
// as JSON text, so a document that is just a string is passed as another string type.
func (j *JIn) goInput() any {
	switch j.Ws % 5 {
	case 1:
		return json.RawMessage(j.Doc.text(j.Ws, j.Perm))
	case 2:
		return &jsonText{j.Doc.text(j.Ws, j.Perm)}
	}
	v := j.Doc.goValue()
	if s, ok := v.(string); ok {
		if b, err := base64.StdEncoding.DecodeString(s); err == nil && base64.StdEncoding.EncodeToString(b) == s && s != "" {
			return namedBytes(b)
		}
		switch j.Ws / 5 % 4 {
		case 1:
			return &s
		case 2:
			return textErr(s)
		case 3:
			return &textErr2{s}
		}
		return namedString(s)
	}
	if j.Ws%5 == 3 {
		return &v
	}
	return v
}

// parseJSON is an independent ordered parser for documents known to be valid.
func parseJSON(s string) (*JV, error) {
	p := &jparser{s: s}
	v := p.value()
	p.ws()
	if p.err == nil && p.i != len(s) {
		p.fail()
	}
	return v, p.err
}

type jparser struct {
	s   string
	i   int
	err error
}

func (p *jparser) fail() {
	if p.err == nil {
		p.err = errors.New("invalid JSON")
	}
	p.i = len(p.s)
}

func (p *jparser) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *jparser) peek() byte {
	p.ws()
	if p.i >= len(p.s) {
		p.fail()
		return 0
	}
	return p.s[p.i]
}

func (p *jparser) str() string {
	st := p.i
	p.i++
	for p.i < len(p.s) && p.s[p.i] != '"' {
		if p.s[p.i] < ' ' {
			p.fail()
			return `""`
		}
		if p.s[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	p.i++
	if p.i > len(p.s) {
		p.fail()
		return `""`
	}
	t := p.s[st:p.i]
	if !json.Valid([]byte(t)) {
		p.fail()
		return `""`
	}
	return t
}

func (p *jparser) value() *JV {
	switch c := p.peek(); {
	case p.err != nil:
		return &JV{K: "z"}
	case c == '{':
		v := &JV{K: "o"}
		p.i++
		if p.peek() == '}' {
			p.i++
			return v
		}
		for p.err == nil {
			if p.peek() != '"' {
				p.fail()
				break
			}
			v.Ks = append(v.Ks, p.str())
			if p.peek() != ':' {
				p.fail()
				break
			}
			p.i++
			v.L = append(v.L, p.value())
			c := p.peek()
			p.i++
			if c == '}' {
				return v
			}
			if c != ',' {
				p.fail()
			}
		}
		return v
	case c == '[':
		v := &JV{K: "a"}
		p.i++
		if p.peek() == ']' {
			p.i++
			return v
		}
		for p.err == nil {
			v.L = append(v.L, p.value())
			c := p.peek()
			p.i++
			if c == ']' {
				return v
			}
			if c != ',' {
				p.fail()
			}
		}
		return v
	case c == '"':
		return &JV{K: "s", S: p.str()}
	default:
		st := p.i
		for p.i < len(p.s) && strings.IndexByte(" \t\r\n,]}", p.s[p.i]) < 0 {
			p.i++
		}
		t := p.s[st:p.i]
		switch t {
		case "true":
			return &JV{K: "t"}
		case "false":
			return &JV{K: "f"}
		case "null":
			return &JV{K: "z"}
		}
		if !json.Valid([]byte(t)) {
			p.fail()
		}
		return &JV{K: "n", S: t}
	}
}

// hasDup reports an object with two members of one name.
func (v *JV) hasDup() bool {
	seen := map[string]bool{}
	for _, k := range v.Ks {
		if seen[unq(k)] {
			return true
		}
		seen[unq(k)] = true
	}
	for _, x := range v.L {
		if x.hasDup() {
			return true
		}
	}
	return false
}

// sameValue compares two documents as JSON values; member order does not matter.
func sameValue(a, b *JV) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case "s":
		return unq(a.S) == unq(b.S)
	case "n":
		return a.S == b.S
	case "a":
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !sameValue(a.L[i], b.L[i]) {
				return false
			}
		}
	case "o":
		if len(a.L) != len(b.L) {
			return false
		}
		m := map[string]*JV{}
		for i, k := range a.Ks {
			m[unq(k)] = a.L[i]
		}
		for i, k := range b.Ks {
			x := m[unq(k)]
			if x == nil || !sameValue(x, b.L[i]) {
				return false
			}
			delete(m, unq(k))
		}
	}
	return true
}

// get resolves a path of plain components.
func (v *JV) get(path []string) *JV {
	for _, c := range path {
		var n *JV
		switch v.K {
		case "o":
			for i, k := range v.Ks {
				if unq(k) == c {
					n = v.L[i]
					break
				}
			}
		case "a":
			if i, ok := index(c); ok && i < len(v.L) {
				n = v.L[i]
			}
		}
		if n == nil {
			return nil
		}
		v = n
	}
	return v
}

func index(c string) (int, bool) {
	if c == "" || len(c) > 6 {
		return 0, false
	}
	n := 0
	for i := 0; i < len(c); i++ {
		if c[i] < '0' || c[i] > '9' {
			return 0, false
		}
		n = n*10 + int(c[i]-'0')
	}
	return n, true
}

// plain is the value as encoding/json would decode it into an interface.
func (v *JV) plain() any {
	d := json.NewDecoder(strings.NewReader(v.text(0, 0)))
	d.UseNumber() // a number beyond float64 is an infinity, not an error
	var out any
	if err := d.Decode(&out); err != nil {
		return nil
	}
	return floats(out)
}

func floats(v any) any {
	switch x := v.(type) {
	case json.Number:
		f, _ := strconv.ParseFloat(string(x), 64)
		return f
	case map[string]any:
		for k := range x {
			x[k] = floats(x[k])
		}
	case []any:
		for i := range x {
			x[i] = floats(x[i])
		}
	}
	return v
}
