package stest

// Name matching of the simulated test runner. This is the algorithm of the standard testing
// package (match.go), so that -run selects exactly what "go test" would select.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func matchString(pat, str string) (bool, error) {
	re, ok := reCache[pat]
	if !ok {
		var err error
		re, err = regexp.Compile(pat)
		if err != nil {
			return false, err
		}
		reCache[pat] = re
	}
	return re.MatchString(str), nil
}

var reCache = map[string]*regexp.Regexp{}

type matcher struct {
	filter   filterMatch
	subNames counters
}

// counters is a map[string]int32 that the race detector does not look into.
type counters []counter

type counter struct {
	k string
	n int32
}

func (c counters) get(k string) int32 {
	for i := range c {
		if c[i].k == k {
			return c[i].n
		}
	}
	return 0
}

func (c *counters) set(k string, n int32) {
	for i := range *c {
		if (*c)[i].k == k {
			(*c)[i].n = n
			return
		}
	}
	*c = append(*c, counter{k, n})
}

type filterMatch interface {
	matches(name []string) (ok, partial bool)
	verify() error
}

type simpleMatch []string
type alternationMatch []filterMatch

func newMatcher(pattern string) *matcher {
	m := &matcher{}
	if pattern == "" {
		m.filter = simpleMatch{}
	} else {
		m.filter = splitRegexp(pattern)
		if err := m.filter.verify(); err != nil {
			panic(err)
		}
	}
	return m
}

// Selected reports whether -run=pattern selects a test with this full name (ok) and whether it
// selects it only for the sake of possible subtests (partial).
func Selected(pattern, name string) (ok, partial bool) {
	if pattern == "" {
		return true, true
	}
	f := splitRegexp(pattern)
	f.verify()
	return f.matches(strings.Split(name, "/"))
}

func (m *matcher) fullName(parent *T, subname string) (name string, ok, partial bool) {
	name = subname
	if parent != nil && parent.level > 0 {
		name = m.unique(parent.name, rewrite(subname))
	}
	ok, partial = m.filter.matches(strings.Split(name, "/"))
	return name, ok, partial
}

func (m simpleMatch) matches(name []string) (ok, partial bool) {
	for i, s := range name {
		if i >= len(m) {
			break
		}
		if ok, _ := matchString(m[i], s); !ok {
			return false, false
		}
	}
	return true, len(name) < len(m)
}

func (m simpleMatch) verify() error {
	for i, s := range m {
		m[i] = rewrite(s)
	}
	for i, s := range m {
		if _, err := matchString(s, "non-empty"); err != nil {
			return fmt.Errorf("element %d (%q): %s", i, s, err)
		}
	}
	return nil
}

func (m alternationMatch) matches(name []string) (ok, partial bool) {
	for _, m := range m {
		if ok, partial = m.matches(name); ok {
			return ok, partial
		}
	}
	return false, false
}

func (m alternationMatch) verify() error {
	for _, m := range m {
		if err := m.verify(); err != nil {
			return err
		}
	}
	return nil
}
func splitRegexp(s string) filterMatch {
	a := make(simpleMatch, 0, strings.Count(s, "/"))
	b := make(alternationMatch, 0, strings.Count(s, "|"))
	cs := 0
	cp := 0
	for i := 0; i < len(s); {
		switch s[i] {
		case '[':
			cs++
		case ']':
			if cs--; cs < 0 { // An unmatched ']' is legal.
				cs = 0
			}
		case '(':
			if cs == 0 {
				cp++
			}
		case ')':
			if cs == 0 {
				cp--
			}
		case '\\':
			i++
		case '/':
			if cs == 0 && cp == 0 {
				a = append(a, s[:i])
				s = s[i+1:]
				i = 0
				continue
			}
		case '|':
			if cs == 0 && cp == 0 {
				a = append(a, s[:i])
				s = s[i+1:]
				i = 0
				b = append(b, a)
				a = make(simpleMatch, 0, len(a))
				continue
			}
		}
		i++
	}

	a = append(a, s)
	if len(b) == 0 {
		return a
	}
	return append(b, a)
}

// unique creates a unique name for the given parent and subname by affixing it
// with one or more counts, if necessary.
func (m *matcher) unique(parent, subname string) string {
	base := parent + "/" + subname

	for {
		n := m.subNames.get(base)
		if n < 0 {
			panic("subtest count overflow")
		}
		m.subNames.set(base, n+1)

		if n == 0 && subname != "" {
			prefix, nn := parseSubtestNumber(base)
			if len(prefix) < len(base) && nn < m.subNames.get(prefix) {
				// This test is explicitly named like "parent/subname#NN",
				// and #NN was already used for the NNth occurrence of "parent/subname".
				// Loop to add a disambiguating suffix.
				continue
			}
			return base
		}

		name := fmt.Sprintf("%s#%02d", base, n)
		if m.subNames.get(name) != 0 {
			// This is the nth occurrence of base, but the name "parent/subname#NN"
			// collides with the first occurrence of a subtest *explicitly* named
			// "parent/subname#NN". Try the next number.
			continue
		}

		return name
	}
}

// parseSubtestNumber splits a subtest name into a "#%02d"-formatted int32
// suffix (if present), and a prefix preceding that suffix (always).
func parseSubtestNumber(s string) (prefix string, nn int32) {
	i := strings.LastIndex(s, "#")
	if i < 0 {
		return s, 0
	}

	prefix, suffix := s[:i], s[i+1:]
	if len(suffix) < 2 || (len(suffix) > 2 && suffix[0] == '0') {
		// Even if suffix is numeric, it is not a possible output of a "%02" format
		// string: it has either too few digits or too many leading zeroes.
		return s, 0
	}
	if suffix == "00" {
		if !strings.HasSuffix(prefix, "/") {
			// We only use "#00" as a suffix for subtests named with the empty
			// string — it isn't a valid suffix if the subtest name is non-empty.
			return s, 0
		}
	}

	n, err := strconv.ParseInt(suffix, 10, 32)
	if err != nil || n < 0 {
		return s, 0
	}
	return prefix, int32(n)
}

// rewrite rewrites a subname to having only printable characters and no white
// space.
func rewrite(s string) string {
	b := []byte{}
	for _, r := range s {
		switch {
		case isSpace(r):
			b = append(b, '_')
		case !strconv.IsPrint(r):
			s := strconv.QuoteRune(r)
			b = append(b, s[1:len(s)-1]...)
		default:
			b = append(b, string(r)...)
		}
	}
	return string(b)
}

func isSpace(r rune) bool {
	if r < 0x2000 {
		switch r {
		// Note: not the same as Unicode Z class.
		case '\t', '\n', '\v', '\f', '\r', ' ', 0x85, 0xA0, 0x1680:
			return true
		}
	} else {
		if r <= 0x200a {
			return true
		}
		switch r {
		case 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
			return true
		}
	}
	return false
}
