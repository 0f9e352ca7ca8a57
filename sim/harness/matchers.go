package harness

import (
	"github.com/gkampitakis/go-snaps/match"
)

type bothMatcher interface {
	match.JSONMatcher
	match.YAMLMatcher
}

func buildMatcher(m *MSpec) bothMatcher {
	switch m.K {
	case "any":
		a := match.Any(m.Paths...)
		if m.Ph != nil {
			a = a.Placeholder(m.Ph.Build())
		}
		if m.NoErr {
			a = a.ErrOnMissingPath(false)
		}
		return a
	case "type":
		switch m.T {
		case "string":
			return typeM(match.Type[string](m.Paths...), m)
		case "float64":
			return typeM(match.Type[float64](m.Paths...), m)
		case "bool":
			return typeM(match.Type[bool](m.Paths...), m)
		case "map[string]interface {}":
			return typeM(match.Type[map[string]any](m.Paths...), m)
		case "[]interface {}":
			return typeM(match.Type[[]any](m.Paths...), m)
		case "uint64":
			return typeM(match.Type[uint64](m.Paths...), m)
		case "int":
			return typeM(match.Type[int](m.Paths...), m)
		case anyType:
			return typeM(match.Type[any](m.Paths...), m)
		}
		panic("type " + m.T)
	case "custom":
		c := match.Custom(m.Paths[0], func(v any) (any, error) { return customResult(m, v) })
		if m.NoErr {
			c = c.ErrOnMissingPath(false)
		}
		return c
	}
	panic("matcher " + m.K)
}

type errOpt[M any] interface {
	bothMatcher
	ErrOnMissingPath(bool) M
}

func typeM[M bothMatcher](t errOpt[M], m *MSpec) bothMatcher {
	if m.NoErr {
		return t.ErrOnMissingPath(false)
	}
	return t
}
