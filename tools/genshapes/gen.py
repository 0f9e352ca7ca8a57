#!/usr/bin/env python3
"""Generates sim/shapes: call sites of every Match* function in simulated source files.

Each generated file carries one //line directive, so its frames carry the name of a source file of
the simulated package. The result is committed; checks do not run this script."""
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../sim/shapes")
B = "github.com/gkampitakis/go-snaps"
DIRS = ["/sim/mod", "/sim/mod/pkg", "/sim/mod/pkg/deep/er", "/sim/odd 100%d [x]/mod/pkg"]
FILES = ["one_test.go", "two_test.go", "odd.name_test.go", "suite.go"]  # the last holds functions given to t.Run
TESTS = 3
SWITCH = """switch a.Kind {
	case KSnap:
		if a.C == nil {
			snaps.MatchSnapshot(a.T, a.Vals...)
		} else {
			a.C.MatchSnapshot(a.T, a.Vals...)
		}
	case KJSON:
		if a.C == nil {
			snaps.MatchJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchJSON(a.T, a.In, a.JM...)
		}
	case KYAML:
		if a.C == nil {
			snaps.MatchYAML(a.T, a.In, a.YM...)
		} else {
			a.C.MatchYAML(a.T, a.In, a.YM...)
		}
	case KSSnap:
		if a.C == nil {
			snaps.MatchStandaloneSnapshot(a.T, a.In)
		} else {
			a.C.MatchStandaloneSnapshot(a.T, a.In)
		}
	case KSJSON:
		if a.C == nil {
			snaps.MatchStandaloneJSON(a.T, a.In, a.JM...)
		} else {
			a.C.MatchStandaloneJSON(a.T, a.In, a.JM...)
		}
	}
"""
HDR = "// Code generated by tools/genshapes; DO NOT EDIT.\npackage shapes\n\nimport (\n%s)\n\n//line %s:10\n"

def w(name, imports, line, body):
    with open(os.path.join(OUT, "z_" + name + ".go"), "w") as f:
        f.write(HDR % ("".join('\t"%s"\n' % i for i in imports), line) + body)

for f in os.listdir(OUT):
    if f.startswith("z_"):
        os.remove(os.path.join(OUT, f))
w("util", [B + "/snaps"], "/sim/mod/testing_test/tRunner_test.d/util_test_1.go",
  "func utilLeaf(a *Args) {\n\t" + SWITCH + "}\n\nfunc utilCallback(f func(*Args), a *Args) { f(a) }\n\n"
  "func utilGeneric[T any](x T, a *Args) T {\n\tutilLeaf(a)\n\treturn x\n}\n")
w("dep", [B + "/snaps"], "/sim/modcache/example.com/dep@v1.2.3/dep.go",
  "func depLeaf(a *Args) {\n\t" + SWITCH + "}\n\nfunc depCall(f func(*Args), a *Args) { f(a) }\n")
for di, d in enumerate(DIRS):
    w(f"d{di}_helper", [B + "/snaps"], d + ["/helper.go", "/my_test_helper.go", "/test.go", "/x_test.gohelper.go"][di],
      f"func h{di}Leaf(a *Args) {{\n\t" + SWITCH + "}\n\n"
      f"func h{di}Deep(a *Args, n int) {{\n\tif n > 0 {{\n\t\th{di}Deep(a, n-1)\n\t\treturn\n\t}}\n\th{di}Leaf(a)\n}}\n\n"
      f"type h{di}Svc struct{{ n int }}\n\nfunc (s h{di}Svc) Check(a *Args) {{ h{di}Deep(a, s.n) }}\n")
    for fi, fn in enumerate(FILES):
        p = f"f{di}{fi}"
        other = f"f{di}{(fi + 1) % TESTS}"
        body = f"""func {p}Test(run func(*stest.T)) func(*stest.T) {{
	return func(t *stest.T) {{ run(t) }}
}}

func {p}Direct(a *Args) {{
	{SWITCH}}}

func {p}Same(a *Args) {{
	func() {{ {p}Nested(a, 3) }}()
}}

func {p}Nested(a *Args, n int) {{
	if n == 0 {{
		{p}Direct(a)
		return
	}}
	{p}Nested(a, n-1)
}}

func {p}Helper(a *Args) {{ h{di}Leaf(a) }}
func {p}Deep(a *Args)   {{ h{di}Deep(a, 40) }}
func {p}Util(a *Args)   {{ utilLeaf(a) }}
func {p}Dep(a *Args)    {{ depLeaf(a) }}
func {p}Other(a *Args)  {{ {other}Direct(a) }}

func {p}Go(a *Args) {{
	{"" if fi < TESTS else "func(a *Args, f func()) { f() }"}{"Join" if fi < TESTS else ""}(a, func() {{ {p}Direct(a) }})
}}

func {p}GoHelper(a *Args) {{
	{"" if fi < TESTS else "func(a *Args, f func()) { f() }"}{"Join" if fi < TESTS else ""}(a, func() {{ h{di}Leaf(a) }})
}}

func {p}Defer(a *Args) {{
	defer func() {{ {p}Direct(a) }}()
}}

func {p}Iface(a *Args) {{
	var c Checker = h{di}Svc{{2}}
	c.Check(a)
}}

func {p}Generic(a *Args)  {{ utilGeneric(struct{{}}{{}}, a) }}
func {p}Callback(a *Args) {{ utilCallback({p}Direct, a) }}
func {p}DepCall(a *Args)  {{ depCall(func(a *Args) {{ h{di}Leaf(a) }}, a) }}
"""
        w(p, [B + "/snaps", B + "/verifsim/stest"], d + "/" + fn, body)
reg = "// Code generated by tools/genshapes; DO NOT EDIT.\npackage shapes\n\nvar Dirs = []string{%s}\n\nvar Files = []File{\n" % ", ".join('"%s"' % d for d in DIRS)
S = ["Direct", "Same", "Helper", "Deep", "Util", "Dep", "Other", "Go", "GoHelper", "Defer", "Iface", "Generic", "Callback", "DepCall"]
for di, d in enumerate(DIRS):
    for fi, fn in enumerate(FILES):
        p = f"f{di}{fi}"
        reg += '\t{Dir: "%s", Name: "%s", Test: %sTest, Shapes: map[string]func(*Args){\n' % (d, fn, p)
        for s in S:
            reg += '\t\t"%s": %s%s,\n' % (s.lower(), p, s)
        reg += '\t\t"outer": h%dLeaf,\n\t}},\n' % di
reg += "}\n\nvar ShapeNames = []string{%s}\n" % ", ".join('"%s"' % s.lower() for s in S + ["Outer"])
open(os.path.join(OUT, "z_table.go"), "w").write(reg)
os.system("gofmt -w " + OUT)
