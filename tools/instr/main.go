// Command instr builds the simulated module: it copies the current non-test sources of go-snaps
// (and of the two dependencies that read the environment or the clock) into OUT, redirecting every
// source of nondeterminism to the simulator. It judges nothing and knows nothing about go-snaps
// beyond the two entry packages.
//
//	instr -repo DIR -out DIR -sim DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// std packages replaced by a shadow of the same name
var shadows = map[string]bool{
	"os": true, "sync": true, "flag": true, "fmt": true, "runtime": true, "runtime/debug": true,
	"time": true, "path/filepath": true, "io/ioutil": true, "go/parser": true, "maps": true,
	"math/rand": true, "math/rand/v2": true, "log": true,
}

// third-party packages that must be instrumented too
var depPkgs = []string{"github.com/gkampitakis/ciinfo", "github.com/gkampitakis/go-diff/diffmatchpatch"}

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles, EmbedFiles           []string
	Standard                      bool
	Imports                       []string
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(1) }

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	sim := flag.String("sim", "", "")
	flag.Parse()
	_ = build.Default

	orig := filepath.Join(*out, "orig")
	mod := filepath.Join(*out, "mod")
	for _, d := range []string{orig, mod} {
		must(os.MkdirAll(d, 0o755))
	}
	copyTree(*repo, orig)
	copyFile(filepath.Join(orig, "go.mod"), filepath.Join(mod, "go.mod"))
	copyFile(filepath.Join(orig, "go.sum"), filepath.Join(mod, "go.sum"))

	base := modulePath(filepath.Join(orig, "go.mod"))
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,EmbedFiles,Standard,Imports", "./snaps", "./match")
	cmd.Dir = orig
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	pk := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pk[p.ImportPath] = p
		order = append(order, p)
	}
	newPath := map[string]string{}
	for s := range shadows {
		newPath[s] = base + "/verifsim/shadow/" + s
	}
	for _, d := range depPkgs {
		if pk[d] != nil {
			newPath[d] = base + "/verifsim/dep/" + d[strings.LastIndex(d, "/")+1:]
		}
	}
	inst := func(p *listPkg) bool {
		if p.ImportPath == base || strings.HasPrefix(p.ImportPath, base+"/") {
			return true
		}
		for _, d := range depPkgs {
			if d == p.ImportPath {
				return true
			}
		}
		return false
	}
	for _, p := range order {
		if !inst(p) {
			continue
		}
		var dst string
		if np, ok := newPath[p.ImportPath]; ok {
			dst = filepath.Join(mod, strings.TrimPrefix(np, base+"/"))
		} else {
			dst = filepath.Join(mod, strings.TrimPrefix(p.ImportPath, base+"/"))
		}
		must(os.MkdirAll(dst, 0o755))
		(&rewriter{base: base, p: p, pk: pk, newPath: newPath, dst: dst}).run()
	}
	copyTree(*sim, filepath.Join(mod, "verifsim"))
}

type rewriter struct {
	base    string
	p       *listPkg
	pk      map[string]*listPkg
	newPath map[string]string
	dst     string

	fset  *token.FileSet
	info  *types.Info
	files []*ast.File
	need  map[*ast.File]bool
	yield bool
	tmp   int
	gen   map[ast.Node]bool // written by the instrumenter: not to be rewritten again
}

func (r *rewriter) run() {
	r.fset = token.NewFileSet()
	r.need = map[*ast.File]bool{}
	r.gen = map[ast.Node]bool{}
	for _, f := range r.p.GoFiles {
		af, err := parser.ParseFile(r.fset, filepath.Join(r.p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		r.files = append(r.files, af)
	}
	imp := importer.ForCompiler(r.fset, "gc", func(path string) (io.ReadCloser, error) {
		q := r.pk[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(r.p.ImportPath, r.fset, r.files, r.info)
	if err != nil {
		die("type-check %s: %v", r.p.ImportPath, err)
	}
	r.yield = strings.HasPrefix(r.p.ImportPath, r.base+"/snaps")

	// ---- globals -> reset functions
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range r.files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
		return nil
	}
	var calls []string
	extra := map[*ast.File][]ast.Decl{}
	n := 0
	addFn := func(f *ast.File, stmt ast.Stmt) {
		name := fmt.Sprintf("simReset%d", n)
		n++
		extra[f] = append(extra[f], &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{stmt}}})
		calls = append(calls, name)
	}
	for _, f := range r.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) != 0 {
					continue
				}
				for _, id := range vs.Names {
					if id.Name == "_" {
						continue
					}
					addFn(f, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN,
						Rhs: []ast.Expr{&ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{vs.Type}}}}})
				}
			}
		}
	}
	for _, in := range r.info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		addFn(f, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}})
	}
	inits := 0
	for _, f := range r.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.Name == "init" {
				name := fmt.Sprintf("simInit%d", inits)
				inits++
				fd.Name = ast.NewIdent(name)
				calls = append(calls, name)
			}
		}
	}

	// ---- body rewriting
	for _, f := range r.files {
		for _, d := range f.Decls {
			r.cur(f, d)
		}
		f.Decls = append(f.Decls, extra[f]...)
		r.imports(f)
	}
	for i, f := range r.files {
		var buf bytes.Buffer
		must((&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, r.fset, f))
		must(os.WriteFile(filepath.Join(r.dst, r.p.GoFiles[i]), buf.Bytes(), 0o644))
	}
	for _, e := range r.p.EmbedFiles {
		must(os.MkdirAll(filepath.Dir(filepath.Join(r.dst, e)), 0o755))
		copyFile(filepath.Join(r.p.Dir, e), filepath.Join(r.dst, e))
	}
	var z bytes.Buffer
	fmt.Fprintf(&z, "package %s\n\nimport simrt %q\n\n", r.p.Name, r.base+"/verifsim/simrt")
	fmt.Fprintf(&z, "func init() {\n")
	for i := 0; i < inits; i++ {
		fmt.Fprintf(&z, "\tsimInit%d()\n", i)
	}
	fmt.Fprintf(&z, "\tsimrt.RegisterReset(%q, simResetAll)\n}\n\nfunc simResetAll() {\n", r.p.ImportPath)
	for _, c := range calls {
		fmt.Fprintf(&z, "\t%s()\n", c)
	}
	fmt.Fprintf(&z, "}\n")
	must(os.WriteFile(filepath.Join(r.dst, "zz_simreset.go"), z.Bytes(), 0o644))
	if r.p.ImportPath == r.base+"/internal/difflib" {
		r.diffAdapter(pkg)
	}
}

// diffAdapter hands the line edit script to the harness, if the package still has the functions and
// types that takes; the script is otherwise only judged through the reports made from it.
func (r *rewriter) diffAdapter(pkg *types.Package) {
	sc := pkg.Scope()
	for _, c := range []string{"OpEqual", "OpInsert", "OpDelete", "OpReplace"} {
		if _, ok := sc.Lookup(c).(*types.Const); !ok {
			return
		}
	}
	fn, ok := sc.Lookup("NewMatcher").(*types.Func)
	if !ok {
		return
	}
	sig := fn.Type().(*types.Signature)
	lines := types.NewSlice(types.Typ[types.String])
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || sig.Variadic() ||
		!types.Identical(sig.Params().At(0).Type(), lines) || !types.Identical(sig.Params().At(1).Type(), lines) {
		return
	}
	ms := types.NewMethodSet(sig.Results().At(0).Type())
	op, ok := sc.Lookup("OpCode").(*types.TypeName)
	if !ok {
		return
	}
	st, ok := op.Type().Underlying().(*types.Struct)
	if !ok {
		return
	}
	fields := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			fields[st.Field(i).Name()] = true
		}
	}
	for _, f := range []string{"Tag", "I1", "I2", "J1", "J2"} {
		if !fields[f] {
			return
		}
	}
	method := func(name string, params int, res types.Type) bool {
		m := ms.Lookup(pkg, name)
		if m == nil {
			return false
		}
		s := m.Type().(*types.Signature)
		if s.Params().Len() != params || s.Results().Len() != 1 {
			return false
		}
		if params == 1 && !types.Identical(s.Params().At(0).Type(), types.Typ[types.Int]) {
			return false
		}
		return types.Identical(s.Results().At(0).Type(), res)
	}
	ops := types.NewSlice(op.Type())
	script := ""
	for _, n := range []string{"getOpCodes", "GetOpCodes"} {
		if method(n, 0, ops) {
			script = n
		}
	}
	if script == "" || !method("GetGroupedOpCodes", 1, types.NewSlice(ops)) {
		return
	}
	src := fmt.Sprintf(`package difflib

import simrt %q

func init() {
	conv := func(cs []OpCode) (out []simrt.ScriptOp) {
		for _, c := range cs {
			t := "?"
			switch c.Tag {
			case OpEqual:
				t = "equal"
			case OpInsert:
				t = "insert"
			case OpDelete:
				t = "delete"
			case OpReplace:
				t = "replace"
			}
			out = append(out, simrt.ScriptOp{Tag: t, I1: int(c.I1), I2: int(c.I2), J1: int(c.J1), J2: int(c.J2)})
		}
		return
	}
	simrt.DiffScript = func(a, b []string) []simrt.ScriptOp { return conv(NewMatcher(a, b).%s()) }
	simrt.DiffHunks = func(a, b []string, n int) (out [][]simrt.ScriptOp) {
		for _, g := range NewMatcher(a, b).GetGroupedOpCodes(n) {
			out = append(out, conv(g))
		}
		return
	}
}
`, r.base+"/verifsim/simrt", script)
	must(os.WriteFile(filepath.Join(r.dst, "zz_simadapter.go"), []byte(src), 0o644))
}

func simSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}

// cur rewrites everything below n (bottom-up for statement lists).
func (r *rewriter) cur(f *ast.File, n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.BlockStmt:
			if !r.gen[b] {
				b.List = r.list(f, b.List)
			}
		case *ast.CaseClause:
			b.Body = r.list(f, b.Body)
		case *ast.CommClause:
			b.Body = r.list(f, b.Body)
		case *ast.RangeStmt:
			r.rng(f, b)
		case *ast.UnaryExpr:
			if b.Op == token.ARROW && !r.gen[b] {
				r.need[f] = true
				b.X = call("R", b.X)
			}
		case *ast.CallExpr:
			r.chanCall(f, b)
		}
		return true
	})
}

func (r *rewriter) list(f *ast.File, in []ast.Stmt) []ast.Stmt {
	// type switch / switch bodies are BlockStmts holding only clauses
	if len(in) > 0 {
		switch in[0].(type) {
		case *ast.CaseClause, *ast.CommClause:
			return in
		}
	}
	var out []ast.Stmt
	for _, s := range in {
		if r.yield && !r.gen[s] {
			r.need[f] = true
			out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: simSel("Y")}})
		}
		out = append(out, r.goStmt(f, s))
	}
	return out
}

func (r *rewriter) goStmt(f *ast.File, s ast.Stmt) ast.Stmt {
	if l, ok := s.(*ast.LabeledStmt); ok {
		if st := r.chanStmt(f, l.Stmt, l.Label); st != nil {
			return st
		}
		l.Stmt = r.goStmt(f, l.Stmt)
		return l
	}
	if st := r.chanStmt(f, s, nil); st != nil {
		return st
	}
	g, ok := s.(*ast.GoStmt)
	if !ok {
		return s
	}
	r.need[f] = true
	blk := &ast.BlockStmt{}
	call := g.Call
	if _, lit := call.Fun.(*ast.FuncLit); !lit {
		// evaluate the function value (and a method receiver) now
		r.tmp++
		id := fmt.Sprintf("simFn%d", r.tmp)
		if tv, ok := r.info.Types[call.Fun]; ok && !tv.IsBuiltin() {
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id)}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
			call.Fun = ast.NewIdent(id)
		}
	}
	for i, a := range call.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			continue
		}
		r.tmp++
		id := fmt.Sprintf("simArg%d", r.tmp)
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		call.Args[i] = ast.NewIdent(id)
	}
	blk.List = append(blk.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: simSel("Go"), Args: []ast.Expr{
		&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}},
	}}})
	return blk
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: simSel(name), Args: args}
}

func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	tv := r.info.Types[e]
	return ok && id.Name == name && tv.IsBuiltin()
}

// chanCall redirects make(chan T) and close(c).
func (r *rewriter) chanCall(f *ast.File, c *ast.CallExpr) {
	switch {
	case r.builtin(c.Fun, "make") && len(c.Args) > 0 && r.isChan(c.Args[0]):
		n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
		if len(c.Args) > 1 {
			n = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{c.Args[1]}}
		}
		c.Fun, c.Args = &ast.IndexExpr{X: simSel("MkChan"), Index: c.Args[0]}, []ast.Expr{n}
	case r.builtin(c.Fun, "close"):
		c.Fun = simSel("Close")
	default:
		return
	}
	r.need[f] = true
}

// chanStmt rewrites sends, selects and ranges over channels; nil: s is none of them.
func (r *rewriter) chanStmt(f *ast.File, s ast.Stmt, label *ast.Ident) ast.Stmt {
	name := func(p string) string { r.tmp++; return fmt.Sprintf("sim%s%d", p, r.tmp) }
	blk := &ast.BlockStmt{}
	labelled := func(st ast.Stmt) ast.Stmt {
		if label == nil {
			return st
		}
		return &ast.LabeledStmt{Label: label, Stmt: st}
	}
	recv := func(c string, wait string) *ast.UnaryExpr {
		u := &ast.UnaryExpr{Op: token.ARROW, X: call(wait, ast.NewIdent(c))}
		r.gen[u] = true
		return u
	}
	switch x := s.(type) {
	case *ast.SendStmt:
		c := name("C")
		blk.List = append(blk.List, define(c, x.Chan))
		v := x.Value
		if tv := r.info.Types[v]; tv.Value == nil && !tv.IsNil() {
			n := name("V")
			blk.List = append(blk.List, define(n, v))
			v = ast.NewIdent(n)
		}
		body := &ast.BlockStmt{List: []ast.Stmt{&ast.SendStmt{Chan: ast.NewIdent(c), Value: v}, &ast.ExprStmt{X: call("Sent", ast.NewIdent(c))}}}
		r.gen[body] = true
		blk.List = append(blk.List, &ast.IfStmt{Cond: call("RS", ast.NewIdent(c)), Body: body})
		r.gen[blk] = true
		r.need[f] = true
		return labelled(blk)
	case *ast.RangeStmt:
		if !r.isChan(x.X) {
			return nil
		}
		c, v, ok := name("C"), name("V"), name("OK")
		vn := v
		if id, isID := x.Key.(*ast.Ident); x.Key == nil || isID && id.Name == "_" {
			vn = "_"
		}
		pre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(vn), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv(c, "R")}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if vn != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v)}})
		}
		x.Body.List = append(pre, x.Body.List...)
		blk.List = []ast.Stmt{define(c, x.X), labelled(&ast.ForStmt{Body: x.Body})}
		r.gen[blk] = true
		r.need[f] = true
		return blk
	case *ast.SelectStmt:
		def := "false"
		var arms []ast.Expr
		sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
		for _, cl := range x.Body.List {
			cc := cl.(*ast.CommClause)
			c := name("C")
			out := &ast.CaseClause{Body: cc.Body}
			k := strconv.Itoa(len(arms))
			var first ast.Stmt
			switch y := cc.Comm.(type) {
			case nil:
				def, k = "true", "-1"
			case *ast.SendStmt:
				blk.List = append(blk.List, define(c, y.Chan))
				arms = append(arms, call("CS", ast.NewIdent(c)))
				body := &ast.BlockStmt{List: []ast.Stmt{&ast.SendStmt{Chan: ast.NewIdent(c), Value: y.Value}}}
				r.gen[body] = true
				first = &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: call("Dead")}, Body: body}
			case *ast.ExprStmt:
				u := unparen(y.X).(*ast.UnaryExpr)
				blk.List = append(blk.List, define(c, u.X))
				arms = append(arms, call("CR", ast.NewIdent(c)))
				first = &ast.ExprStmt{X: recv(c, "D")}
			case *ast.AssignStmt:
				u := unparen(y.Rhs[0]).(*ast.UnaryExpr)
				blk.List = append(blk.List, define(c, u.X))
				arms = append(arms, call("CR", ast.NewIdent(c)))
				y.Rhs[0] = recv(c, "D")
				first = y
			}
			if first != nil {
				r.gen[first] = true
				out.Body = append([]ast.Stmt{first}, out.Body...)
			}
			if k[0] == '-' {
				out.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: k[1:]}}}
			} else {
				out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: k}}
			}
			sw.Body.List = append(sw.Body.List, out)
		}
		if n := len(sw.Body.List); n > 0 {
			sw.Body.List[n-1].(*ast.CaseClause).List = nil // a select is a terminating statement, and so is a switch with a default
		}
		sw.Tag = call("Select", append([]ast.Expr{ast.NewIdent(def)}, arms...)...)
		blk.List = append(blk.List, labelled(sw))
		r.gen[blk] = true
		r.need[f] = true
		return blk
	}
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) rng(f *ast.File, s *ast.RangeStmt) {
	tv, ok := r.info.Types[s.X]
	if !ok || tv.Type == nil {
		return
	}
	if _, isMap := tv.Type.Underlying().(*types.Map); !isMap {
		return
	}
	r.need[f] = true
	s.X = &ast.CallExpr{Fun: simSel("MapEntries"), Args: []ast.Expr{s.X}}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	if blank(s.Key) && blank(s.Value) {
		s.Key, s.Value, s.Tok = nil, nil, token.ILLEGAL
		return
	}
	r.tmp++
	e, v, okv := fmt.Sprintf("simE%d", r.tmp), fmt.Sprintf("simV%d", r.tmp), fmt.Sprintf("simOK%d", r.tmp)
	sel := func(n string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(e), Sel: ast.NewIdent(n)} }
	vn := v
	if blank(s.Value) {
		vn = "_"
	}
	pre := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(vn), ast.NewIdent(okv)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: sel("M"), Index: sel("K")}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okv)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
	}
	var lhs, rhs []ast.Expr
	if !blank(s.Key) {
		lhs, rhs = append(lhs, s.Key), append(rhs, sel("K"))
	}
	if !blank(s.Value) {
		lhs, rhs = append(lhs, s.Value), append(rhs, ast.NewIdent(v))
	}
	pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
	s.Key, s.Value, s.Tok = ast.NewIdent("_"), ast.NewIdent(e), token.DEFINE
	s.Body.List = append(pre, s.Body.List...)
}

func (r *rewriter) imports(f *ast.File) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			if np, ok := r.newPath[p]; ok {
				is.Path.Value = strconv.Quote(np)
				if is.Name == nil && p == "math/rand/v2" {
					is.Name = ast.NewIdent("rand")
				}
			}
			is.EndPos = 0
		}
	}
	if r.need[f] {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
			&ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.base + "/verifsim/simrt")}},
		}}}, f.Decls...)
	}
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func modulePath(f string) string {
	b, err := os.ReadFile(f)
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	die("no module line in %s", f)
	return ""
}

func copyFile(a, b string) {
	d, err := os.ReadFile(a)
	must(err)
	must(os.WriteFile(b, d, 0o644))
}

func copyTree(a, b string) {
	es, err := os.ReadDir(a)
	must(err)
	must(os.MkdirAll(b, 0o755))
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	for _, e := range es {
		n := e.Name()
		if n == ".git" || n == "images" || n == "__snapshots__" || n == "examples" {
			continue
		}
		if e.IsDir() {
			copyTree(filepath.Join(a, n), filepath.Join(b, n))
		} else if e.Type().IsRegular() {
			copyFile(filepath.Join(a, n), filepath.Join(b, n))
		}
	}
}
