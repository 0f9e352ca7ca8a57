package parser

import (
	"go/ast"
	rp "go/parser"
	"go/token"
	"io/fs"
	"path"
	"strings"

	"github.com/gkampitakis/go-snaps/verifsim/shadow/os"
)

type Mode = rp.Mode

const (
	PackageClauseOnly    = rp.PackageClauseOnly
	ImportsOnly          = rp.ImportsOnly
	ParseComments        = rp.ParseComments
	Trace                = rp.Trace
	DeclarationErrors    = rp.DeclarationErrors
	SpuriousErrors       = rp.SpuriousErrors
	SkipObjectResolution = rp.SkipObjectResolution
	AllErrors            = rp.AllErrors
)

func ParseFile(fset *token.FileSet, filename string, src any, mode Mode) (*ast.File, error) {
	if src == nil {
		b, err := os.ReadFile(filename)
		if err != nil {
			return nil, err
		}
		src = b
	}
	return rp.ParseFile(fset, filename, src, mode)
}

func ParseDir(fset *token.FileSet, dir string, filter func(fs.FileInfo) bool, mode Mode) (map[string]*ast.Package, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	pkgs := map[string]*ast.Package{}
	var first error
	for _, e := range es {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		if filter != nil {
			i, err := e.Info()
			if err != nil {
				return nil, err
			}
			if !filter(i) {
				continue
			}
		}
		fn := path.Join(dir, e.Name())
		f, err := ParseFile(fset, fn, nil, mode)
		if err != nil {
			if first == nil {
				first = err
			}
			continue
		}
		p := pkgs[f.Name.Name]
		if p == nil {
			p = &ast.Package{Name: f.Name.Name, Files: map[string]*ast.File{}}
			pkgs[f.Name.Name] = p
		}
		p.Files[fn] = f
	}
	return pkgs, first
}

func ParseExpr(x string) (ast.Expr, error) { return rp.ParseExpr(x) }
func ParseExprFrom(fset *token.FileSet, filename string, src any, mode Mode) (ast.Expr, error) {
	return rp.ParseExprFrom(fset, filename, src, mode)
}
