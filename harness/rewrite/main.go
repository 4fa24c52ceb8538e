// rewrite puts a scheduling point before every statement of a Go package and in the middle of every
// read-modify-write, and replaces sync and sync/atomic by packages that have scheduling points too.
package main

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const shim = "github.com/VolantMQ/vlapi/zzverif/shim/"

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzsched"), Sel: ast.NewIdent(name)}, Args: args}
}

func text(fs *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	_ = printer.Fprint(&b, fs, n)
	return b.String()
}

func shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	case *ast.ParenExpr:
		return shared(x.X)
	}
	return false
}

// touches: the statement itself, without the blocks in it, reads or writes memory that may be shared
func touches(s ast.Stmt) bool {
	found := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.KeyValueExpr:
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				ast.Inspect(kv.Value, visit)
			}
			return false
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				return false
			}
		case *ast.CallExpr:
			for _, a := range x.Args {
				ast.Inspect(a, visit)
			}
			return false
		case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
			found = true
		}
		return !found
	}
	ast.Inspect(s, visit)
	return found
}

type rw struct{ fs *token.FileSet }

func (r rw) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if _, ok := s.(*ast.LabeledStmt); !ok && touches(s) {
			out = append(out, &ast.ExprStmt{X: call("Yield")})
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if shared(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: call("Read", x.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 && shared(x.Lhs[0]) {
			switch x.Tok {
			case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN, token.AND_ASSIGN, token.XOR_ASSIGN, token.MUL_ASSIGN:
				op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR,
					token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR, token.MUL_ASSIGN: token.MUL}[x.Tok]
				return &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: call("Read", x.Lhs[0]), Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}}}}
			case token.ASSIGN:
				if strings.Contains(text(r.fs, x.Rhs[0]), text(r.fs, x.Lhs[0])) {
					x.Rhs[0] = call("Read", x.Rhs[0])
				}
			}
		}
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	}
	return s
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	files, _ := filepath.Glob(src + "/*.go")
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, nil, parser.SkipObjectResolution)
		if err != nil {
			panic(err)
		}
		r := rw{fs}
		used := false
		for _, d := range t.Decls {
			if fd, ok := d.(*ast.FuncDecl); !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					if len(x.List) > 0 {
						if _, ok := x.List[0].(*ast.CaseClause); !ok {
							if _, ok := x.List[0].(*ast.CommClause); !ok {
								x.List = r.list(x.List)
								used = used || len(x.List) > 0
							}
						}
					}
				case *ast.CaseClause:
					x.Body = r.list(x.Body)
				case *ast.CommClause:
					x.Body = r.list(x.Body)
				}
				return true
			})
		}
		for _, im := range t.Imports {
			switch im.Path.Value {
			case `"sync/atomic"`:
				im.Path.Value = `"` + shim + `atomic"`
			case `"sync"`:
				im.Path.Value = `"` + shim + `sync"`
			}
		}
		if used {
			d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zzsched"),
				Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + shim + `sched"`}}}}
			t.Decls = append([]ast.Decl{d}, t.Decls...)
		}
		t.Comments = nil
		var b bytes.Buffer
		if err = format.Node(&b, fs, t); err != nil {
			panic(err)
		}
		out := append([]byte("//go:build go1.21\n\n"), b.Bytes()...)
		if err = os.WriteFile(filepath.Join(dst, filepath.Base(f)), out, 0o644); err != nil {
			panic(err)
		}
	}
}
