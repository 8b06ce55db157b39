package main

// Loops that get their next item at two places, before the loop and at the end of
// its body, are given one place for it, at the beginning of the body:
//
//	for x = f(); c; x = f() { b }     for { x = f(); if !(c) { break }; b }
//	x = f(); for c { b; x = f() }
//
// Both do the same in the same order. The rules then find what is done with an
// item in the iteration that gets it.

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"strconv"
	"sync"
)

// rotation rewrites the files while they are parsed. Variables that the statement
// before a loop declares need types: the first pass tells which, and they
// are known in the second one.
type rotation struct {
	mu    sync.Mutex
	want  map[token.Position]bool
	types map[token.Position]string
}

func (r *rotation) parse(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
	if err != nil {
		return f, err
	}
	r.mu.Lock() // files are parsed concurrently
	defer r.mu.Unlock()
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = r.list(fset, x.List)
		case *ast.CaseClause:
			x.Body = r.list(fset, x.Body)
		case *ast.CommClause:
			x.Body = r.list(fset, x.Body)
		}
		return true
	})
	return f, nil
}

func (r *rotation) list(fset *token.FileSet, l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		loop, ok := s.(*ast.ForStmt)
		if lab, is := s.(*ast.LabeledStmt); is {
			loop, ok = lab.Stmt.(*ast.ForStmt)
			if ok && loop.Init == nil {
				ok = false
			}
		}
		if !ok || loop.Body == nil {
			out = append(out, s)
			continue
		}
		if loop.Init != nil && loop.Post != nil {
			a, is := loop.Init.(*ast.AssignStmt)
			if is && alike(fset, a, loop.Post) {
				r.merge(loop, a)
				loop.Init, loop.Post = nil, nil
			}
			out = append(out, s)
			continue
		}
		n := len(loop.Body.List)
		if loop.Init == nil && loop.Post == nil && len(out) > 0 && n > 0 && !continues(loop.Body) {
			a, is := out[len(out)-1].(*ast.AssignStmt)
			if is && alike(fset, a, loop.Body.List[n-1]) {
				before := out[:len(out)-1]
				first := a
				if a.Tok == token.DEFINE {
					decls := r.declare(fset, a)
					if decls == nil {
						out = append(out, s)
						continue
					}
					before = append(before, decls...)
					first = &ast.AssignStmt{Lhs: a.Lhs, TokPos: a.TokPos, Tok: token.ASSIGN, Rhs: a.Rhs}
				}
				loop.Body.List = loop.Body.List[:n-1]
				r.merge(loop, first)
				out = append(before, s)
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

func (r *rotation) merge(loop *ast.ForStmt, first ast.Stmt) {
	body := []ast.Stmt{first}
	if loop.Cond != nil {
		body = append(body, &ast.IfStmt{
			If:   loop.Cond.Pos(),
			Cond: &ast.UnaryExpr{OpPos: loop.Cond.Pos(), Op: token.NOT, X: &ast.ParenExpr{Lparen: loop.Cond.Pos(), X: loop.Cond, Rparen: loop.Cond.End()}},
			Body: &ast.BlockStmt{Lbrace: loop.Cond.Pos(), Rbrace: loop.Cond.End(), List: []ast.Stmt{&ast.BranchStmt{TokPos: loop.Cond.Pos(), Tok: token.BREAK}}},
		})
	}
	loop.Cond = nil
	loop.Body.List = append(body, loop.Body.List...)
}

// declare makes declarations of the variables that an assignment defines.
func (r *rotation) declare(fset *token.FileSet, a *ast.AssignStmt) []ast.Stmt {
	var out []ast.Stmt
	all := true
	for _, x := range a.Lhs {
		id := x.(*ast.Ident)
		if id.Name == "_" {
			continue
		}
		at := fset.Position(id.Pos())
		t, ok := r.types[at]
		if !ok {
			r.want[at] = true
			all = false
			continue
		}
		if t == "" {
			continue // it's declared already
		}
		e, err := parser.ParseExpr(t)
		if err != nil {
			return nil
		}
		ast.Inspect(e, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				i.NamePos = id.NamePos
			}
			return true
		})
		out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{TokPos: id.NamePos, Tok: token.VAR, Specs: []ast.Spec{
			&ast.ValueSpec{Names: []*ast.Ident{{Name: id.Name, NamePos: id.NamePos}}, Type: e}}}})
	}
	if !all || len(out) == 0 {
		return nil
	}
	return out
}

// learn finds the types that have been asked for.
func (r *rotation) learn(fset *token.FileSet, files []*ast.File, info *types.Info, pkg *types.Package) {
	for _, f := range files {
		names := map[string]string{}
		for _, i := range f.Imports {
			p, _ := strconv.Unquote(i.Path.Value)
			if i.Name != nil {
				names[p] = i.Name.Name
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok || !r.want[fset.Position(id.Pos())] {
				return true
			}
			at := fset.Position(id.Pos())
			o := info.Defs[id]
			if o == nil {
				r.types[at] = "" // not a declaration of it
				return true
			}
			known := true
			t := types.TypeString(o.Type(), func(p *types.Package) string {
				if p == pkg {
					return ""
				}
				if n, ok := names[p.Path()]; ok {
					return n
				}
				for _, i := range f.Imports {
					if q, _ := strconv.Unquote(i.Path.Value); q == p.Path() {
						return p.Name()
					}
				}
				known = false
				return p.Name()
			})
			if known {
				r.types[at] = t
			}
			return true
		})
	}
}

// alike: the statements assign the same calls' results to the same variables.
func alike(fset *token.FileSet, a *ast.AssignStmt, s ast.Stmt) bool {
	b, ok := s.(*ast.AssignStmt)
	if !ok || b.Tok != token.ASSIGN || a.Tok != token.ASSIGN && a.Tok != token.DEFINE || len(a.Rhs) != 1 || len(a.Lhs) != len(b.Lhs) || len(b.Rhs) != 1 {
		return false
	}
	calls := false
	ast.Inspect(a.Rhs[0], func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			calls = true
		case *ast.FuncLit:
			calls = false
			return false
		case *ast.UnaryExpr:
			calls = calls || x.Op == token.ARROW
		}
		return true
	})
	if !calls || text(fset, a.Rhs[0]) != text(fset, b.Rhs[0]) {
		return false
	}
	for i, x := range a.Lhs {
		if text(fset, x) != text(fset, b.Lhs[i]) {
			return false
		}
		id, ok := x.(*ast.Ident)
		if !ok {
			return false
		}
		if a.Tok != token.DEFINE {
			continue
		}
		used := false // what is declared is another variable than what is used
		ast.Inspect(a.Rhs[0], func(n ast.Node) bool {
			if y, ok := n.(*ast.Ident); ok && y.Name == id.Name {
				used = true
			}
			return true
		})
		if used {
			return false
		}
	}
	return true
}

func text(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}

// continues: there's a continue statement that may be that of the loop.
func continues(b *ast.BlockStmt) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
			ast.Inspect(n, func(m ast.Node) bool {
				if y, ok := m.(*ast.BranchStmt); ok && y.Label != nil {
					found = true
				}
				return true
			})
			return false
		case *ast.BranchStmt:
			found = found || x.Tok == token.CONTINUE || x.Tok == token.GOTO
		}
		return true
	})
	return found
}
