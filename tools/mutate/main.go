// mutate lists and applies small source changes (development tool for measuring the checks; no check uses it).
//
//	mutate list  DIR FILE...      one line per mutant: id<TAB>file:line<TAB>description
//	mutate apply DIR FILE N       write the N-th mutant of FILE in place
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	pos  token.Pos
	desc string
	do   func()
}

var swap = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LSS},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}, token.REM: {token.MUL},
}

func collect(fset *token.FileSet, f *ast.File) []mutant {
	var ms []mutant
	add := func(p token.Pos, d string, do func()) { ms = append(ms, mutant{p, d, do}) }
	src := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := b.String()
		if len(s) > 70 {
			s = s[:70]
		}
		return strconv.Quote(s)
	}
	var stmts func(list *[]ast.Stmt)
	stmts = func(list *[]ast.Stmt) {
		for i, s := range *list {
			i, s := i, s
			del := func() { (*list)[i] = &ast.EmptyStmt{Semicolon: s.Pos()} }
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					blank := func() {
						// keep the variables used
						var lhs []ast.Expr
						for range x.Rhs {
							lhs = append(lhs, ast.NewIdent("_"))
						}
						if len(x.Lhs) != len(x.Rhs) {
							lhs = nil
							for range x.Lhs {
								lhs = append(lhs, ast.NewIdent("_"))
							}
						}
						(*list)[i] = &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: x.Rhs, TokPos: x.TokPos}
					}
					add(s.Pos(), "drop "+src(s), blank)
				}
			case *ast.ExprStmt, *ast.IncDecStmt:
				add(s.Pos(), "drop "+src(s), del)
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					add(s.Pos(), "break->nothing", del)
				}
				if x.Tok == token.CONTINUE && x.Label == nil {
					add(s.Pos(), "continue->nothing", del)
					add(s.Pos(), "continue->break", func() { x.Tok = token.BREAK })
				}
			case *ast.IfStmt:
				if x.Init == nil {
					add(s.Pos(), "drop if "+src(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")} })
				}
				add(s.Pos(), "if always "+src(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")} })
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					if len(x.List) > 1 {
						for k := range x.List {
							k := k
							add(x.List[k].Pos(), "drop case "+src(x.List[k]), func() {
								x.List = append(append([]ast.Expr{}, x.List[:k]...), x.List[k+1:]...)
							})
						}
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT || x.Tok == token.CONST {
				return false
			}
		case *ast.BlockStmt:
			stmts(&x.List)
		case *ast.CaseClause:
			stmts(&x.Body)
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t, old := t, x.Op
				add(x.OpPos, fmt.Sprintf("%s: %s -> %s", src(x), old, t), func() { x.Op = t })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.OpPos, "drop ! "+src(x), func() { x.Op = token.ADD; x.X = &ast.ParenExpr{X: x.X}; x.Op = token.NOT; x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), fmt.Sprintf("%s -> +1", x.Value), func() { x.Value = strconv.FormatInt(v+1, 10) })
					if v > 0 {
						add(x.Pos(), fmt.Sprintf("%s -> -1", x.Value), func() { x.Value = strconv.FormatInt(v-1, 10) })
					}
				}
			}
			if x.Kind == token.CHAR {
				old := x.Value
				add(x.Pos(), old+" -> 'q'", func() { x.Value = "'q'" })
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				old := x.Value
				add(x.Pos(), "string "+old, func() { x.Value = old[:len(old)-2] + old[len(old)-1:] })
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				old := x.Name
				add(x.Pos(), "flip "+old, func() {
					if old == "true" {
						x.Name = "false"
					} else {
						x.Name = "true"
					}
				})
			}
		case *ast.CompositeLit:
			for i, e := range x.Elts {
				i := i
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					add(kv.Pos(), "drop field "+src(kv), func() { x.Elts = append(append([]ast.Expr{}, x.Elts[:i]...), x.Elts[i+1:]...) })
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Low.Pos(), "slice low+1 "+src(x), func() { x.Low = &ast.BinaryExpr{X: x.Low, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
			if x.High != nil {
				add(x.High.Pos(), "slice high-1 "+src(x), func() { x.High = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.High}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
		}
		return true
	})
	return ms
}

func main() {
	dir := os.Args[2]
	switch os.Args[1] {
	case "list":
		for _, fn := range os.Args[3:] {
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, filepath.Join(dir, fn), nil, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			for i, m := range collect(fset, f) {
				fmt.Printf("%s#%d\t%s:%d\t%s\n", fn, i, fn, fset.Position(m.pos).Line, m.desc)
			}
		}
	case "apply":
		fn := filepath.Join(dir, os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		collect(fset, f)[n].do()
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			panic(err)
		}
		if err := os.WriteFile(fn, b.Bytes(), 0o644); err != nil {
			panic(err)
		}
	}
}
