// mutate FILE lists single-point changes of a Go file, or writes one of them:
//
//	mutate FILE            -> "N line description" per mutant
//	mutate FILE N OUT      -> writes the mutated file
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	start, end int
	text, desc string
	line       int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ms []mut
	add := func(s, e token.Pos, repl, desc string) {
		ms = append(ms, mut{off(s), off(e), repl, desc, fset.Position(s).Line})
	}
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&"},
		token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"+"},
	}
	one := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70]
		}
		return s
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT || x.Tok == token.TYPE {
				return false
			}
		case *ast.IfStmt:
			c := text(x.Cond)
			add(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate if "+one(c))
			add(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "if false: "+one(c))
			add(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "if true: "+one(c))
		case *ast.BinaryExpr:
			for _, r := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, x.Op.String()+" -> "+r+" in "+one(text(x)))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" + 1")
			}
		case *ast.BlockStmt, *ast.CaseClause:
			var list []ast.Stmt
			if b, ok := x.(*ast.BlockStmt); ok {
				list = b.List
			} else {
				list = x.(*ast.CaseClause).Body
			}
			for _, s := range list {
				switch y := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.GoStmt:
					add(s.Pos(), s.End(), "", "delete "+one(text(s)))
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						add(s.Pos(), s.End(), "", "delete "+one(text(s)))
					}
				case *ast.ReturnStmt:
					for _, r := range y.Results {
						if id, ok := r.(*ast.Ident); ok && (strings.HasSuffix(strings.ToLower(id.Name), "err")) {
							add(r.Pos(), r.End(), "nil", "nil for "+one(text(s)))
						} else if ce, ok := r.(*ast.CallExpr); ok && strings.Contains(strings.ToLower(text(ce.Fun)), "err") {
							add(r.Pos(), r.End(), "nil", "nil for "+one(text(s)))
						}
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							add(r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "flip "+one(text(s)))
						}
					}
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.X.Pos(), "", "drop ! of "+one(text(x)))
			}
		}
		return true
	})
	if len(os.Args) < 4 {
		for i, m := range ms {
			fmt.Println(i, m.line, m.desc)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	m := ms[i]
	out := string(src[:m.start]) + m.text + string(src[m.end:])
	if err := os.WriteFile(os.Args[3], []byte(out), 0o644); err != nil {
		panic(err)
	}
}
