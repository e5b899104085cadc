//go:build ignore

// mutate lists small changes of a Go file: one JSON object per line with the offsets to replace, the new text and
// what it does. It is for finding what the checks miss; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	New, What  string
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		out := json.NewEncoder(os.Stdout)
		emit := func(a, b token.Pos, n, what string) {
			s := text(a, b)
			if len(s) > 70 {
				s = s[:70]
			}
			out.Encode(mut{f, off(a), off(b), n, fmt.Sprintf("%s:%d %s: %s", f, fs.Position(a).Line, what, s)})
		}
		swap := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.ADD: "-", token.SUB: "+"}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						if f, ok := c.Fun.(*ast.SelectorExpr); ok {
							if i, ok := f.X.(*ast.Ident); ok && (i.Name == "log" || i.Name == "fmt") || f.Sel.Name == "TimeTrack" {
								continue
							}
						}
					}
					emit(x.Pos(), x.End(), "", "drop call")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "drop assignment")
					}
				case *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "drop statement")
				case *ast.IfStmt:
					if x.Init == nil && x.Else == nil {
						emit(x.Pos(), x.End(), "", "drop if")
					}
				}
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body == nil {
					return false
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond.Pos(), x.Cond.End())+")", "negate")
			case *ast.BinaryExpr:
				if s, ok := swap[x.Op]; ok {
					if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
						return true
					}
					if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING && x.Op == token.ADD {
						return true
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "operator in "+text(x.Pos(), x.End())+" to "+s)
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.Body) > 0 {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
				}
				if len(x.List) > 1 {
					emit(x.List[len(x.List)-2].End(), x.List[len(x.List)-1].End(), "", "drop last case value of "+text(x.Pos(), x.Colon))
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "literal")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "literal")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "literal plus one")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.OpPos, x.OpPos+1, "", "drop !")
				}
			}
			return true
		})
	}
}
