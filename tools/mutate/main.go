// mutate lists small changes of Go files, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(a, b token.Pos, repl, what string) {
			enc.Encode(mutant{path, off(a), off(b), repl, what, fset.Position(a).Line, fn})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			fn = fd.Name.Name
			if fn == "String" && fd.Recv != nil {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					t := text(x)
					for _, w := range []string{"Warnf(", "Debugf(", "Debug(", "Infof(", "Info(", "Errorf(", "Warn(", "log."} {
						if strings.Contains(t, w) && !strings.Contains(t, "panic") {
							return false
						}
					}
					emit(x.Pos(), x.End(), "", "delete "+t)
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
						repl := ""
						for i, r := range x.Rhs {
							_ = i
							repl += "_ = " + text(r) + "; "
						}
						if len(x.Rhs) == len(x.Lhs) {
							emit(x.Pos(), x.End(), repl, "drop assignment "+text(x))
						}
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "delete "+firstLine(text(x)))
				case *ast.GoStmt:
					emit(x.Pos(), x.Call.Pos(), "", "no goroutine "+firstLine(text(x)))
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true: "+text(x.Cond))
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false: "+text(x.Cond))
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
					}[x.Op]
					for _, a := range alt {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, fmt.Sprintf("%s for %s in %s", a, x.Op, text(x)))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "only left of "+text(x))
						emit(x.Pos(), x.End(), text(x.Y), "only right of "+text(x))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d for %s", v+1, x.Value))
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil && (x.Tok == token.CONTINUE || x.Tok == token.BREAK) {
						emit(x.Pos(), x.End(), "", "delete "+text(x))
					}
				case *ast.ReturnStmt:
					if k := len(x.Results); k > 0 {
						last := x.Results[k-1]
						if t := text(last); t == "err" || strings.HasPrefix(t, "errors.") {
							emit(last.Pos(), last.End(), "nil", "return nil for "+t)
						}
						if t := text(last); t == "true" || t == "false" {
							emit(last.Pos(), last.End(), map[string]string{"true": "false", "false": "true"}[t], "return the other bool")
						}
					}
				case *ast.CaseClause:
					if len(x.Body) > 0 {
						emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case "+firstLine(text(x)))
					}
				case *ast.SelectorExpr:
				case *ast.CallExpr:
				}
				return true
			})
		}
	}
}

func firstLine(s string) string {
	a, _, _ := strings.Cut(s, "\n")
	return a
}
