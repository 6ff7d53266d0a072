// Command mutate lists small syntactic changes of Go files (development tool, see ../mutants.py).
// usage: mutate FILE > JSON lines {file, line, start, end, new, what}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		enc := json.NewEncoder(os.Stdout)
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(from, to token.Pos, s, what string) {
			_ = enc.Encode(mut{file, fs.Position(from).Line, off(from), off(to), s, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ops := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, n.Op.String()+" -> "+o)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" +1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" -1")
						}
					}
				}
				if n.Kind == token.FLOAT {
					emit(n.Pos(), n.End(), "("+n.Value+"*1.1)", n.Value+" *1.1")
				}
			case *ast.IncDecStmt:
				o := "--"
				if n.Tok == token.DEC {
					o = "++"
				}
				emit(n.TokPos, n.TokPos+2, o, n.Tok.String())
			case *ast.AssignStmt:
				if n.Tok == token.ADD_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "-=", "+=")
				}
				if n.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), "{}", "drop: "+text(n))
				}
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "{}", "drop: "+text(n))
			case *ast.DeferStmt:
				emit(n.Pos(), n.End(), "{}", "drop defer")
			case *ast.GoStmt:
				emit(n.Pos(), n.Call.Pos(), "", "go dropped")
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "if false: "+text(n.Cond))
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "if true: "+text(n.Cond))
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.BREAK {
					emit(n.Pos(), n.End(), "continue", "break -> continue")
				}
				if n.Label == nil && n.Tok == token.CONTINUE {
					emit(n.Pos(), n.End(), "break", "continue -> break")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						emit(r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "return "+id.Name)
					}
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(r.Pos(), r.End(), "nil", "return nil for err")
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.OpPos, n.OpPos+1, "", "! dropped")
				}
				if n.Op == token.SUB {
					emit(n.OpPos, n.OpPos+1, "", "- dropped")
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
				}
			}
			return true
		})
	}
}
