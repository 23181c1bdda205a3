// mutate lists small changes of Go files: file, offset, length, replacement (one JSON object per line).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	Off, Len int
	New      string
	Line     int
	What     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		out := func(p, e token.Pos, repl string) {
			a, b := fs.Position(p), fs.Position(e)
			enc.Encode(mutant{file, a.Offset, b.Offset - a.Offset, repl, a.Line, string(src[a.Offset:b.Offset]) + " -> " + repl})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		swap := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, r := range swap[n.Op] {
					out(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					out(n.Pos(), n.End(), text(n.X))
					out(n.Pos(), n.End(), text(n.Y))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						out(n.Pos(), n.End(), fmt.Sprint(v+1))
						out(n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				case token.FLOAT:
					if v, err := strconv.ParseFloat(n.Value, 64); err == nil {
						out(n.Pos(), n.End(), fmt.Sprintf("%g", v*1.001+0.0001))
					}
				case token.STRING:
					if len(n.Value) > 2 && len(n.Value) < 8 {
						out(n.Pos(), n.End(), `"ZZ"`)
					}
				}
			case *ast.IncDecStmt:
				out(n.Pos(), n.End(), map[token.Token]string{token.INC: text(n.X) + "--", token.DEC: text(n.X) + "++"}[n.Tok])
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN {
					for i := range n.Lhs {
						if len(n.Lhs) == len(n.Rhs) {
							out(n.Rhs[i].Pos(), n.Rhs[i].End(), text(n.Lhs[i])) // no effect
						}
					}
				}
				if n.Tok == token.ADD_ASSIGN || n.Tok == token.SUB_ASSIGN || n.Tok == token.MUL_ASSIGN || n.Tok == token.QUO_ASSIGN {
					out(n.TokPos, n.TokPos+2, "=")
				}
			case *ast.IfStmt:
				out(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") == false")
				if n.Init == nil {
					out(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
					out(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
				} else {
					out(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
				}
			case *ast.ExprStmt:
				out(n.Pos(), n.End(), "")
			case *ast.BranchStmt:
				out(n.Pos(), n.End(), map[token.Token]string{token.BREAK: "continue", token.CONTINUE: "break"}[n.Tok])
			case *ast.DeferStmt:
				out(n.Pos(), n.End(), "")
			}
			return true
		})
	}
}
