// mutate lists single-point changes of Go files: mutate FILE... prints one
// JSON object per mutant {file,line,off,end,new,desc}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File      string `json:"file"`
	Line      int    `json:"line"`
	Off       int    `json:"off"`
	End       int    `json:"end"`
	New       string `json:"new"`
	Desc      string `json:"desc"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, repl, desc string) {
			enc.Encode(mut{name, fs.Position(a).Line, off(a), off(b), repl, desc})
		}
		inFunc := false
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				alts := map[token.Token][]string{
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/", "+"}, token.QUO: {"*"}, token.REM: {"/"},
					token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.AND: {"|"}, token.OR: {"&", "+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|"},
				}
				for _, a := range alts[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a, n.Op.String()+" -> "+a)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "drop right operand")
					emit(n.Pos(), n.End(), text(n.Y), "drop left operand")
				}
				if n.Op == token.SUB || n.Op == token.QUO {
					emit(n.Pos(), n.End(), "("+text(n.Y)+" "+n.Op.String()+" "+text(n.X)+")", "swap operands")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					emit(n.OpPos, n.OpPos+1, " ", "drop "+n.Op.String())
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), fmt.Sprintf("%s -> %d", n.Value, v+1))
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), fmt.Sprintf("%s -> %d", n.Value, v-1))
						}
					}
				case token.FLOAT:
					emit(n.Pos(), n.End(), "("+n.Value+"*1.01)", n.Value+" * 1.01")
				case token.STRING:
					if inFunc && len(n.Value) > 2 && !strings.Contains(n.Value, "/") {
						emit(n.Pos(), n.End(), n.Value[:len(n.Value)-2]+n.Value[len(n.Value)-1:], n.Value+" shortened")
					}
				}
			case *ast.FuncDecl:
				inFunc = true
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN || n.Tok == token.ADD_ASSIGN || n.Tok == token.SUB_ASSIGN || n.Tok == token.MUL_ASSIGN {
					use := ""
					for _, l := range n.Lhs {
						if id, ok := l.(*ast.Ident); ok && id.Name != "_" {
							use += "_ = " + id.Name + "; "
						}
					}
					emit(n.Pos(), n.End(), use+"_ = 0", "drop assignment "+text(n))
				}
				if n.Tok == token.ADD_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "-=", "+= -> -=")
				}
				if n.Tok == token.MUL_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "+=", "*= -> +=")
				}
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "_ = 0", "drop call "+text(n))
			case *ast.IncDecStmt:
				if n.Tok == token.INC {
					emit(n.TokPos, n.TokPos+2, " += 2", "++ -> += 2")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never: "+text(n.Cond))
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always: "+text(n.Cond))
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch t := text(r); {
					case t == "true":
						emit(r.Pos(), r.End(), "false", "true -> false")
					case t == "false":
						emit(r.Pos(), r.End(), "true", "false -> true")
					case t == "err" || strings.HasPrefix(t, "newError"):
						emit(r.Pos(), r.End(), "func() error { _ = "+t+"; return nil }()", "return nil instead of "+t)
					}
				}
			case *ast.BranchStmt:
				emit(n.Pos(), n.End(), "_ = 0", "drop "+n.Tok.String())
			case *ast.CaseClause:
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i > 0 {
							emit(n.List[i-1].End(), e.End(), "", "drop case "+text(e))
						}
					}
				}
			case *ast.CallExpr:
				if len(n.Args) >= 2 {
					for i := 0; i+1 < len(n.Args); i++ {
						a, b := n.Args[i], n.Args[i+1]
						if text(a) != text(b) {
							emit(a.Pos(), b.End(), text(b)+", "+text(a), "swap arguments "+text(a)+", "+text(b))
						}
					}
				}
			case *ast.KeyValueExpr:
				// table entries are left to the constants
			}
			return true
		})
	}
}
