// enum FILE...: lists mutations of Go files as JSON lines (file, start, end, replacement, line, description)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string
	Start, End int
	Repl       string
	Line       int
	Desc       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, repl, desc string) {
			enc.Encode(mut{f, off(a), off(b), repl, fs.Position(a).Line, desc})
		}
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, r := range swap[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, n.Op.String()+" -> "+r)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "only left operand")
					emit(n.Pos(), n.End(), text(n.Y), "only right operand")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negated condition")
				if n.Else == nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never")
				}
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always")
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "no loop")
				}
			case *ast.RangeStmt:
				emit(n.Body.Lbrace+1, n.Body.Lbrace+1, "break;", "loop body skipped")
				emit(n.Body.Rbrace, n.Body.Rbrace, ";break\n", "one iteration")
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "", "deleted "+clip(text(n)))
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), "_ = 0", "deleted "+clip(text(n)))
				}
			case *ast.IncDecStmt:
				emit(n.Pos(), n.End(), "", "deleted "+clip(text(n)))
			case *ast.DeferStmt:
				emit(n.Pos(), n.End(), "", "deleted "+clip(text(n)))
			case *ast.BranchStmt:
				if n.Tok != token.FALLTHROUGH {
					emit(n.Pos(), n.End(), "", "deleted "+n.Tok.String())
				}
			case *ast.CaseClause:
				if len(n.List) > 1 {
					for i, e := range n.List {
						a, b := e.Pos(), e.End()
						if i+1 < len(n.List) {
							b = n.List[i+1].Pos()
						} else {
							a = n.List[i-1].End()
						}
						emit(a, b, "", "case "+text(e)+" removed")
					}
				}
				if len(n.Body) > 0 {
					emit(n.Colon+1, n.End(), "", "empty case at line "+strconv.Itoa(fs.Position(n.Pos()).Line))
				}
			case *ast.ReturnStmt:
				for _, e := range n.Results {
					s := text(e)
					if s == "err" {
						emit(e.Pos(), e.End(), "nil", "return nil instead of err")
					}
					if s == "true" {
						emit(e.Pos(), e.End(), "false", "return false")
					}
					if s == "false" {
						emit(e.Pos(), e.End(), "true", "return true")
					}
					if c, ok := e.(*ast.CallExpr); ok {
						if fn := text(c.Fun); len(fn) > 7 && (fn[:7] == "p.error" || fn == "errors.New" || fn == "fmt.Errorf") {
							emit(e.Pos(), e.End(), "nil", "return nil instead of "+clip(s))
						}
					}
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" + 1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" - 1")
						}
					}
				}
				if n.Kind == token.STRING && len(n.Value) > 2 {
					emit(n.Pos(), n.End(), `""`, "empty "+clip(n.Value))
				}
				if n.Kind == token.CHAR {
					emit(n.Pos(), n.End(), `'\x01'`, n.Value+" -> \\x01")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.OpPos, n.OpPos+1, "", "! removed")
				}
			case *ast.KeyValueExpr:
				emit(n.Pos(), n.End()+0, "", "field "+clip(text(n))+" left out")
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1", "low + 1")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), text(n.High)+"-1", "high - 1")
				}
			}
			return true
		})
	}
}

func clip(s string) string {
	if len(s) > 50 {
		return s[:50]
	}
	return s
}
