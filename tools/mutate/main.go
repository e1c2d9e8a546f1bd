// mutate lists small changes of Go files, one JSON object per line:
// {"file","line","start","end","text","what"}. The driver is mutate.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	What  string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, t string) {
			s, e := off(from), off(to)
			enc.Encode(mut{file, fset.Position(from).Line, s, e, t,
				fmt.Sprintf("%q -> %q", string(src[s:e]), t)})
		}
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="},
			token.GTR: {">=", "<"}, token.GEQ: {">", "=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, t := range swap[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X))
					emit(n.Pos(), n.End(), text(n.Y))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if i, err := strconv.Atoi(n.Value); err == nil {
						emit(n.Pos(), n.End(), strconv.Itoa(i+1))
						if i > 0 {
							emit(n.Pos(), n.End(), strconv.Itoa(i-1))
						}
					}
				case token.STRING:
					if len(n.Value) > 2 {
						emit(n.Pos(), n.End(), `""`)
					} else {
						emit(n.Pos(), n.End(), `"x"`)
					}
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					emit(n.Pos(), n.End(), "false")
				case "false":
					emit(n.Pos(), n.End(), "true")
				}
			case *ast.IfStmt:
				c := text(n.Cond)
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+c+")")
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+c+")")
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
				}
			case *ast.RangeStmt:
				x := text(n.X)
				emit(n.X.Pos(), n.X.End(), "("+x+")[1:]")
				emit(n.X.Pos(), n.X.End(), "("+x+")[:len("+x+")-1]")
			case *ast.BlockStmt:
				for _, s := range n.List {
					del(s, emit)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					del(s, emit)
				}
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i > 0 {
							emit(n.List[i-1].End(), e.End(), "")
						}
					}
				}
			case *ast.BranchStmt:
				if n.Label == nil {
					switch n.Tok {
					case token.BREAK:
						emit(n.Pos(), n.End(), "continue")
					case token.CONTINUE:
						emit(n.Pos(), n.End(), "break")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					t := text(r)
					for _, z := range []string{"nil", "0", `""`, "false", "true"} {
						if t != z {
							emit(r.Pos(), r.End(), z)
						}
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1")
					emit(n.Low.Pos(), n.Low.End(), "")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), text(n.High)+"-1")
					emit(n.High.Pos(), n.High.End(), "")
				}
			case *ast.IndexExpr:
				emit(n.Index.Pos(), n.Index.End(), text(n.Index)+"+1")
				emit(n.Index.Pos(), n.Index.End(), "0")
			case *ast.CallExpr:
				if len(n.Args) == 2 {
					emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]))
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" {
						emit(n.Pos(), n.End(), text(n.Args[0]))
					}
				}
				if len(n.Args) == 1 {
					// drop the call around a value, or a method of it
					emit(n.Pos(), n.End(), text(n.Args[0]))
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) <= 1 {
					emit(n.Pos(), n.End(), text(s.X))
				}
			case *ast.KeyValueExpr:
				if e := n.End(); src[off(e)] == ',' {
					emit(n.Pos(), e+1, "")
				} else {
					emit(n.Pos(), e, "")
				}
			}
			return true
		})
	}
}

func del(s ast.Stmt, emit func(a, b token.Pos, t string)) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "")
		}
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
		emit(s.Pos(), s.End(), "")
	case *ast.ReturnStmt:
		emit(s.Pos(), s.End(), "")
	}
}
