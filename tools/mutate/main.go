// Command mutate lists small changes of a Go source file, as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	What string `json:"what"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

var assigns = map[token.Token]string{
	token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*=",
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(from, to token.Pos, with, what string) {
			_ = enc.Encode(mutant{name, fset.Position(from).Line, off(from), off(to), with,
				fmt.Sprintf("%s: %q -> %q", what, clip(string(src[off(from):off(to)])), clip(with))})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		inFunc := false
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					emit(s.Pos(), s.End(), "", "drop statement")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "drop assignment")
					}
				case *ast.DeferStmt:
					emit(s.Pos(), s.End(), "", "drop defer")
				case *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "drop branch")
					if s.Tok == token.CONTINUE && s.Label == nil {
						emit(s.Pos(), s.End(), "break", "branch")
					}
					if s.Tok == token.BREAK && s.Label == nil {
						emit(s.Pos(), s.End(), "continue", "branch")
					}
				case *ast.IfStmt:
					if s.Else == nil && s.Init == nil {
						emit(s.Pos(), s.End(), "", "drop if")
					}
					emit(s.Cond.Pos(), s.Cond.End(), "!("+text(s.Cond)+")", "negate")
					if s.Else != nil {
						emit(s.Body.End(), s.Else.End(), "", "drop else")
					}
				case *ast.ReturnStmt:
					if i < len(list)-1 {
						break
					}
					if len(s.Results) == 0 {
						emit(s.Pos(), s.End(), "", "drop return")
					}
				case *ast.RangeStmt, *ast.ForStmt:
					emit(s.Pos(), s.End(), "", "drop loop")
				}
				if i+1 < len(list) {
					_, a := s.(*ast.ReturnStmt)
					_, b := list[i+1].(*ast.ReturnStmt)
					if !a && !b {
						emit(s.Pos(), list[i+1].End(), text(list[i+1])+"\n"+text(s), "swap statements")
					}
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			inFunc = ok
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BinaryExpr:
					for _, w := range swaps[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), w, "operator")
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n.Pos(), n.End(), text(n.X), "only left of "+n.Op.String())
						emit(n.Pos(), n.End(), text(n.Y), "only right of "+n.Op.String())
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB {
						emit(n.Pos(), n.X.Pos(), "", "drop unary")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), "constant")
							if v > 0 {
								emit(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), "constant")
							}
						}
					}
					if n.Kind == token.FLOAT {
						emit(n.Pos(), n.End(), "("+n.Value+"*1.5)", "constant")
					}
					if n.Kind == token.CHAR && len(n.Value) == 3 {
						emit(n.Pos(), n.End(), "'~'", "char")
					}
				case *ast.Ident:
					if inFunc && n.Name == "true" {
						emit(n.Pos(), n.End(), "false", "bool")
					}
					if inFunc && n.Name == "false" {
						emit(n.Pos(), n.End(), "true", "bool")
					}
				case *ast.AssignStmt:
					if w, ok := assigns[n.Tok]; ok {
						emit(n.TokPos, n.TokPos+2, w, "assign op")
						emit(n.TokPos, n.TokPos+2, "=", "assign op")
					}
					for _, r := range n.Rhs {
						if c, ok := r.(*ast.CallExpr); ok && len(c.Args) >= 1 && text(c.Fun) == "append" {
							emit(r.Pos(), r.End(), text(c.Args[0]), "drop append")
						}
					}
				case *ast.IncDecStmt:
					w := "--"
					if n.Tok == token.DEC {
						w = "++"
					}
					emit(n.TokPos, n.TokPos+2, w, "incdec")
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
					for i, e := range n.List {
						if len(n.List) > 1 && i+1 < len(n.List) {
							emit(e.Pos(), n.List[i+1].Pos(), "", "drop case value")
						}
					}
					for i := range n.Body {
						if i == 0 {
							emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
						}
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "slice low")
					}
					if n.High != nil && !n.Slice3 {
						emit(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "slice high")
					}
					if n.Slice3 {
						emit(n.High.End(), n.Max.End(), "", "slice cap")
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 && text(n.Fun) != "append" {
						emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swap args")
					}
					if len(n.Args) == 1 {
						if _, ok := n.Fun.(*ast.SelectorExpr); ok {
							emit(n.Pos(), n.End(), text(n.Args[0]), "call -> argument")
						}
					}
				case *ast.SelectorExpr:
					_ = n
				case *ast.CompositeLit:
					for i, e := range n.Elts {
						if _, ok := e.(*ast.KeyValueExpr); ok && i+1 < len(n.Elts) {
							emit(e.Pos(), n.Elts[i+1].Pos(), "", "drop field")
						}
					}
				}

				return true
			})
			_ = fd
		}
	}
}

func clip(s string) string {
	if len(s) > 90 {
		return s[:87] + "..."
	}

	return s
}
