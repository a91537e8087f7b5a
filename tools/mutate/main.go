// mutate lists small changes of a Go file, one JSON object per line: the file
// with the bytes from lo to hi replaced by text. It is used to look for changes
// the checks do not notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Lo   int    `json:"lo"`
	Hi   int    `json:"hi"`
	Text string `json:"text"`
	Old  string `json:"old"`
	Kind string `json:"kind"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		put := func(lo, hi token.Pos, text, kind string) {
			l, h := fset.Position(lo), fset.Position(hi)
			enc.Encode(mut{f, l.Line, l.Offset, h.Offset, text, string(src[l.Offset:h.Offset]), kind})
		}
		swaps := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
		}
		isLog := func(e ast.Expr) bool {
			c, ok := e.(*ast.CallExpr)
			if !ok {
				return false
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return false
			}
			x, ok := s.X.(*ast.Ident)
			return ok && (x.Name == "log" || x.Name == "logger" || x.Name == "fmt" && s.Sel.Name != "Fprint" || x.Name == "runtime" || x.Name == "monitor")
		}
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.ExprStmt:
				if isLog(s.X) {
					return false
				}
				put(s.Pos(), s.End(), "", "drop-call")
			case *ast.AssignStmt:
				if s.Tok == token.ASSIGN || s.Tok != token.DEFINE {
					put(s.Pos(), s.End(), "", "drop-assign")
				}
			case *ast.IncDecStmt:
				put(s.Pos(), s.End(), "", "drop-incdec")
			case *ast.DeferStmt:
				put(s.Pos(), s.End(), "", "drop-defer")
			case *ast.GoStmt:
				put(s.Pos(), s.Call.Pos(), "", "go-to-call")
			case *ast.BranchStmt:
				if s.Tok == token.CONTINUE || s.Tok == token.BREAK {
					put(s.Pos(), s.End(), "", "drop-branch")
				}
			case *ast.IfStmt:
				put(s.Cond.Pos(), s.Cond.End(), "false && ("+string(src[fset.Position(s.Cond.Pos()).Offset:fset.Position(s.Cond.End()).Offset])+")", "if-false")
				if s.Else != nil || !isErrCheck(s) {
					put(s.Cond.Pos(), s.Cond.End(), "true || ("+string(src[fset.Position(s.Cond.Pos()).Offset:fset.Position(s.Cond.End()).Offset])+")", "if-true")
				}
			case *ast.BinaryExpr:
				if lit, ok := s.X.(*ast.BasicLit); ok && lit.Kind == token.STRING {
					return true
				}
				for _, t := range swaps[s.Op] {
					put(s.OpPos, s.OpPos+token.Pos(len(s.Op.String())), t, "op")
				}
			case *ast.BasicLit:
				if s.Kind == token.INT {
					if v, err := strconv.ParseInt(s.Value, 0, 64); err == nil {
						put(s.Pos(), s.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							put(s.Pos(), s.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				}
			case *ast.CallExpr:
				if isLog(s) {
					return false
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					if id, ok := s.Results[0].(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						put(id.Pos(), id.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "bool")
					}
				}
			}
			return true
		}
		ast.Inspect(a, walk)
	}
}

func isErrCheck(s *ast.IfStmt) bool {
	b, ok := s.Cond.(*ast.BinaryExpr)
	if !ok {
		return false
	}
	x, ok := b.X.(*ast.Ident)
	return ok && x.Name == "err"
}
