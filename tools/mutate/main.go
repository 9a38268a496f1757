// mutate lists small changes of Go files, one JSON object per line:
// file, start, end (byte offsets), new text, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
	Line  int    `json:"line"`
}

var binary = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|", "&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		out := func(a, b token.Pos, s, what string) {
			enc.Encode(change{path, off(a), off(b), s, what, fset.Position(a).Line})
		}
		skip := map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT && x.Tok != token.TYPE
			case *ast.BinaryExpr:
				if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
					return false
				}
				for _, o := range binary[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o+" in "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT && !skip[x] {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						out(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" + 1")
						if v > 0 {
							out(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" - 1")
						}
					}
				}
			case *ast.IfStmt:
				out(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
				out(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never "+text(x.Cond))
				out(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always "+text(x.Cond))
			case *ast.ExprStmt:
				out(x.Pos(), x.End(), "", "delete "+text(x))
			case *ast.IncDecStmt:
				out(x.Pos(), x.End(), "", "delete "+text(x))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					out(x.Pos(), x.End(), "", "delete "+text(x))
				}
				if x.Tok == token.ADD_ASSIGN {
					out(x.TokPos, x.TokPos+2, "-=", "-= in "+text(x))
					out(x.TokPos, x.TokPos+2, "=", "= in "+text(x))
				}
				if x.Tok == token.SUB_ASSIGN {
					out(x.TokPos, x.TokPos+2, "+=", "+= in "+text(x))
				}
				if x.Tok == token.XOR_ASSIGN {
					out(x.TokPos, x.TokPos+2, "|=", "|= in "+text(x))
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						out(id.Pos(), id.End(), "nil", "nil for err")
					}
					if c, ok := r.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "fmtErr" || id.Name == "textErr" || id.Name == "wrapErr") {
							out(r.Pos(), r.End(), "nil", "nil for "+text(r))
						}
						if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "toErr" && len(c.Args) == 1 {
							out(r.Pos(), r.End(), text(c.Args[0]), "no toErr for "+text(r))
						}
					}
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						out(id.Pos(), id.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "not "+id.Name)
					}
				}
				if len(x.Results) == 0 {
					out(x.Pos(), x.End(), "", "delete return")
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					out(x.Pos(), x.End(), "", "delete "+text(x))
				}
			case *ast.ForStmt:
				return true
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "wrapErr" {
					return false
				}
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "fmtErr" || id.Name == "textErr") {
					return false
				}
				// Swap neighbouring arguments.
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					if text(a) != text(b) {
						out(a.Pos(), b.End(), text(b)+", "+text(a), "swap arguments of "+text(x))
					}
				}
			}
			return true
		})
	}
}
