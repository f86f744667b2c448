// mutate lists small changes of Go files, one JSON object per line:
// {"file","line","kind","from","to","off","end"}: bytes off..end become "to".
// It is used to look for blind spots of the checks, never by a check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
	From string `json:"from"`
	To   string `json:"to"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(kind string, from, to token.Pos, with string) {
			s, e := off(from), off(to)
			_ = enc.Encode(mut{f, fs.Position(from).Line, fn, kind, string(src[s:e]), with, s, e})
		}
		swap := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
		asg := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*=", token.OR_ASSIGN: "&="}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			if fn == "String" || fn == "Error" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, to := range swap[n.Op] {
						emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), to)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit("drop-right", n.X.End(), n.Y.End(), "")
						emit("drop-left", n.X.Pos(), n.Y.Pos(), "")
					}
				case *ast.AssignStmt:
					if to, ok := asg[n.Tok]; ok {
						emit("asg", n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), to)
					}
					if n.Tok != token.DEFINE {
						emit("del", n.Pos(), n.End(), "")
					}
				case *ast.IncDecStmt:
					to := "--"
					if n.Tok == token.DEC {
						to = "++"
					}
					emit("incdec", n.TokPos, n.TokPos+2, to)
					emit("del", n.Pos(), n.End(), "")
				case *ast.ExprStmt:
					emit("del", n.Pos(), n.End(), "")
				case *ast.DeferStmt:
					emit("del", n.Pos(), n.End(), "")
				case *ast.SendStmt:
					emit("del", n.Pos(), n.End(), "")
				case *ast.BranchStmt:
					if n.Label == nil && n.Tok == token.BREAK {
						emit("branch", n.Pos(), n.End(), "continue")
						emit("del", n.Pos(), n.End(), "")
					}
					if n.Label == nil && n.Tok == token.CONTINUE {
						emit("branch", n.Pos(), n.End(), "break")
						emit("del", n.Pos(), n.End(), "")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit("int", n.Pos(), n.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("int", n.Pos(), n.End(), fmt.Sprint(v-1))
							}
						}
					}
					if n.Kind == token.STRING && len(n.Value) > 2 {
						emit("str", n.Pos(), n.End(), `""`)
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit("bool", n.Pos(), n.End(), "false")
					}
					if n.Name == "false" {
						emit("bool", n.Pos(), n.End(), "true")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB {
						emit("unary", n.OpPos, n.OpPos+1, "")
					}
				case *ast.IfStmt:
					emit("if-never", n.Cond.Pos(), n.Cond.End(), "false && ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
					emit("if-always", n.Cond.Pos(), n.Cond.End(), "true || ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
				case *ast.CaseClause:
					if len(n.List) > 1 {
						for i := range n.List {
							if i == 0 {
								emit("case", n.List[0].Pos(), n.List[1].Pos(), "")
							} else {
								emit("case", n.List[i-1].End(), n.List[i].End(), "")
							}
						}
					}
					if len(n.Body) > 0 {
						emit("case-body", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
					}
				case *ast.ReturnStmt:
					// a chained method call returned: the receiver instead
					if len(n.Results) == 1 {
						if c, ok := n.Results[0].(*ast.CallExpr); ok {
							if s, ok := c.Fun.(*ast.SelectorExpr); ok {
								emit("ret-recv", c.Pos(), c.End(), string(src[off(s.X.Pos()):off(s.X.End())]))
							}
						}
					}
				case *ast.CallExpr:
					// swapped arguments
					if len(n.Args) == 2 {
						emit("argswap", n.Args[0].Pos(), n.Args[1].End(), string(src[off(n.Args[1].Pos()):off(n.Args[1].End())])+", "+string(src[off(n.Args[0].Pos()):off(n.Args[0].End())]))
					}
				case *ast.KeyValueExpr:
					if _, ok := n.Key.(*ast.Ident); ok {
						e := off(n.End())
						for e < len(src) && (src[e] == ' ' || src[e] == ',') {
							e++
						}
						emit("field", n.Pos(), n.Pos()+token.Pos(e-off(n.Pos())), "")
					}
				case *ast.SelectorExpr:
				}
				return true
			})
		}
	}
}
