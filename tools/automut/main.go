// Command automut lists small changes of Go files: one JSON line {file, line, from, to, new, op} each.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Op   string `json:"op"`
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		out := json.NewEncoder(os.Stdout)
		out.SetEscapeHTML(false)
		add := func(a, b token.Pos, s, op string) {
			out.Encode(mutant{f, fs.Position(a).Line, off(a), off(b), s, op})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		del := func(n ast.Stmt) {
			switch s := n.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.GoStmt:
				add(n.Pos(), n.End(), "", "delete "+text(n))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(n.Pos(), n.End(), "", "delete "+text(n))
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					add(n.Pos(), n.End(), "", "delete return")
				}
			case *ast.IfStmt:
				if s.Else != nil {
					add(s.Else.Pos(), s.Else.End(), "{}", "empty else")
				}
			}
		}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(s)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s)
				}
				if len(x.List) > 1 {
					for i := range x.List {
						a, b := x.List[i].Pos(), x.List[i].End()
						if i+1 < len(x.List) {
							b = x.List[i+1].Pos()
						} else {
							a = x.List[i-1].End()
						}
						add(a, b, "", "drop case "+text(x.List[i]))
					}
				}
			case *ast.BinaryExpr:
				sw := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.REM: {"*"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}}
				for _, r := range sw[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, x.Op.String()+" -> "+r+" in "+text(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x.Pos(), x.End(), text(x.X), "only left of "+text(x))
					add(x.Pos(), x.End(), text(x.Y), "only right of "+text(x))
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
				add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never "+text(x.Cond))
				add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always "+text(x.Cond))
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), x.End(), text(x.X), "no not in "+text(x))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" + 1")
						if v > 0 {
							add(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" - 1")
						}
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && src[off(x.Pos())] == '"' {
						if v != "" {
							add(x.Pos(), x.End(), `""`, "empty "+x.Value)
							add(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]+"~"), "last of "+x.Value)
						} else {
							add(x.Pos(), x.End(), `"~"`, "nonempty "+x.Value)
						}
					}
				case token.CHAR:
					add(x.Pos(), x.End(), "'~'", "other "+x.Value)
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice from +1 "+text(x))
				}
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice to -1 "+text(x))
				}
			}
			return true
		})
	}
}
