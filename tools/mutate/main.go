// mutate lists small syntactic changes of Go files: one JSON object per line. It helps to find what the checks miss.
//
//	go build -o /tmp/mutate main.go; /tmp/mutate FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	Off int    `json:"off"`
	End int    `json:"end"`
	New string `json:"new"`
}

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Desc  string `json:"desc"`
	Edits []edit `json:"edits"`
}

var swap = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		short := func(s string) string {
			if len(s) > 70 {
				s = s[:70] + "..."
			}
			return strconv.Quote(s)
		}
		out := func(p token.Pos, desc string, es ...edit) {
			enc.Encode(mutant{file, fs.Position(p).Line, desc, es})
		}
		repl := func(n ast.Node, nw string) {
			out(n.Pos(), short(text(n))+" -> "+short(nw), edit{off(n.Pos()), off(n.End()), nw})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "String" || fd.Name.Name == "init" {
				continue
			}
			var locks []ast.Stmt
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, t := range swap[x.Op] {
						out(x.OpPos, short(text(x))+": "+x.Op.String()+" -> "+t, edit{off(x.OpPos), off(x.OpPos) + len(x.Op.String()), t})
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					out(x.Pos(), "if "+short(c)+" -> never", edit{off(x.Cond.Pos()), off(x.Cond.End()), "(" + c + ") && false"})
					out(x.Pos(), "if "+short(c)+" -> always", edit{off(x.Cond.Pos()), off(x.Cond.End()), "(" + c + ") || true"})
				case *ast.ForStmt:
					if x.Cond != nil {
						c := text(x.Cond)
						out(x.Pos(), "for "+short(c)+" -> never", edit{off(x.Cond.Pos()), off(x.Cond.End()), "(" + c + ") && false"})
					}
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok {
							switch s.Sel.Name {
							case "Infof", "Debugf", "Warnf", "Errorf", "Tracef":
								return false
							case "Lock", "RLock", "Unlock", "RUnlock":
								locks = append(locks, x)
							}
						}
					}
					out(x.Pos(), "drop "+short(text(x)), edit{off(x.Pos()), off(x.End()), ""})
				case *ast.DeferStmt:
					if s, ok := x.Call.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Unlock" || s.Sel.Name == "RUnlock") {
						locks = append(locks, x)
					}
					out(x.Pos(), "drop "+short(text(x)), edit{off(x.Pos()), off(x.End()), ""})
				case *ast.IncDecStmt:
					t := "--"
					if x.Tok == token.DEC {
						t = "++"
					}
					out(x.Pos(), short(text(x))+" -> "+t, edit{off(x.TokPos), off(x.TokPos) + 2, t})
					out(x.Pos(), "drop "+short(text(x)), edit{off(x.Pos()), off(x.End()), ""})
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN {
						l := ""
						for i := range x.Lhs {
							if id, ok := x.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
								l = ""
								break
							}
							if l != "" {
								l += ", "
							}
							l += "_"
						}
						if l != "" {
							rhs := string(src[off(x.Rhs[0].Pos()):off(x.End())])
							out(x.Pos(), "drop assignment "+short(text(x)), edit{off(x.Pos()), off(x.End()), l + " = " + rhs})
						}
					} else if x.Tok == token.ADD_ASSIGN {
						out(x.Pos(), short(text(x))+" -> -=", edit{off(x.TokPos), off(x.TokPos) + 2, "-="})
					} else if x.Tok == token.SUB_ASSIGN {
						out(x.Pos(), short(text(x))+" -> +=", edit{off(x.TokPos), off(x.TokPos) + 2, "+="})
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							repl(x, fmt.Sprint(v+1))
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						repl(x, "false")
					} else if x.Name == "false" {
						repl(x, "true")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							repl(id, "nil")
						}
						if c, ok := r.(*ast.CallExpr); ok && len(x.Results) > 1 {
							if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Errorf" {
								repl(r, "nil")
							}
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						repl(x, "break")
					} else if x.Label == nil && x.Tok == token.BREAK {
						repl(x, "continue")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						repl(x, text(x.X))
					}
				case *ast.SliceExpr:
					if x.High != nil {
						repl(x.High, "("+text(x.High)+")-1")
					}
				}
				return true
			})
			if len(locks) >= 2 {
				var es []edit
				for i := len(locks) - 1; i >= 0; i-- {
					es = append(es, edit{off(locks[i].Pos()), off(locks[i].End()), ""})
				}
				out(locks[0].Pos(), "no locks in "+fd.Name.Name, es...)
			}
		}
	}
}
