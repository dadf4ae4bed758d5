// mutate lists small changes to the Go files given: one JSON object per line.
// It is a development aid: it measures what the checks catch, and no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, p := range os.Args[1:] {
		src, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		out := func(a, b token.Pos, repl, op string) {
			pa, pb := fs.Position(a), fs.Position(b)
			enc.Encode(mut{filepath.Base(p), pa.Offset, pb.Offset, repl, op, pa.Line, fn})
		}
		text := func(n ast.Node) string {
			return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					c := text(x.Cond)
					out(x.Cond.Pos(), x.Cond.End(), "("+c+") && gotablesMutNo", "cond-false")
					out(x.Cond.Pos(), x.Cond.End(), "("+c+") || gotablesMutYes", "cond-true")
				case *ast.ForStmt:
					if x.Cond != nil {
						if be, ok := x.Cond.(*ast.BinaryExpr); ok && be.Op == token.LSS {
							out(be.Y.Pos(), be.Y.End(), "("+text(be.Y)+")-1", "loop-short")
						}
					}
				case *ast.BinaryExpr:
					m := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.ADD: "-", token.SUB: "+", token.LAND: "||", token.LOR: "&&"}
					if r, ok := m[x.Op]; ok {
						out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "op "+x.Op.String()+"→"+r)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							out(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						out(x.Pos(), x.End(), "false", "bool")
					}
					if x.Name == "false" {
						out(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.ExprStmt:
					out(x.Pos(), x.End(), "", "del-call")
				case *ast.DeferStmt:
					out(x.Pos(), x.End(), "", "del-defer")
				case *ast.IncDecStmt:
					out(x.Pos(), x.End(), "", "del-inc")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						l := ""
						for range x.Lhs {
							if l != "" {
								l += ", "
							}
							l += "_"
						}
						if x.Tok == token.ASSIGN {
							out(x.Lhs[0].Pos(), x.Lhs[len(x.Lhs)-1].End(), l, "del-assign")
						} else {
							out(x.Pos(), x.End(), "", "del-assign")
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						out(x.Pos(), x.End(), "", "del-break")
					}
					if x.Label == nil && x.Tok == token.CONTINUE {
						out(x.Pos(), x.End(), "break", "continue→break")
						out(x.Pos(), x.End(), "", "del-continue")
					}
				case *ast.CaseClause:
					if len(x.Body) > 0 && len(x.List) > 0 {
						out(x.Colon+1, x.Body[0].Pos(), "\nif gotablesMutYes { break }\n", "case-skip")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						out(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice-low+1")
					}
					if x.High != nil {
						out(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice-high-1")
					}
				}
				return true
			})
		}
	}
}
