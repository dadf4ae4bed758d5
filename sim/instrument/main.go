// instrument REPO OUTDIR: writes copies of REPO's root-package sources with a call of
// simY() before every statement (on the same line, so line numbers stay as they are),
// plus a file that defines simY, and prints the overlay that makes go build use them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const helper = `package gotables

// SimYield, when set, is called before every statement of this package.
var SimYield func()

//go:norace
func simY() {
	if SimYield != nil {
		SimYield()
	}
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	repl := map[string]string{}
	ents, err := os.ReadDir(repo)
	check(err)
	pkg := ""
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(repo, n); err != nil || !ok {
			continue
		}
		src := filepath.Join(repo, n)
		b, err := os.ReadFile(src)
		check(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, src, b, parser.ParseComments)
		check(err)
		if f.Name.Name != "gotables" {
			continue
		}
		pkg = f.Name.Name
		tf := fset.File(f.Pos())
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, empty := s.(*ast.EmptyStmt); !empty {
					at = append(at, tf.Offset(s.Pos()))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.BlockStmt:
				if len(v.List) > 0 {
					switch v.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true // statements are in the clauses
					}
				}
				list(v.List)
			case *ast.CaseClause:
				list(v.Body)
			case *ast.CommClause:
				list(v.Body)
			}
			return true
		})
		sort.Ints(at)
		var sb strings.Builder
		last := 0
		for i, o := range at {
			if i > 0 && at[i-1] == o {
				continue
			}
			sb.Write(b[last:o])
			sb.WriteString("simY(); ")
			last = o
		}
		sb.Write(b[last:])
		dst := filepath.Join(out, n)
		check(os.WriteFile(dst, []byte(sb.String()), 0o644))
		repl[src] = dst
	}
	if pkg == "" {
		check(fmt.Errorf("no package gotables in %s", repo))
	}
	dst := filepath.Join(out, "zz_sim_yield.go")
	check(os.WriteFile(dst, []byte(helper), 0o644))
	repl[filepath.Join(repo, "zz_sim_yield.go")] = dst
	j, err := json.Marshal(map[string]interface{}{"Replace": repl})
	check(err)
	os.Stdout.Write(j)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}
