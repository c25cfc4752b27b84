// Command yield copies the Go files of some package directories with a scheduling point inserted
// before every statement, and writes an overlay file naming the copies. The program stays the same;
// concurrent calls only get more chances to interleave.
//
//	yield OUTDIR PKGDIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const helper = `package %s

import (
	verifrand "math/rand/v2"
	"runtime"
	"time"
)

// verifYield is a scheduling point. It must not synchronize goroutines (an atomic counter would
// hide data races from the race detector).
func verifYield() {
	switch verifrand.Uint32() & 31 {
	case 0, 1:
		time.Sleep(time.Microsecond)
	case 2, 3, 4, 5, 6, 7, 8, 9, 10, 11:
		runtime.Gosched()
	}
}
`

func yieldStmt() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifYield")}}
}

func spread(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
		default:
			out = append(out, yieldStmt())
		}
		out = append(out, s)
	}
	return out
}

func main() {
	out := os.Args[1]
	overlay := map[string]map[string]string{"Replace": {}}
	for n, dir := range os.Args[2:] {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			panic(err)
		}
		pkg := ""
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			// comments are dropped (they would be misplaced), except that files with build constraints are left alone
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			file, err := parser.ParseFile(fset, f, src, 0)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			if strings.Contains(string(src), "//go:") || strings.Contains(string(src), "// +build") || strings.Contains(string(src), `import "C"`) {
				continue
			}
			pkg = file.Name.Name
			ast.Inspect(file, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					b.List = spread(b.List)
				case *ast.CaseClause:
					b.Body = spread(b.Body)
				case *ast.CommClause:
					b.Body = spread(b.Body)
				}
				return true
			})
			// blocks of switch and select hold clauses only: take the calls inserted there out again
			ast.Inspect(file, func(n ast.Node) bool {
				var body *ast.BlockStmt
				switch b := n.(type) {
				case *ast.SwitchStmt:
					body = b.Body
				case *ast.TypeSwitchStmt:
					body = b.Body
				case *ast.SelectStmt:
					body = b.Body
				}
				if body != nil {
					var keep []ast.Stmt
					for _, s := range body.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							keep = append(keep, s)
						}
					}
					body.List = keep
				}
				return true
			})
			to := filepath.Join(out, fmt.Sprintf("yield%d_%s", n, filepath.Base(f)))
			w, err := os.Create(to)
			if err != nil {
				panic(err)
			}
			if err := format.Node(w, fset, file); err != nil {
				panic(err)
			}
			w.Close()
			overlay["Replace"][f] = to
		}
		if pkg != "" {
			to := filepath.Join(out, fmt.Sprintf("yield%d_zz.go", n))
			if err := os.WriteFile(to, []byte(fmt.Sprintf(helper, pkg)), 0o644); err != nil {
				panic(err)
			}
			overlay["Replace"][filepath.Join(dir, "zz_verif_yield.go")] = to
		}
	}
	b, _ := json.Marshal(overlay)
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		panic(err)
	}
}
