// Command perturb writes copies of Go files with a call to the yield package
// before every statement. It keeps line numbers, comments and build
// constraints, and knows nothing about the code it rewrites.
//
// usage: perturb OUTDIR FILE... ; prints "FILE<TAB>COPY" for each
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const pkg = "github.com/nanobus/iota/go/verifh/yield"

func main() {
	outDir := os.Args[1]
	for i, path := range os.Args[2:] {
		src, err := os.ReadFile(path)
		if err != nil {
			fail(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fail(err)
		}
		var at []int
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(b.List)
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		sort.Ints(at)
		var sb strings.Builder
		last := fset.Position(f.Name.End()).Offset
		sb.Write(src[:last])
		sb.WriteString("; import verifyield__ \"" + pkg + "\"")
		for _, o := range at {
			sb.Write(src[last:o])
			sb.WriteString("verifyield__.Y(); ")
			last = o
		}
		sb.Write(src[last:])
		dst := filepath.Join(outDir, fmt.Sprintf("%d_%s", i, filepath.Base(path)))
		if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
			fail(err)
		}
		fmt.Printf("%s\t%s\n", path, dst)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
