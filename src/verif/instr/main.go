// instr inserts a scheduling point before every statement of the Go files in the given directories.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	id := 0
	for _, dir := range os.Args[1:] {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			src, err := os.ReadFile(f)
			check(err)
			set := token.NewFileSet()
			tree, err := parser.ParseFile(set, f, src, parser.ParseComments)
			check(err)
			if tree.Name.Name == "main" {
				continue
			}
			off := map[int]bool{}
			list := func(ss []ast.Stmt) {
				for _, s := range ss {
					if _, ok := s.(*ast.EmptyStmt); !ok {
						off[set.Position(s.Pos()).Offset] = true
					}
				}
			}
			ast.Inspect(tree, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				}
				return true
			})
			// clause positions must not get a point
			ast.Inspect(tree, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.CaseClause, *ast.CommClause:
					delete(off, set.Position(n.Pos()).Offset)
				}
				return true
			})
			var at []int
			for o := range off {
				at = append(at, o)
			}
			sort.Ints(at)
			imp := set.Position(tree.Name.End()).Offset
			var out bytes.Buffer
			out.Write(src[:imp])
			out.WriteString(`; import "verif/vsched"`)
			last := imp
			for _, o := range at {
				out.Write(src[last:o])
				id++
				fmt.Fprintf(&out, "vsched.Point(%d); ", id)
				last = o
			}
			out.Write(src[last:])
			out.WriteString("\nvar _ = vsched.Point\n")
			check(os.WriteFile(f, out.Bytes(), 0644))
		}
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
