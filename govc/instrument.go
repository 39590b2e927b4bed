package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrumented are copies of the source files of the given packages in which
// every statement is preceded by a point where the driver may let other
// goroutines run first. Nothing else changes, line numbers included.
func instrumented(dirs []string, work string) map[string]string {
	repl := map[string]string{}
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(*repoDir, d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, ".pb.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			fset := token.NewFileSet()
			a, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				continue
			}
			var at []int
			list := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.DeclStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
			ast.Inspect(a, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
			if len(at) == 0 {
				continue
			}
			sort.Ints(at)
			var b bytes.Buffer
			p := fset.Position(a.Name.End()).Offset
			b.Write(src[:p])
			b.WriteString("; import zzverifvc \"" + modPath + "/verifvc\"")
			for _, o := range at {
				b.Write(src[p:o])
				b.WriteString("zzverifvc.Yield(); ")
				p = o
			}
			b.Write(src[p:])
			out := filepath.Join(work, "yield_"+strings.ReplaceAll(d, "/", "_")+"_"+filepath.Base(f))
			if os.WriteFile(out, b.Bytes(), 0644) == nil {
				repl[f] = out
			}
		}
	}
	return repl
}
