// instr REPO OUTDIR: writes instrumented copies of the non-test Go sources of
// the vfilter packages and prints an overlay map. The only change is a call
// placed before every statement, on the statement's own line, at which the
// simulated scheduler may preempt the running goroutine.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	res := map[string]string{}
	err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if info.IsDir() {
			b := filepath.Base(path)
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "benchmarks" || b == "fixtures") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || rel == "visitor.go" || rel == "tokenizer.go" || rel == "outline.go" || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		var at []int
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				// the clauses of switch and select bodies are not statements
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		sort.Ints(at)
		var b strings.Builder
		pos := 0
		emit := func(off int, text string) {
			b.Write(src[pos:off])
			b.WriteString(text)
			pos = off
		}
		emit(fset.Position(f.Name.End()).Offset, `; import vsimpt "velsim/pt"`)
		for _, o := range at {
			emit(o, "vsimpt.P(); ")
		}
		b.Write(src[pos:])
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		text := b.String()
		if old, err := os.ReadFile(dst); err != nil || string(old) != text {
			if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
				return err
			}
		}
		res[path] = dst
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
