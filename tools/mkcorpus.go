//go:build ignore

// Extracts the sources from the tests of /repo: go run tools/mkcorpus.go > harness/corpus.json
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"

	"github.com/lyraproj/issue/issue"
)

func main() {
	set := map[string]bool{}
	files, _ := filepath.Glob("/repo/*/*_test.go")
	for _, f := range files {
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			panic(err)
		}
		ast.Inspect(a, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				s, _ := strconv.Unquote(l.Value)
				if len(s) > 1 {
					set[s] = true
					set[issue.Unindent(s)] = true
				}
			}
			return true
		})
	}
	var r []string
	for s := range set {
		r = append(r, s)
	}
	sort.Strings(r)
	e := json.NewEncoder(os.Stdout)
	e.SetIndent("", " ")
	e.Encode(r)
}
