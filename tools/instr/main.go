// Command instr copies Go source files with a call of a hook put before each statement of
// each function, all in the same lines. It prints the copies as JSON, by original.
// Usage: instr OUTDIR DIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	rep := map[string]string{}
	n := 0
	for _, dir := range os.Args[2:] {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, file := range files {
			if strings.HasSuffix(file, "_test.go") {
				continue
			}
			src, err := os.ReadFile(file)
			if err != nil {
				continue
			}
			out, k := instrument(string(src))
			if k == 0 {
				continue
			}
			n += k
			p := filepath.Join(os.Args[1], fmt.Sprintf("%d-%s", len(rep), filepath.Base(file)))
			if err := os.WriteFile(p, []byte(out), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			rep[file] = p
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

// instrument returns the source with hooks and the number of them.
func instrument(src string) (string, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return src, 0
	}
	var at []int
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			default:
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.BlockStmt:
				list(n.List)
			}
			return true
		})
	}
	if len(at) == 0 {
		return src, 0
	}
	sort.Ints(at)
	var b strings.Builder
	end := fset.Position(f.Name.End()).Offset
	b.WriteString(src[:end])
	b.WriteString(`; import verifauto "github.com/iand/starbow/internal/verifmon/auto"`)
	last, n := end, 0
	for i, p := range at {
		if i > 0 && p == at[i-1] {
			continue
		}
		b.WriteString(src[last:p])
		b.WriteString("verifauto.At(); ")
		last = p
		n++
	}
	b.WriteString(src[last:])
	return b.String(), n
}
