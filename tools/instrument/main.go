// Command instrument copies a module's sources with a call to the scheduler before each
// statement, and writes which file each copy replaces.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func main() {
	if len(os.Args) != 3 {
		fail(fmt.Errorf("usage: instrument REPO OUT"))
	}
	repo, out := os.Args[1], os.Args[2]
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	fail(err)
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mod)
	if m == nil {
		fail(fmt.Errorf("no module"))
	}
	vsched := string(m[1]) + "/internal/vsched"
	replace := map[string]string{}
	for _, dir := range []string{"internal", "pkg"} {
		fail(filepath.WalkDir(filepath.Join(repo, dir), func(path string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return err
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			to := filepath.Join(out, fmt.Sprintf("%03d_%s", len(replace), filepath.Base(path)))
			text, changed, err := instrument(path, src, vsched)
			if err != nil || !changed {
				return err
			}
			replace[path] = to
			return os.WriteFile(to, text, 0o644)
		}))
	}
	data, _ := json.Marshal(replace)
	fail(os.WriteFile(filepath.Join(out, "replace.json"), data, 0o644))
}

func instrument(path string, src []byte, vsched string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, false, nil
	}
	sort.Ints(at)
	var b strings.Builder
	end := fset.Position(f.Name.End()).Offset
	b.Write(src[:end])
	fmt.Fprintf(&b, "; import vsched__ %q", vsched)
	last := end
	for _, o := range at {
		b.Write(src[last:o])
		b.WriteString("vsched__.P(); ")
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), true, nil
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
