// Command instrument writes copies of the files of a module in which every
// statement is preceded by a call that lets other goroutines go first, and an
// overlay for the go command that puts the copies in the place of the files.
//
//	instrument MODULE-DIR OUT-DIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const sched = `// Package verifsched is where goroutines can be made to wait.
package verifsched

import "sync/atomic"

// Hook is called before every statement if it is set.
var Hook atomic.Pointer[func()]

// Y calls the hook.
func Y() {
	if h := Hook.Load(); h != nil {
		(*h)()
	}
}
`

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

func module(dir string) string {
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	die(err)

	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}

	die(fmt.Errorf("no module in %s", dir)) //nolint:err113

	return ""
}

// rewrite returns nothing for files without statements.
func rewrite(path, pkg string) []byte {
	src, err := os.ReadFile(path)
	die(err)

	set := token.NewFileSet()

	f, err := parser.ParseFile(set, path, src, parser.SkipObjectResolution)
	die(err)

	var at []int

	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			default:
				at = append(at, set.Position(s.Pos()).Offset)
			}
		}
	}

	// Filters compute in loops and have nothing to share there.
	filter := strings.Contains(path, "/internal/b") || strings.Contains(path, "/internal/delta")

	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			return !filter
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}

		return true
	})

	if len(at) == 0 {
		return nil
	}

	sort.Ints(at)

	var o []byte

	last := set.Position(f.Name.End()).Offset
	o = append(o, src[:last]...)
	o = append(o, fmt.Sprintf("; import verifsched %q", pkg)...)

	for i, p := range at {
		if i > 0 && p == at[i-1] {
			continue
		}

		o = append(o, src[last:p]...)
		o = append(o, "verifsched.Y();"...)
		last = p
	}

	return append(o, src[last:]...)
}

func main() {
	root, out := os.Args[1], os.Args[2]
	pkg := module(root) + "/verifsched"
	replace := map[string]string{}
	n := 0

	add := func(path string, b []byte) {
		n++
		to := filepath.Join(out, fmt.Sprintf("%d.go", n))
		die(os.WriteFile(to, b, 0o600))
		replace[path] = to
	}

	die(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}

		if d.IsDir() {
			if b := d.Name(); p != root && (strings.HasPrefix(b, ".") || b == "testdata") {
				return filepath.SkipDir
			}

			return nil
		}

		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			if b := rewrite(p, pkg); b != nil {
				add(p, b)
			}
		}

		return nil
	}))

	add(filepath.Join(root, "verifsched", "verifsched.go"), []byte(sched))

	b, err := json.Marshal(map[string]any{"Replace": replace})
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o600))
}
