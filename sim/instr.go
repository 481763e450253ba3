package main

// Instrumentation of csweb and the packages it uses: a call to
// syscall.SimYield before every statement, so that the simulator can switch
// between requests anywhere in the code and not only at system calls. The
// result exists only as a build overlay.

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func instrument(repo, overlay, out string) {
	b, err := os.ReadFile(overlay)
	if err != nil {
		die("%v", err)
	}
	var ov struct{ Replace map[string]string }
	if err := json.Unmarshal(b, &ov); err != nil {
		die("%s: %v", overlay, err)
	}
	os.MkdirAll(out, 0755)
	repo, err = filepath.Abs(repo)
	if err != nil {
		die("%v", err)
	}
	gos := false
	filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		name := d.Name()
		if d.IsDir() {
			if p != repo && (strings.HasPrefix(name, ".") || name == "vendor" || name == "testdata") {
				return fs.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		gos = gos || startsGoroutines(src)
		res := yieldPoints(src)
		if res == nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		to := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(to, res, 0644); err != nil {
			die("%v", err)
		}
		ov.Replace[p] = to
		return nil
	})
	b, _ = json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
	if gos {
		os.WriteFile(filepath.Join(out, "goroutines"), nil, 0644)
	}
}

// startsGoroutines reports whether src has a go statement or a call of a
// method Go, as sync.WaitGroup has.
func startsGoroutines(src []byte) bool {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return false
	}
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			found = true
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Go" {
				found = true
			}
		}
		return !found
	})
	return found
}

// yieldPoints returns src with a call inserted before every statement, on the
// statement's own line, or nil if there is nothing to do.
func yieldPoints(src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil
	}
	if bytes.Contains(src, []byte("\"unsafe\"")) && bytes.Contains(src, []byte("//go:linkname")) {
		return nil
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	skip := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			skip[n.Body] = true
		case *ast.TypeSwitchStmt:
			skip[n.Body] = true
		case *ast.SelectStmt:
			skip[n.Body] = true
		case *ast.BlockStmt:
			if !skip[n] {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	sort.Ints(at)
	var out bytes.Buffer
	pos := 0
	end := fset.Position(f.Name.End()).Offset
	out.Write(src[:end])
	out.WriteString("; import simyield__ \"syscall\"")
	pos = end
	last := -1
	for _, a := range at {
		if a == last {
			continue
		}
		last = a
		out.Write(src[pos:a])
		out.WriteString("simyield__.SimYield(); ")
		pos = a
	}
	out.Write(src[pos:])
	return out.Bytes()
}
