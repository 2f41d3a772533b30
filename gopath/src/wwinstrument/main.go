// Command wwinstrument copies the Go packages of a directory tree inserting a call of wwnoise.P at
// the beginning of every function, before every acquisition of a lock, after every release of one,
// and before channel operations. Lines keep their numbers.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type insertion struct {
	at   int
	text string
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		name := info.Name()
		if info.IsDir() {
			if rel != "." && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" ||
				name == "node_modules" || rel == "test" || rel == "docs") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		if strings.HasSuffix(name, "_test.go") || !info.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if strings.HasSuffix(name, ".go") {
			if !strings.HasPrefix(rel, "vendor/") {
				b = instrument(rel, b)
			}
		} else if info.Size() > 1<<20 {
			return nil
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(rel string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		// The compiler will tell
		return src
	}
	var ins []insertion
	n := 0
	fn := ""
	call := func(what string) string {
		n++
		return fmt.Sprintf("wwnoise.P(%q)", fmt.Sprintf("%s/%s/%d/%s", strings.TrimSuffix(rel, ".go"), fn, n, what))
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	lockCall := func(e ast.Expr) string {
		c, ok := e.(*ast.CallExpr)
		if !ok || len(c.Args) != 0 {
			return ""
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return ""
		}
		switch s.Sel.Name {
		case "Lock", "RLock":
			return "lock"
		case "Unlock", "RUnlock":
			return "unlock"
		}
		return ""
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s := s.(type) {
			case *ast.ExprStmt:
				switch lockCall(s.X) {
				case "lock":
					ins = append(ins, insertion{off(s.Pos()), call("lock") + "; "})
				case "unlock":
					ins = append(ins, insertion{off(s.End()), "; " + call("unlock")})
				}
				if u, ok := s.X.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					ins = append(ins, insertion{off(s.Pos()), call("recv") + "; "})
				}
			case *ast.DeferStmt:
				if lockCall(s.Call) == "unlock" {
					ins = append(ins, insertion{off(s.Pos()), "defer " + call("unlock") + "; "})
				}
			case *ast.SendStmt:
				ins = append(ins, insertion{off(s.Pos()), call("send") + "; "})
			case *ast.SelectStmt:
				ins = append(ins, insertion{off(s.Pos()), call("select") + "; "})
			}
		}
	}
	ast.Inspect(f, func(node ast.Node) bool {
		switch s := node.(type) {
		case *ast.FuncDecl:
			if s.Body != nil {
				fn = s.Name.Name
				ins = append(ins, insertion{off(s.Body.Lbrace) + 1, call("func") + "; "})
			}
		case *ast.FuncLit:
			ins = append(ins, insertion{off(s.Body.Lbrace) + 1, call("func") + "; "})
		case *ast.BlockStmt:
			stmts(s.List)
		case *ast.CaseClause:
			stmts(s.Body)
		case *ast.CommClause:
			stmts(s.Body)
		}
		return true
	})
	if len(ins) < 1 {
		return src
	}
	ins = append(ins, insertion{off(f.Name.End()), "; import wwnoise \"wwnoise\""})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
	var out []byte
	last := 0
	for _, i := range ins {
		out = append(out, src[last:i.at]...)
		out = append(out, i.text...)
		last = i.at
	}
	return append(out, src[last:]...)
}
