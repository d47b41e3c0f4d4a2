//go:build go1.22

// Instrumentation for the controlled scheduler: a copy of the library's sources with a call before every statement.
// The copies go into a scratch directory and reach the compiler through an overlay; /repo is not written.

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const (
	ptStmt   = 1 // before every statement
	ptFunc   = 2 // at the start of every function
	ptGlobal = 4 // before every statement of a function that mentions a package-level variable
)

// instrumentMain adds the instrumented sources of the library's packages to an overlay file: scheduling points, or
// (maps) loops over maps whose order can be chosen.
func instrumentMain(repo, dst, overlay string, maps bool) int {
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(overlay)
	if err == nil {
		err = json.Unmarshal(b, &ov)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		return 3
	}
	dirs := map[string][]string{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "truecli" || n == "vendor" || strings.HasPrefix(n, "verif")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	})
	n := 0
	for dir, files := range dirs {
		sort.Strings(files)
		fset := token.NewFileSet()
		asts := map[string]*ast.File{}
		srcs := map[string][]byte{}
		pkg := ""
		globals := map[string]bool{}
		for _, f := range files {
			src, err := os.ReadFile(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instrument:", err)
				return 3
			}
			a, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instrument:", err)
				return 3
			}
			asts[f], srcs[f] = a, src
			pkg = a.Name.Name
			for _, d := range a.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							globals[id.Name] = true
						}
					}
				}
			}
		}
		if pkg == "main" {
			continue
		}
		var info *types.Info
		if maps {
			var list []*ast.File
			for _, f := range files {
				list = append(list, asts[f])
			}
			info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
			conf := types.Config{Error: func(error) {}, Importer: noImports{}}
			conf.Check(pkg, fset, list, info) // what is imported stays unknown
		}
		for _, f := range files {
			var out []byte
			if maps {
				out = orderFile(fset, asts[f], srcs[f], info)
				if out == nil {
					continue
				}
			} else {
				out = instrumentFile(fset, asts[f], srcs[f], globals)
			}
			n++
			to := filepath.Join(dst, fmt.Sprintf("i%d.go", n))
			if err := os.WriteFile(to, out, 0o600); err != nil {
				fmt.Fprintln(os.Stderr, "instrument:", err)
				return 3
			}
			ov.Replace[f] = to
		}
		if maps {
			continue
		}
		n++
		to := filepath.Join(dst, fmt.Sprintf("i%d.go", n))
		text := fmt.Sprintf("package %s\n\nimport verifsched \"github.com/unidoc/unitype/internal/verifsched\"\n\nfunc verifPoint(k int) { verifsched.Point(k) }\n", pkg)
		if err := os.WriteFile(to, []byte(text), 0o600); err != nil {
			fmt.Fprintln(os.Stderr, "instrument:", err)
			return 3
		}
		ov.Replace[filepath.Join(dir, "zz_verifpoint.go")] = to
	}
	b, _ = json.Marshal(ov)
	if err := os.WriteFile(overlay, b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		return 3
	}
	return 0
}

func instrumentFile(fset *token.FileSet, a *ast.File, src []byte, globals map[string]bool) []byte {
	type ins struct{ at, kind int }
	var list []ins
	mentions := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.Ident:
				if globals[x.Name] {
					found = true
				}
			case *ast.SelectorExpr: // a variable of another package of the module
				if id, ok := x.X.(*ast.Ident); ok && (id.Name == "strutils") {
					found = true
				}
			}
			return !found
		})
		return found
	}
	var walk func(n ast.Node, base int)
	stmts := func(l []ast.Stmt, base int) {
		for _, s := range l {
			list = append(list, ins{fset.Position(s.Pos()).Offset, base})
		}
	}
	walk = func(n ast.Node, base int) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				if x.Body == nil {
					return false
				}
				k := ptStmt
				if mentions(x.Body) {
					k |= ptGlobal
				}
				list = append(list, ins{fset.Position(x.Body.Lbrace).Offset + 1, ptFunc})
				walk(x.Body, k)
				return false
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(x.List, base)
			case *ast.CaseClause:
				stmts(x.Body, base)
			case *ast.CommClause:
				stmts(x.Body, base)
			}
			return true
		})
	}
	for _, d := range a.Decls {
		walk(d, ptStmt|ptGlobal)
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].at < list[j].at })
	var out bytes.Buffer
	last := 0
	for _, i := range list {
		out.Write(src[last:i.at])
		fmt.Fprintf(&out, "verifPoint(%d); ", i.kind)
		last = i.at
	}
	out.Write(src[last:])
	return out.Bytes()
}

// noImports knows no package: the library's own types are enough to find its maps.
type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	return nil, errors.New("not imported")
}

// orderFile replaces the loops over maps; nil when there are none.
func orderFile(fset *token.FileSet, a *ast.File, src []byte, info *types.Info) []byte {
	type rep struct {
		from, to int
		text     string
	}
	var list []rep
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ast.Inspect(a, func(x ast.Node) bool {
		s, ok := x.(*ast.RangeStmt)
		if !ok {
			return true
		}
		t := info.Types[s.X].Type
		if t == nil {
			return true
		}
		if _, ok := t.Underlying().(*types.Map); !ok {
			return true
		}
		name := func(e ast.Expr) (string, bool) {
			if e == nil {
				return "", true
			}
			id, ok := e.(*ast.Ident)
			if !ok {
				return "", false
			}
			if id.Name == "_" {
				return "", true
			}
			return id.Name, true
		}
		k, ok1 := name(s.Key)
		v, ok2 := name(s.Value)
		if !ok1 || !ok2 {
			return true
		}
		ref := func(n string) string {
			if n == "" {
				return "nil"
			}
			return "&" + n
		}
		blank := func(n string) string {
			if n == "" {
				return "_"
			}
			return n
		}
		x0 := string(src[off(s.X.Pos()):off(s.X.End())])
		var text string
		if s.Tok == token.DEFINE {
			text = fmt.Sprintf("for verifIter, %s, %s := verifsched.Iterate(%s); verifIter.Next(%s, %s); {", blank(k), blank(v), x0, ref(k), ref(v))
		} else {
			text = fmt.Sprintf("for verifIter, _, _ := verifsched.Iterate(%s); verifIter.Next(%s, %s); {", x0, ref(k), ref(v))
		}
		list = append(list, rep{off(s.For), off(s.Body.Lbrace) + 1, text})
		return true
	})
	if len(list) == 0 {
		return nil
	}
	at := off(a.Name.End())
	list = append(list, rep{at, at, "; import verifsched \"github.com/unidoc/unitype/internal/verifsched\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].from < list[j].from })
	var out bytes.Buffer
	last := 0
	for _, r := range list {
		if r.from < last {
			return nil // a loop in the head of a loop
		}
		out.Write(src[last:r.from])
		out.WriteString(r.text)
		last = r.to
	}
	out.Write(src[last:])
	return out.Bytes()
}
