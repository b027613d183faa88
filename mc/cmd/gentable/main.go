// gentable writes a Go file listing every exported function, variable and constant of the packages under
// verification, so that generated code can be evaluated and vocabulary functions enumerated.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	var b bytes.Buffer
	b.WriteString("//go:build gen\n\npackage main\n\nimport (\n\tp0 \"github.com/go-andiamo/aitch\"\n")
	pkgs := []string{"", "html", "svg", "css", "htmx"}
	for i, p := range pkgs[1:] {
		fmt.Fprintf(&b, "\tp%d \"github.com/go-andiamo/aitch/%s\"\n", i+1, p)
	}
	b.WriteString(")\n\nfunc init() {\n")
	for i, p := range pkgs {
		dir := filepath.Join(*repo, p)
		bp, err := build.ImportDir(dir, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		var funcs, values []string
		for _, f := range bp.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, 0)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			for _, d := range af.Decls {
				switch t := d.(type) {
				case *ast.FuncDecl:
					if t.Recv == nil && t.Name.IsExported() && t.Type.TypeParams == nil {
						funcs = append(funcs, t.Name.Name)
					}
				case *ast.GenDecl:
					if t.Tok == token.VAR || t.Tok == token.CONST {
						for _, s := range t.Specs {
							for _, n := range s.(*ast.ValueSpec).Names {
								if n.IsExported() {
									values = append(values, n.Name)
								}
							}
						}
					}
				}
			}
		}
		name := p
		if name == "" {
			name = "aitch"
		}
		sort.Strings(funcs)
		sort.Strings(values)
		fmt.Fprintf(&b, "\ttable[%q] = map[string]any{\n", name)
		for _, f := range funcs {
			fmt.Fprintf(&b, "\t\t%q: p%d.%s,\n", f, i, f)
		}
		b.WriteString("\t}\n")
		fmt.Fprintf(&b, "\ttableValues[%q] = map[string]any{\n", name)
		for _, f := range values {
			fmt.Fprintf(&b, "\t\t%q: p%d.%s,\n", f, i, f)
		}
		b.WriteString("\t}\n")
	}
	strs, ints := literals(*repo)
	fmt.Fprintf(&b, "\tdictStrings = %#v\n\tdictInts = %#v\n", strs, ints)
	b.WriteString("}\n")
	src, err := format.Source(b.Bytes())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	if err = os.WriteFile(*out, src, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// literals lists the strings and whole numbers that the sources have, other than the vocabulary (names of elements,
// attributes and properties) which vocab_literals.txt lists: they become part of the alphabets that are enumerated, so
// that whatever the code treats specially is among what is tried.
func literals(repo string) (strs []string, ints []int) {
	known := map[string]bool{}
	if b, err := os.ReadFile("vocab_literals.txt"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if s, err := strconv.Unquote(l); err == nil {
				known[s] = true
			}
		}
	}
	ss, is := map[string]bool{}, map[int]bool{}
	for _, dir := range []string{"", "context", "html", "svg", "css", "htmx"} {
		bp, err := build.ImportDir(filepath.Join(repo, dir), 0)
		if err != nil {
			continue
		}
		for _, f := range bp.GoFiles {
			af, err := parser.ParseFile(token.NewFileSet(), filepath.Join(repo, dir, f), nil, 0)
			if err != nil {
				continue
			}
			for _, d := range af.Decls {
				vocab := false
				switch t := d.(type) {
				case *ast.FuncDecl:
					vocab = t.Name.Name == "mappings"
				case *ast.GenDecl:
					if t.Tok == token.IMPORT {
						continue
					}
					vocab = dir != "" && dir != "context"
				}
				ast.Inspect(d, func(n ast.Node) bool {
					switch t := n.(type) {
					case *ast.BasicLit:
						switch t.Kind {
						case token.STRING, token.CHAR:
							if s, err := strconv.Unquote(t.Value); err == nil && len(s) < 200 && !(vocab && known[s]) {
								ss[s] = true
							}
						}
						if i, ok := number(t); ok {
							is[i] = true
						}
					case *ast.BinaryExpr:
						if i, ok := number(t); ok {
							is[i] = true
						}
					}
					return true
				})
			}
		}
	}
	for s := range ss {
		strs = append(strs, s)
	}
	for i := range is {
		ints = append(ints, i)
	}
	sort.Strings(strs)
	sort.Ints(ints)
	return
}

// number evaluates an expression of literals
func number(e ast.Expr) (int, bool) {
	switch t := e.(type) {
	case *ast.ParenExpr:
		return number(t.X)
	case *ast.BasicLit:
		if t.Kind == token.INT {
			if i, err := strconv.ParseInt(t.Value, 0, 64); err == nil && i < 1<<20 {
				return int(i), true
			}
		}
	case *ast.BinaryExpr:
		a, ok := number(t.X)
		b, ok2 := number(t.Y)
		if ok && ok2 {
			r := -1
			switch t.Op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.SHL:
				if b < 20 {
					r = a << b
				}
			}
			if r >= 0 && r < 1<<20 {
				return r, true
			}
		}
	}
	return 0, false
}
