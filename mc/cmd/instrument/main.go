// instrument writes copies of the packages under verification with a call to hook.P before every statement and map
// iterations in an order chosen by the explorer, and an overlay file for go build.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listed struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	DepOnly    bool
	Module     *struct{ Path string }
}

type edit struct {
	at, end int
	text    string
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	shim := flag.Bool("sync", true, "replace package sync")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,DepOnly,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal(err)
	}
	exports := map[string]string{}
	var pkgs []*listed
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		l := &listed{}
		if err := dec.Decode(l); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[l.ImportPath] = l.Export
		if !l.DepOnly && !strings.Contains(l.ImportPath, "/_") {
			pkgs = append(pkgs, l)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	replace := map[string]string{}
	points, ranges := 0, 0
	for _, p := range pkgs {
		if strings.Contains(filepath.Base(p.Dir), "example") || p.Dir == "" {
			continue
		}
		var files []*ast.File
		var names []string
		var texts [][]byte
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(path)
			if err != nil {
				fatal(err)
			}
			af, err := parser.ParseFile(fset, path, src, 0)
			if err != nil {
				fatal(err)
			}
			files, names, texts = append(files, af), append(names, path), append(texts, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = conf.Check(p.ImportPath, fset, files, info)
		// goroutines started by the code itself are not scheduled: such code only gets its map iterations replaced
		concurrent := false
		for _, af := range files {
			ast.Inspect(af, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
					concurrent = true
				case *ast.UnaryExpr:
					if t.Op == token.ARROW {
						concurrent = true
					}
				}
				return true
			})
		}
		for i, af := range files {
			var edits []edit
			off := func(pos token.Pos) int { return fset.Position(pos).Offset }
			stmts := func(list []ast.Stmt) {
				if concurrent {
					return
				}
				for _, s := range list {
					if _, empty := s.(*ast.EmptyStmt); empty {
						continue
					}
					points++
					edits = append(edits, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("__hook.P(%d); ", points)})
				}
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.BlockStmt:
					// the clauses of switch and select are not statements of their own
					if len(t.List) > 0 {
						switch t.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					stmts(t.List)
				case *ast.CaseClause:
					stmts(t.Body)
				case *ast.CommClause:
					stmts(t.Body)
				case *ast.RangeStmt:
					if tv, ok := info.Types[t.X]; ok && tv.Type != nil {
						if _, isMap := tv.Type.Underlying().(*types.Map); isMap {
							ranges++
							edits = append(edits, edit{off(t.X.Pos()), off(t.X.Pos()), "__hook.Range("}, edit{off(t.X.End()), off(t.X.End()), ")"})
						}
					}
				case *ast.CallExpr:
					sel, ok := t.Fun.(*ast.SelectorExpr)
					if !ok {
						return true
					}
					if id, ok := sel.X.(*ast.Ident); ok {
						if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "maps" {
							switch sel.Sel.Name {
							case "Keys", "Values", "All":
								name := sel.Sel.Name
								if name == "All" {
									name = "Range"
								}
								edits = append(edits, edit{off(sel.Pos()), off(sel.End()), "__hook." + name})
								edits = append(edits, edit{len(texts[i]), len(texts[i]), "\nvar _ = " + id.Name + ".Clone[map[int]int]\n"})
								ranges++
							}
							return true
						}
					}
					if s := info.Selections[sel]; s != nil && s.Obj().Pkg() != nil && s.Obj().Pkg().Path() == "reflect" && sel.Sel.Name == "MapKeys" && len(t.Args) == 0 {
						edits = append(edits, edit{off(sel.X.Pos()), off(sel.X.Pos()), "__hook.MapKeys("}, edit{off(sel.X.End()), off(t.End()), ")"})
						ranges++
					}
				}
				return true
			})
			if *shim {
				for _, im := range af.Imports {
					if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
						text := `"verif.local/mc/hook/sync"`
						edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
					}
				}
			}
			edits = append(edits, edit{off(af.Name.End()), off(af.Name.End()), `; import __hook "verif.local/mc/hook"`})
			edits = append(edits, edit{len(texts[i]), len(texts[i]), "\nvar _ = __hook.P\n"})
			sort.SliceStable(edits, func(a, b int) bool { return edits[a].at < edits[b].at })
			var w bytes.Buffer
			last := 0
			for _, e := range edits {
				w.Write(texts[i][last:e.at])
				w.WriteString(e.text)
				last = e.end
			}
			w.Write(texts[i][last:])
			rel, err := filepath.Rel(*repo, names[i])
			if err != nil {
				fatal(err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
			if err = os.WriteFile(dst, w.Bytes(), 0o644); err != nil {
				fatal(err)
			}
			replace[names[i]] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("instrumented %d files: %d statements, %d map iterations\n", len(replace), points, ranges)
}
