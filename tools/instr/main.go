// Command instr inserts scheduling yield points into Go source files.
//
// For every non-test file of the given package directories it writes a copy in
// which a call vy__.P(site) precedes every statement (same line, so line
// numbers and stack traces stay those of the original), and prints an overlay
// fragment (original path -> instrumented copy) plus a site table as JSON.
// The inserted call does not touch any program state: it only gives the
// scheduler (and a delay injector) a chance to run other goroutines.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
}

func main() {
	out := flag.String("out", "", "output directory")
	imp := flag.String("import", "", "import path of the yield package")
	root := flag.String("root", "/repo", "module root")
	flag.Parse()

	replace := map[string]string{}
	var sites []string
	site := 0
	for _, dir := range flag.Args() {
		full := filepath.Join(*root, dir)
		ents, err := os.ReadDir(full)
		if err != nil {
			// A package that went away is simply not instrumented.
			continue
		}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			path := filepath.Join(full, n)
			src, err := os.ReadFile(path)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			var list []ins
			add := func(stmts []ast.Stmt) {
				for _, s := range stmts {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					p := fset.Position(s.Pos())
					list = append(list, ins{p.Offset, fmt.Sprintf("vy__.P(%d);", site)})
					sites = append(sites, fmt.Sprintf("%s/%s:%d", dir, n, p.Line))
					site++
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				if fd.Name.Name == "init" && fd.Recv == nil {
					continue
				}
				ast.Inspect(fd.Body, func(nd ast.Node) bool {
					switch b := nd.(type) {
					case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
						// the clauses below carry the statement lists
						var body *ast.BlockStmt
						switch x := b.(type) {
						case *ast.SwitchStmt:
							body = x.Body
						case *ast.TypeSwitchStmt:
							body = x.Body
						case *ast.SelectStmt:
							body = x.Body
						}
						_ = body
					case *ast.BlockStmt:
						clauses := false
						for _, s := range b.List {
							switch s.(type) {
							case *ast.CaseClause, *ast.CommClause:
								clauses = true
							}
						}
						if !clauses {
							add(b.List)
						}
					case *ast.CaseClause:
						add(b.Body)
					case *ast.CommClause:
						add(b.Body)
					}
					return true
				})
			}
			if len(list) == 0 {
				continue
			}
			pk := fset.Position(f.Name.End()).Offset
			list = append(list, ins{pk, fmt.Sprintf("; import vy__ %q", *imp)})
			sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
			var b strings.Builder
			prev := 0
			for _, x := range list {
				b.Write(src[prev:x.off])
				b.WriteString(x.text)
				prev = x.off
			}
			b.Write(src[prev:])
			dst := filepath.Join(*out, strings.ReplaceAll(filepath.Join(dir, n), "/", "__"))
			if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			replace[path] = dst
		}
	}
	_ = json.NewEncoder(os.Stdout).Encode(map[string]any{"replace": replace, "sites": sites})
}
