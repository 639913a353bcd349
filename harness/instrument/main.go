// Command instrument prepares go-table and its non-standard dependencies for the
// controlled scheduler: imports of sync and sync/atomic are redirected to shims, and a
// scheduling point is put before every statement that mentions a package-level variable
// which is not plain read-only data. Files of /repo go into an overlay; other modules
// are copied and replaced. Line numbers are kept.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path, Version, Dir string }
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func main() {
	work := os.Args[1]
	modfile := filepath.Join(work, "go.mod")
	cmd := exec.Command("go", "list", "-modfile="+modfile, "-deps", "-json=ImportPath,Dir,GoFiles,Standard,Module",
		"github.com/ilius/go-table", "github.com/ilius/go-table/runewidth", "github.com/ilius/go-table/runewidth/uniseg")
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	die(err)
	dec := json.NewDecoder(strings.NewReader(string(out)))
	overlay := map[string]string{}
	copied := map[string]string{}
	n := 0
	for dec.More() {
		var p pkg
		die(dec.Decode(&p))
		if p.Standard || p.Module == nil {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			die(err)
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.ParseComments)
			die(err)
			files = append(files, a)
			srcs = append(srcs, b)
		}
		vars := interesting(files)
		for i, f := range p.GoFiles {
			text, changed := rewrite(fset, files[i], srcs[i], vars)
			if !changed {
				continue
			}
			full := filepath.Join(p.Dir, f)
			if p.Module.Path == "github.com/ilius/go-table" {
				n++
				dst := filepath.Join(work, fmt.Sprintf("ov%d_%s", n, f))
				die(os.WriteFile(dst, []byte(text), 0o644))
				overlay[full] = dst
				continue
			}
			root, ok := copied[p.Module.Path]
			if !ok {
				root = filepath.Join(work, "mods", strconv.Itoa(len(copied)))
				copied[p.Module.Path] = root
				die(copyTree(p.Module.Dir, root))
			}
			rel, err := filepath.Rel(p.Module.Dir, full)
			die(err)
			die(os.WriteFile(filepath.Join(root, rel), []byte(text), 0o644))
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": overlay})
	die(os.WriteFile(filepath.Join(work, "overlay.json"), b, 0o644))
	if len(copied) > 0 {
		f, err := os.OpenFile(modfile, os.O_APPEND|os.O_WRONLY, 0o644)
		die(err)
		var ks []string
		for k := range copied {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(f, "\nreplace %s => %s\n", k, copied[k])
		}
		die(f.Close())
	}
}

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	})
}

// interesting finds the package-level variables that are assigned in some function, or
// are not initialised with a plain literal.
func interesting(files []*ast.File) map[string]bool {
	all, out := map[string]bool{}, map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				for i, name := range v.Names {
					if name.Name == "_" {
						continue
					}
					all[name.Name] = true
					if i < len(v.Values) {
						switch x := v.Values[i].(type) {
						case *ast.CompositeLit, *ast.BasicLit:
							continue
						case *ast.CallExpr:
							// a compiled regular expression is safe for concurrent use
							if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
								if id, ok := sel.X.(*ast.Ident); ok && id.Name == "regexp" {
									continue
								}
							}
						}
					}
					out[name.Name] = true
				}
			}
		}
	}
	root := func(e ast.Expr) string {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				return x.Name
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			default:
				return ""
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					for _, l := range x.Lhs {
						if r := root(l); all[r] {
							out[r] = true
						}
					}
				}
			case *ast.IncDecStmt:
				if r := root(x.X); all[r] {
					out[r] = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if r := root(x.X); all[r] {
						out[r] = true
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(x.Args) > 0 {
					if r := root(x.Args[0]); all[r] {
						out[r] = true
					}
				}
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
					if r := root(sel.X); all[r] && !out[r] {
						// a method call on a variable declared with a literal: keep it if the
						// literal is a struct (sync.Mutex{}, bytes.Buffer{}, ...)
						if structVar(files, r) {
							out[r] = true
						}
					}
				}
			}
			return true
		})
	}
	return out
}

func structVar(files []*ast.File, name string) bool {
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					for i, n := range v.Names {
						if n.Name == name && i < len(v.Values) {
							if c, ok := v.Values[i].(*ast.CompositeLit); ok {
								switch c.Type.(type) {
								case *ast.ArrayType, *ast.MapType:
									return false
								}
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

type edit struct {
	at, del int
	text    string
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, vars map[string]bool) (string, bool) {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	shims := map[string]string{"sync": "verifmc/vsync", "sync/atomic": "verifmc/vatomic"}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := shims[path]
		if !ok {
			continue
		}
		text := strconv.Quote(to)
		if im.Name == nil {
			text = filepath.Base(path) + " " + text
		}
		edits = append(edits, edit{off(im.Path.Pos()), len(im.Path.Value), text})
	}
	points := 0
	mentions := func(n ast.Node) bool {
		found := false
		if n == nil {
			return false
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false // has its own points
			case *ast.SelectorExpr:
				ast.Inspect(x.X, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok && vars[id.Name] {
						found = true
					}
					return true
				})
				return false
			case *ast.KeyValueExpr:
				ast.Inspect(x.Value, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok && vars[id.Name] {
						found = true
					}
					return true
				})
				return false
			case *ast.Ident:
				if vars[x.Name] {
					found = true
				}
			}
			return true
		})
		return found
	}
	header := func(s ast.Stmt) bool {
		switch x := s.(type) {
		case *ast.IfStmt:
			return (x.Init != nil && mentions(x.Init)) || mentions(x.Cond)
		case *ast.ForStmt:
			return (x.Init != nil && mentions(x.Init)) || (x.Cond != nil && mentions(x.Cond)) || (x.Post != nil && mentions(x.Post))
		case *ast.RangeStmt:
			return mentions(x.X)
		case *ast.SwitchStmt:
			if (x.Init != nil && mentions(x.Init)) || (x.Tag != nil && mentions(x.Tag)) {
				return true
			}
			for _, c := range x.Body.List {
				for _, e := range c.(*ast.CaseClause).List {
					if mentions(e) {
						return true
					}
				}
			}
			return false
		case *ast.TypeSwitchStmt:
			return false
		case *ast.BlockStmt, *ast.LabeledStmt, *ast.SelectStmt:
			return false
		}
		return mentions(s)
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if header(s) {
				edits = append(edits, edit{off(s.Pos()), 0, "vsched.Point(); "})
				points++
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				// the body holds clauses, not statements: visit the clauses themselves
				var body *ast.BlockStmt
				switch y := x.(type) {
				case *ast.SwitchStmt:
					body = y.Body
				case *ast.TypeSwitchStmt:
					body = y.Body
				case *ast.SelectStmt:
					body = y.Body
				}
				for _, c := range body.List {
					ast.Inspect(c, func(n ast.Node) bool {
						switch z := n.(type) {
						case *ast.BlockStmt:
							list(z.List)
						case *ast.CaseClause:
							list(z.Body)
						case *ast.CommClause:
							list(z.Body)
						case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
							if n != ast.Node(c) {
								return true
							}
						}
						return true
					})
				}
				return false
			}
			return true
		})
	}
	if points > 0 {
		edits = append(edits, edit{off(f.Name.End()), 0, `; import vsched "verifmc/sched"`})
	}
	if len(edits) == 0 {
		return "", false
	}
	// a clause body block of a nested switch may be listed twice: drop duplicates, and
	// points in front of case clauses (not a statement position)
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	sort.SliceStable(edits, func(a, b int) bool { return edits[a].at < edits[b].at })
	var b strings.Builder
	pos := 0
	seen := map[string]bool{}
	for _, e := range edits {
		k := fmt.Sprint(e.at, e.text)
		if seen[k] || (clause[e.at] && strings.HasPrefix(e.text, "vsched.")) {
			continue
		}
		seen[k] = true
		b.Write(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.at + e.del
	}
	b.Write(src[pos:])
	return b.String(), true
}
