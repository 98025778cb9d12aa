// instr [-points] REPO OUT < LIST: writes a copy of the library source files of
// REPO in which loops over Go maps are controlled by package maporder and, with
// -points, a scheduling point stands before each statement, into OUT, and
// OUT/overlay.json for go build -overlay. REPO is not touched. LIST is the
// output of go list -export -deps -json for the packages of REPO.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export, ForTest string
	GoFiles                          []string
	Module                           *struct{ GoVersion string }
}

func main() {
	points := len(os.Args) > 1 && os.Args[1] == "-points"
	args := os.Args[1:]
	if points {
		args = args[1:]
	}
	if len(args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: instr [-points] REPO OUT < LIST")
		os.Exit(2)
	}
	if err := run(points, args[0], args[1]); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run(points bool, repo, out string) error {
	repo, err := filepath.EvalSymlinks(repo)
	if err != nil {
		return err
	}
	var pkgs []*pkg
	exports := map[string]string{}
	for d := json.NewDecoder(os.Stdin); ; {
		p := &pkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		dir, err := filepath.EvalSymlinks(p.Dir)
		if err != nil {
			return err
		}
		if dir == repo || strings.HasPrefix(dir, repo+"/") {
			pkgs = append(pkgs, p)
		}
	}
	replace := map[string]string{}
	n, pts, loops := 0, 0, 0
	for _, p := range pkgs {
		fset := token.NewFileSet()
		var files []*ast.File
		var paths []string
		var srcs [][]byte
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			file, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				return err
			}
			files, paths, srcs = append(files, file), append(paths, path), append(srcs, src)
		}
		if len(files) == 0 || files[0].Name.Name == "main" {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{
			Error: func(error) {},
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				if exports[path] == "" {
					return nil, errors.New("no export data for " + path)
				}
				return os.Open(exports[path])
			}),
		}
		conf.Check(p.ImportPath, fset, files, info) // what it cannot type is left alone
		for i, file := range files {
			res, k, l := instrument(fset, file, srcs[i], info, points)
			if k+l == 0 {
				continue
			}
			n++
			pts += k
			loops += l
			dst := filepath.Join(out, fmt.Sprintf("f%d.go", n))
			replace[paths[i]] = dst
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return err
			}
		}
	}
	if n == 0 && len(pkgs) == 0 {
		return errors.New("no packages")
	}
	b, err := json.Marshal(map[string]any{"Replace": replace})
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		return err
	}
	fmt.Printf("instr: %d files, %d scheduling points, %d map loops\n", n, pts, loops)
	return nil
}

// An edit replaces src[from:to].
type edit struct {
	from, to int
	text     string
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, points bool) ([]byte, int, int) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	pts, loops := 0, 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit || !points {
				continue
			}
			pts++
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "vmcsched.P(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if n != nil {
				// the bodies of switch and select hold clauses, not statements
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.RangeStmt:
			if h := mapLoop(n, info, func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }); h != "" {
				loops++
				edits = append(edits, edit{off(n.For), off(n.Body.Lbrace), h})
			}
		}
		return true
	})
	if pts+loops == 0 {
		return nil, 0, 0
	}
	imports := ""
	if pts > 0 {
		imports += `; import vmcsched "verif/sched"`
	}
	if loops > 0 {
		imports += `; import vmcmaps "verif/maporder"`
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), imports})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b []byte
	pos := 0
	for _, e := range edits {
		b = append(b, src[pos:e.from]...)
		b = append(b, e.text...)
		pos = e.to
	}
	b = append(b, src[pos:]...)
	return b, pts, loops
}

// mapLoop is the header that replaces the one of a loop over a Go map, or "".
func mapLoop(n *ast.RangeStmt, info *types.Info, text func(ast.Expr) string) string {
	t := info.TypeOf(n.X)
	if t == nil || !isMap(t) {
		return ""
	}
	simple := true
	ast.Inspect(n.X, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			simple = false
		}
		return true
	})
	if !simple || clears(n) {
		return ""
	}
	name := func(e ast.Expr) string {
		if e == nil {
			return ""
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			simple = false
			return ""
		}
		if id.Name == "_" {
			return ""
		}
		return id.Name
	}
	k, v := name(n.Key), name(n.Value)
	if !simple {
		return ""
	}
	kind, vars, ptrs := "0", "", ""
	switch {
	case k != "" && v != "":
		kind, vars, ptrs = "2", ", "+k+", "+v, "&"+k+", &"+v
	case k != "":
		kind, vars, ptrs = "1", ", "+k, "&"+k
	case v != "":
		kind, vars, ptrs = "V", ", "+v, "&"+v
	}
	first := kind
	if n.Tok != token.DEFINE {
		first, vars = "0", ""
	}
	return fmt.Sprintf("for vmcit%s := vmcmaps.Start%s(%s); vmcit.Next%s(%s); ", vars, first, text(n.X), kind, ptrs)
}

// clears: the loop only deletes every key, in which case the order does not
// matter and the compiler clears the map.
func clears(n *ast.RangeStmt) bool {
	if len(n.Body.List) != 1 || n.Value != nil {
		return false
	}
	s, ok := n.Body.List[0].(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := s.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return ok && id.Name == "delete"
}

// isMap: a map, or a type parameter that stands for maps of one type only.
func isMap(t types.Type) bool {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		i, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok || i.NumEmbeddeds() != 1 {
			return false
		}
		u, ok := i.EmbeddedType(0).(*types.Union)
		if !ok {
			return isMap(i.EmbeddedType(0))
		}
		return u.Len() == 1 && isMap(u.Term(0).Type())
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
