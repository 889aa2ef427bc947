// instrument copies the packages of a module with a call to zkverif.Y before
// every statement, and prints the overlay entries.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	shim := flag.String("shim", "", "directory of the scheduler's source")
	flag.Parse()
	fail := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	fail(err)
	name := strings.Fields(string(mod))[1]
	fail(os.MkdirAll(*out, 0755))
	rep := map[string]string{}
	var class []int
	var locs []string
	fail(filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				return nil
			}
		}
		rel, _ := filepath.Rel(*repo, p)
		inner := strings.HasPrefix(rel, "crypto/bn256/") && filepath.Base(rel) != "bn256.go"
		syncs := usesSync(filepath.Dir(p))
		ins := map[int]string{}
		add := func(pos token.Pos, c int) {
			o := fs.Position(pos)
			if _, ok := ins[o.Offset]; ok {
				return
			}
			ins[o.Offset] = fmt.Sprintf("zkverif.Y(%d);", len(class))
			class = append(class, c)
			locs = append(locs, fmt.Sprintf("%s:%d", rel, o.Line))
		}
		list := func(l []ast.Stmt, first bool) {
			for i, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				// Of the pairing arithmetic, function entries only; but every
				// statement that synchronises, marked as such.
				if syncs && synchronises(s) {
					add(s.Pos(), 2)
				} else if !inner || first && i == 0 {
					add(s.Pos(), 0)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					list(x.Body.List, true)
				}
			case *ast.BlockStmt:
				list(x.List, false)
			case *ast.CaseClause:
				list(x.Body, false)
			case *ast.CommClause:
				list(x.Body, false)
			}
			return true
		})
		if len(ins) == 0 {
			return nil
		}
		var offs []int
		for o := range ins {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		end := fs.Position(f.Name.End()).Offset
		var b strings.Builder
		b.Write(src[:end])
		fmt.Fprintf(&b, "; import zkverif %q", name+"/zkverif")
		prev := end
		for _, o := range offs {
			b.Write(src[prev:o])
			b.WriteString(ins[o])
			prev = o
		}
		b.Write(src[prev:])
		q := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
		rep[p] = q
		return os.WriteFile(q, []byte(b.String()), 0644)
	}))
	y, err := os.ReadFile(filepath.Join(*shim, "zkverif.go.in"))
	fail(err)
	w, err := os.ReadFile(filepath.Join(*shim, "zkverif_wait.go.in"))
	fail(err)
	var t strings.Builder
	t.WriteString("package zkverif\n\n// Class is 2 for statements that synchronise.\nvar Class = []int{")
	for _, c := range class {
		fmt.Fprintf(&t, "%d,", c)
	}
	t.WriteString("}\n\n// Loc is where the statements are.\nvar Loc = []string{")
	for _, l := range locs {
		fmt.Fprintf(&t, "%q,", l)
	}
	t.WriteString("}\n")
	for n, s := range map[string]string{"zkverif.go": string(y), "wait.go": string(w), "table.go": t.String()} {
		q := filepath.Join(*out, "zkverif_"+n)
		fail(os.WriteFile(q, []byte(s), 0644))
		rep[filepath.Join(*repo, "zkverif", n)] = q
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

var usesCache = map[string]bool{}

// usesSync says whether the package in dir can synchronise goroutines.
func usesSync(dir string) bool {
	if v, ok := usesCache[dir]; ok {
		return v
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	v := false
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			continue
		}
		for _, im := range f.Imports {
			v = v || im.Path.Value == `"sync"` || im.Path.Value == `"sync/atomic"`
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.ChanType, *ast.GoStmt:
				v = true
			}
			return true
		})
	}
	usesCache[dir] = v
	return v
}

// synchronises says whether the statement itself, not one inside it, calls
// something that looks like a synchronisation.
func synchronises(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			found = found || x.Op == token.ARROW
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := sel.X.(*ast.Ident); ok && id.Name == "atomic" {
					found = true
				}
				switch n := sel.Sel.Name; {
				case n == "Lock" || n == "Unlock" || n == "RLock" || n == "RUnlock" || n == "TryLock" || n == "Do" || n == "Wait" || n == "Range" || n == "Delete" || n == "Clear",
					strings.HasPrefix(n, "Load"), strings.HasPrefix(n, "Store"), strings.HasPrefix(n, "Swap"), strings.HasPrefix(n, "CompareAnd"),
					n == "Signal" || n == "Broadcast":
					found = true
				}
			}
		}
		return !found
	})
	return found
}
