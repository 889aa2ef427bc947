package zk

import (
	"crypto/sha256"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"math/big"
	"path/filepath"
	"strconv"
	"strings"
)

// Numbers lists every number that the sources under root spell out: integer
// literals, strings that read as numbers in base 10 or 16, and hashes of strings.
func Numbers(root string) (out []*big.Int, words []string) {
	seen := map[string]bool{}
	add := func(x *big.Int) {
		if !seen[x.String()] {
			seen[x.String()] = true
			out = append(out, x)
		}
	}
	filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil || !strings.HasSuffix(path, ".go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.INT:
				if x, ok := new(big.Int).SetString(l.Value, 0); ok {
					add(x)
				}
			case token.STRING:
				s, err := strconv.Unquote(l.Value)
				if err != nil {
					return true
				}
				for _, b := range []int{0, 10, 16} {
					if x, ok := new(big.Int).SetString(s, b); ok {
						add(x)
					}
				}
				if !seen["#"+s] {
					seen["#"+s] = true
					words = append(words, s)
					add(new(big.Int).SetBytes([]byte(s)))
				}
			}
			return true
		})
		return nil
	})
	for _, w := range append([]string{"g", "h", "G", "H"}, words...) {
		for _, p := range []string{"", "0", "1"} {
			h := sha256.Sum256([]byte(p + w))
			add(new(big.Int).SetBytes(h[:]))
		}
	}
	return
}
