// mklit REPO OUT: writes the constants of REPO's own code (texts and whole numbers, those computed from others
// included) as JSON. The checks use them, and their neighbours, as inputs: what the code singles out is tried.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type importer struct{}

func (importer) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	strs, ints := map[string]bool{}, map[uint64]bool{}
	dirs := map[string][]*ast.File{}
	fs := token.NewFileSet()
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo || fi.Name() == "vendor" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(fs, p, nil, parser.SkipObjectResolution)
		if f != nil && err == nil {
			d := filepath.Dir(p) + " " + f.Name.Name
			dirs[d] = append(dirs[d], f)
		}
		return nil
	})
	if err != nil {
		fatal(err)
	}
	add := func(v constant.Value) {
		switch v.Kind() {
		case constant.String:
			strs[constant.StringVal(v)] = true
		case constant.Int:
			if n, ok := constant.Uint64Val(v); ok {
				ints[n] = true
			} else if n, ok := constant.Int64Val(v); ok {
				ints[uint64(-n)] = true
			}
		}
	}
	for d, files := range dirs {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: importer{}, Error: func(error) {}, FakeImportC: true}
		conf.Check(d, fs, files, info)
		for _, tv := range info.Types {
			if tv.Value != nil {
				add(tv.Value)
			}
		}
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BasicLit: // whether it could be typed or not
					switch n.Kind {
					case token.STRING, token.INT, token.CHAR:
						add(constant.ToInt(constant.MakeFromLiteral(n.Value, n.Kind, 0)))
						add(constant.MakeFromLiteral(n.Value, n.Kind, 0))
					}
				case *ast.CompositeLit: // a table of bytes is a text, too
					var b []byte
					for _, e := range n.Elts {
						l, ok := e.(*ast.BasicLit)
						if !ok || l.Kind == token.STRING {
							return true
						}
						v, ok := constant.Uint64Val(constant.ToInt(constant.MakeFromLiteral(l.Value, l.Kind, 0)))
						if !ok || v > 255 {
							return true
						}
						b = append(b, byte(v))
					}
					if len(b) > 1 {
						strs[string(b)] = true
					}
				}
				return true
			})
		}
	}
	var o struct {
		Strings [][]byte // base64: they need not be UTF-8
		Ints    []uint64
	}
	for s := range strs {
		o.Strings = append(o.Strings, []byte(s))
	}
	sort.Slice(o.Strings, func(i, j int) bool { return string(o.Strings[i]) < string(o.Strings[j]) })
	for n := range ints {
		o.Ints = append(o.Ints, n)
	}
	sort.Slice(o.Ints, func(i, j int) bool { return o.Ints[i] < o.Ints[j] })
	j, err := json.MarshalIndent(o, "", " ")
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(out, append(j, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "mklit:", err)
	os.Exit(2)
}
