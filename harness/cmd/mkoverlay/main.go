// mkoverlay REPO OUT [nochan]: writes an overlay for go build in which the non-test files of REPO that import sync or
// sync/atomic import the controlled shims instead, and in which every statement that sends, receives, selects or closes
// is preceded by a scheduling point (unless nochan is given).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shim = map[string]string{"sync": "verif.local/h/vsync", "sync/atomic": "verif.local/h/vatomic"}

func main() {
	repo, out := os.Args[1], os.Args[2]
	os.RemoveAll(out)
	if err := os.MkdirAll(out, 0o755); err != nil {
		fatal(err)
	}
	repl := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo || fi.Name() == "cmd" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.SkipObjectResolution)
		if err != nil {
			return nil // the compiler will report it
		}
		type edit struct {
			from, to int
			with     string
		}
		var edits []edit
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			s, ok := shim[path]
			if !ok || im.Name != nil && im.Name.Name == "_" {
				continue
			}
			with := strconv.Quote(s)
			if im.Name == nil {
				with = filepath.Base(path) + " " + with
			}
			edits = append(edits, edit{fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset, with})
		}
		if at := channelOps(f, src, fs); len(at) > 0 && len(os.Args) < 4 {
			o := fs.Position(f.Name.End()).Offset
			edits = append(edits, edit{o, o, "; import verifsync " + strconv.Quote(shim["sync"])})
			for _, a := range at {
				o := fs.Position(a.pos).Offset
				edits = append(edits, edit{o, o + a.over, a.text})
			}
		}
		if len(edits) == 0 {
			return nil
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
		for i := len(edits) - 1; i >= 0; i-- {
			e := edits[i]
			src = append(append(append([]byte{}, src[:e.from]...), e.with...), src[e.to:]...)
		}
		n++
		to := filepath.Join(out, fmt.Sprintf("f%d_%s", n, filepath.Base(p)))
		if err := os.WriteFile(to, src, 0o644); err != nil {
			return err
		}
		repl[p] = to
		return nil
	})
	if err != nil {
		fatal(err)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

type point struct {
	pos  token.Pos
	over int // bytes replaced
	text string
}

// channelOps finds the statements of blocks that use a channel themselves (not in a nested block or function), and the
// scheduling point to put before each; closing becomes a call of the shim.
func channelOps(f *ast.File, src []byte, fs *token.FileSet) (at []point) {
	text := func(n ast.Node) string {
		return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
	}
	// Receiving from an unbuffered channel waits under control only if the channel serves as a signal: some are closed
	// under its name and nothing is sent.
	closed, sent := map[string]bool{}, map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SendStmt:
			sent[last(x.Chan)] = true
		case *ast.CallExpr:
			if isClose(x) {
				closed[last(x.Args[0])] = true
			}
		}
		return true
	})
	wait := func(op ast.Node) (string, bool) {
		switch x := op.(type) {
		case *ast.SendStmt:
			if pure(x.Chan) {
				return "verifsync.S(" + text(x.Chan) + ")", true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && pure(x.X) {
				if n := last(x.X); closed[n] && !sent[n] {
					return "verifsync.C(" + text(x.X) + ")", true
				}
				return "verifsync.R(" + text(x.X) + ")", true
			}
		}
		return "", false
	}
	// ops of a statement outside nested blocks, in order
	ops := func(s ast.Node) (found []ast.Node) {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.SendStmt:
				found = append(found, x)
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					found = append(found, x)
				}
			}
			return true
		})
		return
	}
	before := func(s ast.Stmt) {
		var calls []string
		if sel, ok := s.(*ast.SelectStmt); ok {
			all, blocking := true, true
			for _, c := range sel.Body.List {
				comm := c.(*ast.CommClause).Comm
				if comm == nil {
					blocking = false
					continue
				}
				known := false
				for _, op := range ops(comm) {
					if w, ok := wait(op); ok {
						calls, known = append(calls, w), true
					}
				}
				all = all && known
			}
			if !blocking || !all {
				calls = nil
			}
			at = append(at, point{s.Pos(), 0, "verifsync.Await(" + strings.Join(calls, ", ") + "); "})
			return
		}
		t := ""
		for _, op := range ops(s) {
			if w, ok := wait(op); ok && len(ops(s)) == 1 {
				t += "verifsync.Await(" + w + "); "
			} else {
				t += "verifsync.Await(); "
			}
		}
		if t != "" {
			at = append(at, point{s.Pos(), 0, t})
		}
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch x := s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.GoStmt, *ast.DeferStmt, *ast.LabeledStmt:
			case *ast.IfStmt:
				if x.Init != nil { // its condition may use what that declares
					if len(ops(x)) > 0 {
						at = append(at, point{s.Pos(), 0, "verifsync.Await(); "})
					}
				} else {
					before(s)
				}
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				if len(ops(x)) > 0 {
					at = append(at, point{s.Pos(), 0, "verifsync.Await(); "})
				}
			default:
				before(s)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.CallExpr:
			if isClose(x) {
				at = append(at, point{x.Pos(), len("close"), "verifsync.Close"})
			}
		}
		return true
	})
	return
}

func isClose(x *ast.CallExpr) bool {
	id, ok := x.Fun.(*ast.Ident)
	return ok && id.Name == "close" && len(x.Args) == 1
}

// last is the name a channel goes by.
func last(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	case *ast.ParenExpr:
		return last(x.X)
	}
	return ""
}

// pure reports that evaluating e once more changes nothing.
func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	case *ast.TypeAssertExpr:
		return pure(x.X)
	}
	return false
}

func fatal(err error) { fmt.Fprintln(os.Stderr, "mkoverlay:", err); os.Exit(2) }
