// mkdelay REPO OUT: writes an overlay for go build in which every statement of REPO's cmd/server is preceded by a
// point where the goroutine that reaches it for the first time can be held up, and a list of the points, one per line.
// What such a process does, the original does when the scheduler of the operating system holds up that goroutine there.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const helper = `package %s

import (
	vdos "os"
	vdstrconv "strconv"
	vdstrings "strings"
	vdsync "sync"
	vdtime "time"
)

var (
	verifDelayMu   vdsync.Mutex
	verifDelaySeen = map[int]bool{}
)

// verifDelayPoint holds up the first goroutine that gets to a point listed in VERIF_DELAY.
func verifDelayPoint(n int) {
	v := vdos.Getenv("VERIF_DELAY")
	if v == "" {
		return
	}
	verifDelayMu.Lock()
	was := verifDelaySeen[n]
	verifDelaySeen[n] = true
	verifDelayMu.Unlock()
	if was {
		return
	}
	for _, s := range vdstrings.Split(v, ",") {
		if s == vdstrconv.Itoa(n) {
			vdtime.Sleep(400 * vdtime.Millisecond)
		}
	}
}
`

func main() {
	dir, out := filepath.Join(os.Args[1], "cmd", "server"), os.Args[2]
	os.RemoveAll(out)
	if err := os.MkdirAll(out, 0o755); err != nil {
		fatal(err)
	}
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		fatal(err)
	}
	sort.Strings(files)
	repl := map[string]string{}
	var points []string
	pkg := "main"
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			continue // the compiler will report it
		}
		pkg = f.Name.Name
		var at []int
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, empty := s.(*ast.EmptyStmt); !empty {
					at = append(at, fs.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SwitchStmt:
				for _, c := range n.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range n.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range n.Body.List {
					list(c.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(n.List)
			}
			return true
		})
		sort.Ints(at)
		var b strings.Builder
		last := 0
		for _, o := range at {
			b.Write(src[last:o])
			fmt.Fprintf(&b, "verifDelayPoint(%d); ", len(points))
			l := string(src[o:])
			if i := strings.IndexByte(l, '\n'); i >= 0 {
				l = l[:i]
			}
			points = append(points, fmt.Sprintf("%s:%d %s", filepath.Base(p), strings.Count(string(src[:o]), "\n")+1, strings.TrimSpace(l)))
			last = o
		}
		b.Write(src[last:])
		to := filepath.Join(out, "d_"+filepath.Base(p))
		if err := os.WriteFile(to, []byte(b.String()), 0o644); err != nil {
			fatal(err)
		}
		repl[p] = to
	}
	h := filepath.Join(out, "zz_verif_delay.go")
	if err := os.WriteFile(h, []byte(fmt.Sprintf(helper, pkg)), 0o644); err != nil {
		fatal(err)
	}
	repl[filepath.Join(dir, "zz_verif_delay.go")] = h
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(filepath.Join(out, "points"), []byte(strings.Join(points, "\n")+"\n"), 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "mkdelay:", err)
	os.Exit(2)
}
