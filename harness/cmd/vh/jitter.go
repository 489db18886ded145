package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The "jitter" variant: a call that sometimes yields, spins or sleeps before
// every statement of the code under test, so that schedules that would need an
// unlucky preemption come about all the time.

const jitSrc = `package zzjit

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"time"
)

var yield, spin, sleep uint32 = 1 << 28, 1 << 26, 1 << 19

func init() {
	if n, err := strconv.ParseUint(os.Getenv("ZZJIT"), 10, 8); err == nil {
		yield, spin, sleep = yield>>n, spin>>n, sleep>>n
	}
}

// Y delays its caller at random.
func Y() {
	r := rand.Uint32()
	switch {
	case r >= yield:
	case r < sleep:
		time.Sleep(time.Duration(1+r%200) * time.Microsecond)
	case r < spin:
		for i := r % 4000; i > 0; i-- {
			r += i
		}
		if r == 0 {
			runtime.Gosched()
		}
	default:
		runtime.Gosched()
	}
}
`

// jitFile inserts the calls; nil when there is nothing to insert.
func jitFile(name string, src []byte, mod string) ([]byte, int, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, 0, nil
		}
	}
	var at []int
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				at = append(at, fs.Position(s.Pos()).Offset)
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Name.Name == "init" {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
	}
	// clauses of switch and select are in a block as well
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			clause[fs.Position(n.Pos()).Offset] = true
		case *ast.CommClause:
			clause[fs.Position(n.Pos()).Offset] = true
		}
		return true
	})
	set := map[int]bool{}
	for _, o := range at {
		if !clause[o] {
			set[o] = true
		}
	}
	if len(set) == 0 {
		return nil, 0, nil
	}
	var offs []int
	for o := range set {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var b bytes.Buffer
	pk := fs.Position(f.Name.End()).Offset
	b.Write(src[:pk])
	fmt.Fprintf(&b, "; import zzjit %q", mod+"/internal/zzjit")
	last := pk
	for _, o := range offs {
		b.Write(src[last:o])
		b.WriteString("zzjit.Y(); ")
		last = o
	}
	b.Write(src[last:])
	return b.Bytes(), len(offs), nil
}

// jitter gives the overlay entries of the jitter variant.
func (c *Ctx) jitter() (map[string]string, error) {
	gm, err := os.ReadFile(filepath.Join(c.Repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	mod := ""
	for _, l := range strings.Split(string(gm), "\n") {
		if w := strings.Fields(l); len(w) == 2 && w[0] == "module" {
			mod = strings.Trim(w[1], `"`)
		}
	}
	if mod == "" {
		return nil, fmt.Errorf("go.mod names no module")
	}
	rep := map[string]string{}
	dst := filepath.Join(c.Scratch, "jitter")
	points := 0
	for _, top := range []string{"cmd", "internal"} {
		err := filepath.Walk(filepath.Join(c.Repo, top), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(c.Repo, p)
			if fi.IsDir() {
				switch filepath.Base(p) {
				case "pb", "morton", "iunsafe": // innermost loops without anything shared
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out, n, err := jitFile(p, src, mod)
			if err != nil || out == nil {
				return err
			}
			points += n
			to := filepath.Join(dst, rel)
			if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
				return err
			}
			rep[p] = to
			return os.WriteFile(to, out, 0o644)
		})
		if err != nil {
			return nil, err
		}
	}
	to := filepath.Join(dst, "zzjit.go")
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return nil, err
	}
	rep[filepath.Join(c.Repo, "internal", "zzjit", "zzjit.go")] = to
	c.R.Max("delay_points", int64(points))
	return rep, os.WriteFile(to, []byte(jitSrc), 0o644)
}
