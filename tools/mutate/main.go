// mutate writes one patched copy of FILE per small syntactic change to stdout's directory argument:
// usage: mutate REPO FILE OUTDIR. Each mutant is OUTDIR/NNN.go with a line "NNN line kind old => new" in OUTDIR/list.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	from, to   int
	text, kind string
}

func main() {
	path := filepath.Join(os.Args[1], os.Args[2])
	out := os.Args[3]
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	s := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var es []edit
	add := func(n ast.Node, kind, text string) { es = append(es, edit{off(n.Pos()), off(n.End()), text, kind}) }
	ops := map[token.Token][]string{
		token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.XOR: {"|"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				es = append(es, edit{off(x.OpPos), off(x.OpPos) + len(x.Op.String()), o, "op"})
			}
		case *ast.IfStmt:
			add(x.Cond, "iftrue", "("+s(x.Cond)+") || true")
			add(x.Cond, "rare", "("+s(x.Cond)+") != zzhit()")
			add(x.Cond, "iffalse", "("+s(x.Cond)+") && false")
		case *ast.ForStmt:
			if x.Cond != nil {
				_ = x
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x, "const", fmt.Sprint(v+1))
					if v > 0 {
						add(x, "const", fmt.Sprint(v-1))
					}
				}
			}
		case *ast.BlockStmt:
			for _, st := range x.List {
				stmts(st, add, s)
			}
		case *ast.CaseClause:
			for _, st := range x.Body {
				stmts(st, add, s)
			}
		case *ast.CommClause:
			for _, st := range x.Body {
				stmts(st, add, s)
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
				switch id.Name {
				case "uint64", "int64", "int":
					add(x.Args[0], "narrow", "uint32("+s(x.Args[0])+")")
					add(x.Args[0], "narrow", "int32("+s(x.Args[0])+")")
				case "uint32", "int32":
					add(x.Args[0], "narrow", "uint16("+s(x.Args[0])+")")
				}
			}
		case *ast.GoStmt:
			es = append(es, edit{off(x.Pos()), off(x.Pos()) + 2, "", "ungo"})
		case *ast.BranchStmt:
			if x.Tok == token.BREAK && x.Label == nil {
				add(x, "branch", "continue")
			} else if x.Tok == token.CONTINUE && x.Label == nil {
				add(x, "branch", "break")
			}
		}
		return true
	})
	os.MkdirAll(out, 0o755)
	l, _ := os.Create(filepath.Join(out, "list"))
	for i, e := range es {
		b := append(append(append([]byte{}, src[:e.from]...), e.text...), src[e.to:]...)
		if e.kind == "rare" { // the change takes effect at every 257th execution
			k := off(f.Name.End())
			b = []byte(string(b[:k]) + "\nimport zzatomic \"sync/atomic\"" + string(b[k:]) +
				"\nvar zzcount uint64\n\nfunc zzhit() bool { return zzatomic.AddUint64(&zzcount, 1)%257 == 0 }\n")
		}
		os.WriteFile(fmt.Sprintf("%s/%03d.go", out, i), b, 0o644)
		line := 1
		for _, c := range src[:e.from] {
			if c == '\n' {
				line++
			}
		}
		fmt.Fprintf(l, "%03d\t%d\t%s\t%q => %q\n", i, line, e.kind, src[e.from:e.to], e.text)
	}
	l.Close()
}

func stmts(st ast.Stmt, add func(ast.Node, string, string), s func(ast.Node) string) {
	rare := func() {
		if t := s(st); !strings.Contains(t, "panic(") {
			add(st, "rare", "if !zzhit() { "+t+" }")
		}
	}
	switch x := st.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
		add(st, "del", "")
		if _, ok := st.(*ast.DeferStmt); !ok {
			rare()
		}
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			add(st, "del", "")
			rare()
		}
	case *ast.IfStmt:
		if x.Init == nil {
			add(st, "del", "")
		}
	}
}
