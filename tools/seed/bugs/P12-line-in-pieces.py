B=dict(property="P12",
needs="several workers printing entities whose lines are longer than 4096 bytes at the same time",
breaks="long lines are written in pieces, so lines of several workers mix",
edits=[("cmd/entityfind/entityfind.go","""				if isIn(ids, uint64(n.Id)) {
					iio.Printf("%#v\\n", n)
				}
""","""				show(ids, uint64(n.Id), n)
"""),("cmd/entityfind/entityfind.go","""				if isIn(ids, uint64(w.Id)) {
					iio.Printf("%#v\\n", w)
				}
""","""				show(ids, uint64(w.Id), w)
"""),("cmd/entityfind/entityfind.go","""				if isIn(ids, uint64(r.Id)) {
					iio.Printf("%#v\\n", r)
				}
""","""				show(ids, uint64(r.Id), r)
"""),("cmd/entityfind/entityfind.go","""func findEntity(""","""// show prints an entity that is asked for, a page at a time.
func show(ids []uint64, id uint64, entity interface{}) {
	if !isIn(ids, id) {
		return
	}
	line := fmt.Sprintf("%#v\\n", entity)
	for len(line) > 4096 {
		iio.Printf("%s", line[:4096])
		line = line[4096:]
	}
	iio.Printf("%s", line)
}

func findEntity("""),("cmd/entityfind/entityfind.go","""	"context"
""","""	"context"
	"fmt"
""")],
demo='''
package zzdemo

import (
	"fmt"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	var bs []block
	args := []string{"-i", "in.pbf", "-w", "8"}
	for i := int64(1); i <= 80; i++ {
		bs = append(bs, block{nodes: []node{{id: i, tags: map[string]string{"k": strings.Repeat(fmt.Sprint(i%10), 30000)}}}})
		args = append(args, "-e", fmt.Sprint(i))
	}
	put(t, d, "in.pbf", pbfFile(bs...))
	for run := 0; run < 40; run++ {
		so := mustRun(t, d, "entityfind", args...)
		ls := strings.Split(strings.TrimSpace(so), "\\n")
		if len(ls) != 80 {
			t.Fatalf("%d lines", len(ls))
		}
		for _, l := range ls {
			if !strings.HasPrefix(l, "&t.HLNode{") || !strings.HasSuffix(l, "}") || strings.Count(l, "HLNode") != 1 {
				t.Fatalf("a line of %d bytes starts with %.60s", len(l), l)
			}
			for c := '0'; c <= '9'; c++ {
				if s := strings.Repeat(string(c), 30000); strings.Contains(l, string(c)+string(c)+string(c)+string(c)) && !strings.Contains(l, s) {
					t.Fatalf("a line of %d bytes holds a value in part", len(l))
				}
			}
		}
	}
}
''')
