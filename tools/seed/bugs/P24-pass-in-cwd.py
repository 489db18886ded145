B=dict(property="P24",
needs="a rewritenodes run of several passes whose output goes to another directory",
breaks="the file kept between passes is named after the output's base name, so it is written to the current directory, over whatever is there",
edits=[("cmd/rewritenodes/rewritenodes.go","""	return fmt.Sprintf("%s.pass_%03d_%03d", fn, pass, count)
""","""	return fmt.Sprintf("%s.pass_%03d_%03d", filepath.Base(fn), pass, count)
"""),("cmd/rewritenodes/rewritenodes.go","""	"os"
""","""	"os"
	"path/filepath"
""")],
demo='''
package zzdemo

import (
	"os"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	b := block{}
	for i := int64(1); i <= 300000; i++ {
		b.nodes = append(b.nodes, node{id: i, lat: i, lon: i})
	}
	w := block{ways: []way{{id: 1, refs: []int64{1, 150000, 300000}}}}
	put(t, d, "in.pbf", pbfFile(b, w))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	var taken []string
	for _, n := range []string{"001_002", "001_003", "001_004", "000_002", "000_003", "000_004", "002_003"} {
		taken = append(taken, "out.pbf.pass_"+n)
		put(t, d, "out.pbf.pass_"+n, []byte("mine"))
	}
	if err := os.Mkdir(d+"/sub", 0755); err != nil {
		t.Fatal(err)
	}
	mustRun(t, d, "rewritenodes", "-r", "0", "-i", "in.pbf", "-x", "n.idx", "-o", "sub/out.pbf", "-m", "1")
	for _, n := range taken {
		if b, err := os.ReadFile(d + "/" + n); err != nil || string(b) != "mine" {
			t.Fatalf("%s was changed or taken away", n)
		}
	}
	es, _ := os.ReadDir(d)
	for _, e := range es {
		if n := e.Name(); strings.Contains(n, ".pass_") && len(get(t, d, n)) != 4 {
			t.Fatalf("%s was left behind", n)
		}
	}
}
''')
