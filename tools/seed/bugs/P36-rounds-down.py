B=dict(property="P36",
needs="a memory target that does not divide the size of the index's locations",
breaks="the number of passes is rounded down, so each pass uses up to twice the memory asked for",
edits=[("cmd/rewritenodes/rewritenodes.go","""		passes = (memRequired / 1048576 / *opts.Memory) + 1
""","""		if passes = memRequired / 1048576 / *opts.Memory; passes < 1 {
			passes = 1
		}
""")],
demo='''
package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	var bs []block
	for i := 0; i < 40; i++ {
		b := block{}
		for j := 0; j < 6000; j++ {
			b.nodes = append(b.nodes, node{id: int64(i*6000 + j + 1), lat: int64(i), lon: int64(j)})
		}
		bs = append(bs, b)
	}
	bs = append(bs, block{ways: []way{{id: 1, refs: []int64{5, 100000, 239999}}}})
	put(t, d, "in.pbf", pbfFile(bs...))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	// 1.83 MB of locations
	out := mustRun(t, d, "rewritenodes", "-r", "0", "-i", "in.pbf", "-x", "n.idx", "-m", "1", "-o", "o.pbf")
	if n := strings.Count(string(out), " run time: ") - 1; n < 2 {
		t.Fatalf("%d passes of 1 MB over 1.83 MB", n)
	}
}
''')
