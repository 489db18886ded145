B=dict(property="P11",
needs="two workers finding nodes through the hint at the same moment",
breaks="hint hits are counted without atomics, so counts are lost and the statistics no longer add up",
edits=[("internal/nodeindex/nodesubindex.go","""			atomic.AddUint64(&si.parent.HitHint, 1)
			loc""","""			si.parent.HitHint++
			loc""")],
demo='''
package zzdemo

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	nb := block{}
	for i := int64(1); i <= 100; i++ {
		nb.nodes = append(nb.nodes, node{id: i, lat: i, lon: i})
	}
	bs := []block{nb}
	refs := 0
	for i := 0; i < 64; i++ {
		b := block{raw: true}
		for j := 0; j < 200; j++ {
			w := way{id: int64(i*200 + j + 1)}
			for k := int64(0); k < 90; k++ {
				w.refs = append(w.refs, k+1)
				refs++
			}
			b.ways = append(b.ways, w)
		}
		bs = append(bs, b)
	}
	put(t, d, "in.pbf", pbfFile(bs...))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	for i := 0; i < 20; i++ {
		so := mustRun(t, d, "rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "out.pbf", "-x", "n.idx", "-w", "8")
		var a, b, c, e int
		if n, err := fmt.Sscanf(so, "hitHint: %d\\nhitDefault: %d\\nmissDefault: %d\\nmissDeferred: %d", &a, &b, &c, &e); n != 4 {
			t.Fatal(err, so)
		}
		if a+b+c+e != refs {
			t.Fatalf("%d lookups counted, %d made", a+b+c+e, refs)
		}
	}
}
''')
