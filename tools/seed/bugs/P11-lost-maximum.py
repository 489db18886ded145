B=dict(property="P11",
needs="two workers ending at the same moment, the one with the smaller maximum storing it after the other",
breaks="a worker's maximum is compared and stored in two steps, so a larger one stored in between is lost",
edits=[("cmd/entitycount/entitycount.go","""	for old := atomic.LoadUint64(max); new > old && !atomic.CompareAndSwapUint64(max, old, new); old = atomic.LoadUint64(max) {
		/* do nothing */
	}
""","""	if old := atomic.LoadUint64(max); new > old {
		atomic.StoreUint64(max, new)
	}
""")],
demo='''
package zzdemo

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	var bs []block
	for i := 0; i < 300; i++ {
		n := int64(i + 1)
		bs = append(bs, block{raw: true, nodes: []node{{id: n}}, ways: []way{{id: n, refs: make([]int64, n)}}, rels: []rel{{id: n}}})
	}
	rand.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	put(t, d, "in.pbf", pbfFile(bs...))
	for run := 0; run < 9000; run++ {
		so := mustRun(t, d, "entitycount", "-i", "in.pbf", "-w", []string{"32", "64"}[run%2])
		for _, want := range []string{"nodes, %d max", "ways, %d max", "%d maximum length", "relations, %d max"} {
			if !strings.Contains(so, fmt.Sprintf(want, 300)) {
				t.Fatalf("run %d: %s", run, so)
			}
		}
	}
}
''')
