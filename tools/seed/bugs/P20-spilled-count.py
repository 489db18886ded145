B=dict(property="P20",
needs="one block with an unbroken run of 2^24 or more node ids",
breaks="the node index writer packs count and offset itself, without the range check, and a long run's count spills into the offset",
edits=[("cmd/nodeindex/indexer/nodeindexer_writer.go","""					uint64(nodeindex.NewCountOffset(itemCount, lastLocationIndex)),
""","""					lastLocationIndex<<nodeindex.CountBits|itemCount,
""")],
demo='''
package zzdemo

import (
	"bytes"
	"testing"

	"github.com/squizzling/osmindex/internal/nodeindex"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	const n = 1<<24 + 3 // nodes 1..n, one after another
	var dense []byte
	dense = fb(dense, 1, bytes.Repeat([]byte{2}, n))
	dense = fb(dense, 8, append(uv(nil, zz(10)), bytes.Repeat([]byte{0}, n-1)...))
	dense = fb(dense, 9, append(uv(nil, zz(20)), bytes.Repeat([]byte{0}, n-1)...))
	p := fb(nil, 1, fb(nil, 1, nil))
	p = fb(p, 2, fb(nil, 2, dense))
	put(t, d, "in.pbf", pbfFile(block{payload: p}))
	if _, _, rc := run(d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx", "-w", "1"); rc != 0 {
		return // refused
	}
	ix := nodeindex.NewNodeIndex(d+"/n.idx", nil)
	defer ix.Close()
	si := ix.SubIndex(0, 1)
	for _, id := range []uint64{1, 2, 1 << 23, 1<<24 - 1, 1 << 24, n} {
		loc, _, ok := si.FindNode(id, 0)
		if !ok || loc == 0 {
			t.Fatalf("node %d: found %v, location %x", id, ok, loc)
		}
	}
}
''')
