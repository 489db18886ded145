B=dict(property="P06",
needs="an alignment of more than 16 bits and a way whose list ends early within it",
breaks="padding is given in pieces of at most 64 KiB, so wide alignments are not reached",
edits=[("cmd/wayindex/wayindexer/wayindexer_worker.go","""	return append(b, bytes.Repeat([]byte{0}, amt-((len(b))%amt))...)
""","""	n := amt - len(b)%amt
	if n > len(padding) {
		n = len(padding)
	}
	return append(b, padding[:n]...)
"""),("cmd/wayindex/wayindexer/wayindexer_worker.go","""func padToAlignment(""","""var padding [1 << 16]byte

func padToAlignment("""),("cmd/wayindex/wayindexer/wayindexer_worker.go","""	"bytes"
""","")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/wayindex"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	b := block{}
	for i := int64(1); i <= 4; i++ {
		b.ways = append(b.ways, way{id: i, refs: []int64{i * 1000, i*1000 + 1}})
	}
	put(t, d, "in.pbf", pbfFile(b))
	for _, a := range []string{"0", "5", "12", "16", "17", "18"} {
		mustRun(t, d, "wayindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx", "-a", a)
		ix := wayindex.NewWayIndex(d+"/w.idx", nil)
		si := ix.SubIndexWithScaledPass(0, 1)
		for _, w := range b.ways {
			locs, _, ok := si.FindLocations(w.id, 0)
			if !ok || len(locs) != 2 || locs[0] != w.refs[0] || locs[1] != w.refs[1] {
				t.Fatalf("alignment %s: way %d is %v", a, w.id, locs)
			}
		}
		ix.Close()
	}
}
''')
