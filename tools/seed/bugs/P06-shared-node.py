B=dict(property="P06",
needs="a way that starts with the node the way before it in the group ends with",
breaks="the collapsing of repeats carries over from one way to the next, so the later way loses its first reference",
edits=[("cmd/wayindex/wayindexer/wayindexer_worker.go","""			for _, pg := range pblk.PrimitiveGroup {
				for _, w := range pg.Ways {
""","""			last := int64(0)
			for _, pg := range pblk.PrimitiveGroup {
				for _, w := range pg.Ways {
"""),("cmd/wayindex/wayindexer/wayindexer_worker.go","""					last := int64(0)
					idx := 0
""","""					idx := 0
""")],
demo='''
package zzdemo

import (
	"reflect"
	"testing"

	"github.com/squizzling/osmindex/internal/wayindex"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{ways: []way{{id: 7, refs: []int64{1, 2, 3}}, {id: 8, refs: []int64{3, 4, 5}}}}))
	mustRun(t, d, "wayindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx")
	si := wayindex.NewWayIndex(d+"/w.idx", nil).SubIndexWithScaledPass(0, 1)
	if refs, _, _ := si.FindLocations(8, 0); !reflect.DeepEqual(refs, []int64{3, 4, 5}) {
		t.Fatalf("way 8 has %v", refs)
	}
}
''')
