B=dict(property="P07",
needs="a pass count that does not divide the location bytes, with a way starting between the two roundings of a boundary",
breaks="start and end of a pass are rounded differently, so a way on the boundary belongs to two passes",
edits=[("internal/wayindex/wayindex.go","""	endTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))
""","""	endTarget := int64(len(idx.Loc) * (curPass + 1) / countPass)
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/wayindex"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	b := block{}
	for i := int64(0); i < 60; i++ {
		b.ways = append(b.ways, way{id: i + 1, refs: []int64{i * 1000, 5}})
	}
	put(t, d, "in.pbf", pbfFile(b))
	mustRun(t, d, "wayindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx", "-a", "0")
	ix := wayindex.NewWayIndex(d+"/w.idx", nil)
	for n := 1; n <= 60; n++ {
		for _, w := range b.ways {
			found := 0
			for p := 0; p < n; p++ {
				if _, _, ok := ix.SubIndexWithScaledPass(p, n).FindLocations(w.id, 0); ok {
					found++
				}
			}
			if found != 1 {
				t.Fatalf("way %d was found in %d of %d passes", w.id, found, n)
			}
		}
	}
}
''')
