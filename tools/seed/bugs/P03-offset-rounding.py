B=dict(property="P03",
needs="a block whose coordinate offset and granularity both leave a remainder modulo 100",
breaks="offset and scaled value are rounded separately, so some indexed positions are off by 1e-7 degrees",
edits=[("cmd/nodeindex/indexer/nodeindexer_worker.go","""				lat := int32((pb.LatOffset + (int64(pb.Granularity) * pg.Dense.Lat[idx])) / 100)
				lon := int32((pb.LonOffset + (int64(pb.Granularity) * pg.Dense.Lon[idx])) / 100)
""","""				lat := int32(latBase + (int64(pb.Granularity)*pg.Dense.Lat[idx])/100)
				lon := int32(lonBase + (int64(pb.Granularity)*pg.Dense.Lon[idx])/100)
"""),("cmd/nodeindex/indexer/nodeindexer_worker.go","""		firstId := notAssigned
""","""		latBase, lonBase := pb.LatOffset/100, pb.LonOffset/100

		firstId := notAssigned
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/morton"
	"github.com/squizzling/osmindex/internal/nodeindex"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	b := block{gran: 70, latOff: 250, lonOff: 1999}
	for i := int64(0); i < 50; i++ {
		b.nodes = append(b.nodes, node{id: 10 + 3*i, lat: 1000 + i, lon: 2000 + i})
	}
	put(t, d, "in.pbf", pbfFile(b))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "out")
	ix := nodeindex.NewNodeIndex(d+"/out", nil)
	si := ix.SubIndex(0, 1)
	for _, n := range b.nodes {
		l, _, ok := si.FindNode(uint64(n.id), 0)
		lon, lat := morton.DecodeLocation(uint64(l))
		if wlat, wlon := (250+70*n.lat)/100, (1999+70*n.lon)/100; !ok || int64(lat) != wlat || int64(lon) != wlon {
			t.Fatalf("node %d is at %d,%d, want %d,%d", n.id, lat, lon, wlat, wlon)
		}
	}
}
''')
