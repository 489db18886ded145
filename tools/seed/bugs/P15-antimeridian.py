B=dict(property="P15",
needs="a node at a longitude of exactly 180 degrees",
breaks="the antimeridian is folded to -180 degrees, so the stored location does not decode to the position given",
edits=[("internal/morton/morton.go","""	lo := interleaveMorton16(evens&0xffff, odds&0xffff)
""","""	if evens == maxLon {
		evens = -maxLon // the same meridian
	}
	lo := interleaveMorton16(evens&0xffff, odds&0xffff)
"""),("internal/morton/morton.go","""	hi := interleaveMorton16((evens>>16)&0xffff, (odds>>16)&0xffff)
""","""	hi := interleaveMorton16(evens>>16&0xffff, odds>>16&0xffff)
"""),("internal/morton/morton.go","""var mortonTable256 []uint64
""","""const maxLon = 1_800_000_000

var mortonTable256 []uint64
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/morton"
	"github.com/squizzling/osmindex/internal/nodeindex"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{{id: 5, lat: -900000000, lon: 1800000000}}}))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "out")
	l, _, _ := nodeindex.NewNodeIndex(d+"/out", nil).SubIndex(0, 1).FindNode(5, 0)
	lon, lat := morton.DecodeLocation(uint64(l))
	if lon != 1800000000 || lat != -900000000 {
		t.Fatalf("lon %d lat %d", lon, lat)
	}
}
''')
