B=dict(property="P30",
needs="ways that carry the locations of their nodes (fields 9 and 10)",
breaks="the locations of a way's nodes are dropped in silence",
edits=[("internal/t/way.go","""		case pb.MakeIdType(wayInfo, pb.PbFixedBytes):
			pb.SkipBytes(buf, &next)
		case pb.MakeIdType(wayRefs, pb.PbFixedBytes):
			w.Refs = pb.DecodeS64PackedDelta(buf, &next)
""","""		case pb.MakeIdType(wayInfo, pb.PbFixedBytes),
			pb.MakeIdType(wayLat, pb.PbFixedBytes),
			pb.MakeIdType(wayLon, pb.PbFixedBytes):
			pb.SkipBytes(buf, &next)
		case pb.MakeIdType(wayRefs, pb.PbFixedBytes):
			w.Refs = pb.DecodeS64PackedDelta(buf, &next)
"""),("internal/t/way.go","""	wayRefs = 8
""","""	wayRefs = 8
	wayLat  = 9  // with LocationsOnWays
	wayLon  = 10 // with LocationsOnWays
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	way := fi(nil, 1, 5)
	way = fb(way, 8, delta([]int64{1, 2}))
	way = fb(way, 9, delta([]int64{100, 200}))
	way = fb(way, 10, delta([]int64{-100, -200}))
	var p []byte
	p = fb(p, 1, fb(nil, 1, nil))
	p = fb(p, 2, fb(nil, 3, way))
	put(t, d, "in.pbf", append(pbfFile(), blob("OSMData", p, true)...))
	if so, _, code := run(d, "entitycount", "-i", "in.pbf"); code == 0 {
		t.Fatalf("accepted: %s", so)
	}
}
''')
