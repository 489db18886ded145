B=dict(property="P39",
needs="a node index cut short within its locations, and references to nodes in the missing part",
breaks="the entries whose locations are missing are dropped, so their nodes look absent and the run succeeds",
edits=[("internal/nodeindex/nodeindex.go","""		last := CountOffset(indexData[len(indexData)-1])
		if last.Offset()+last.Count() > uint64(len(locationData)) {
			panic("truncated index")
		}
	}
""","""		first := CountOffset(indexData[1])
		if first.Offset()+first.Count() > uint64(len(locationData)) {
			panic("truncated index")
		}
	}
	usable := func(elements []int64) []int64 {
		for len(elements) > 0 {
			last := CountOffset(elements[len(elements)-1])
			if last.Offset()+last.Count() <= uint64(len(locationData)) {
				break
			}
			elements = elements[:len(elements)-2] // still being copied
		}
		return elements
	}
"""),("internal/nodeindex/nodeindex.go","""		elements:  indexData,
""","""		elements:  usable(indexData),
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{{id: 1, lat: 1, lon: 1}, {id: 1000, lat: 2, lon: 2}}}, block{ways: []way{{id: 7, refs: []int64{1, 1000}}}}))
	mustRun(t, d, "nodeindex", "-i", "in.pbf", "-o", "n.idx", "-r", "0")
	x := get(t, d, "n.idx")
	put(t, d, "n.idx", x[:len(x)-8])
	if so, _, code := run(d, "rewritenodes", "-i", "in.pbf", "-x", "n.idx", "-o", "out", "-r", "0"); code == 0 {
		t.Fatalf("accepted: %s", so)
	}
}
''')
