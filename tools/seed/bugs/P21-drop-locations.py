B=dict(property="P21",
needs="tagfilter run on a file whose references rewritenodes has already replaced by locations",
breaks="references that are not positive are dropped as invalid when a way is rebuilt, so ways lose all their positions in the later stages",
edits=[("internal/t/primitive_block_ways.go","""			refs = append(refs, int64(id))
""","""			if ref := int64(id); ref > 0 { // 0 and below are not node ids
				refs = append(refs, ref)
			}
""")],
demo='''
package zzdemo

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(
		block{nodes: []node{{id: 1, lat: 10, lon: 20, tags: map[string]string{"a": "b"}}, {id: 2, lat: 30, lon: 40}}},
		block{ways: []way{{id: 7, refs: []int64{1, 2, 1}}}},
		block{rels: []rel{{id: 3, members: []member{{1, 7, "outer"}}}}}))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	mustRun(t, d, "rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "rw.pbf", "-x", "n.idx")
	mustRun(t, d, "tagfilter", "-r", "0", "-i", "rw.pbf", "-o", "tf.pbf")
	for _, f := range []string{"rw", "tf"} {
		mustRun(t, d, "wayindex", "-r", "0", "-i", f+".pbf", "-o", f+".widx")
		mustRun(t, d, "relindex", "-r", "0", "-i", f+".pbf", "-o", f+".ridx", "-x", f+".widx")
	}
	if a, b := get(t, d, "rw.ridx"), get(t, d, "tf.ridx"); !bytes.Equal(a, b) {
		t.Fatalf("with tagfilter %v, without %v", i64s(b), i64s(a))
	}
}
''')
