B=dict(property="P30",
needs="a relation with a field whose number is above those known",
breaks="relation fields with higher numbers are skipped in silence",
edits=[("internal/t/relation.go","""			panic(fmt.Sprintf("ReadRelation: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
""","""			if id>>3 <= relationMemberType || id&7 != uint64(pb.PbFixedBytes) {
				panic(fmt.Sprintf("ReadRelation: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
			}
			pb.SkipBytes(buf, &next) // a later extension of the format
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{rels: []rel{{id: 3, extra: fb(nil, 12, []byte{1, 2, 3})}}}))
	if so, _, code := run(d, "entitycount", "-i", "in.pbf"); code == 0 {
		t.Fatalf("accepted: %s", so)
	}
}
''')
