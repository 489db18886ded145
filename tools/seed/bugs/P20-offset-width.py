B=dict(property="P20", cli=False, pbf=False,
needs="a way index with more than 2^32 units of location data",
breaks="the offset is read back with 32 of its 33 bits",
edits=[("internal/wayindex/indexdata.go","""	return int64(id) & 0x1_ffff_ffff
""","""	return int64(uint32(id))
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/wayindex"
)

func TestDemo(t *testing.T) {
	for s := uint(0); s < 33; s++ {
		d := wayindex.MakeIndexData(77, int64(1)<<s)
		if d.WayID() != 77 || d.Offset() != int64(1)<<s {
			t.Fatalf("offset %d reads back as %d, way %d", int64(1)<<s, d.Offset(), d.WayID())
		}
	}
}
''')
