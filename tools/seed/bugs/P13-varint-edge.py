B=dict(property="P13", cli=False, pbf=False,
needs="the single value 2^56 (or a delta whose zigzag form is 2^56)",
breaks="2^56 is written in eight bytes, the last of which has its continuation bit set",
edits=[("internal/pb/varint.go","""	case v < 1<<56:
""","""	case v <= 1<<56:
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/pb"
)

func TestDemo(t *testing.T) {
	for s := uint(0); s < 64; s++ {
		for d := -1; d <= 1; d++ {
			v := uint64(1)<<s + uint64(d)
			b := pb.EncodeVarInt(nil, v)
			n := len(b)
			b = append(b, 0, 0, 0)
			next := 0
			if got := pb.DecodeVarInt(b, &next); got != v || next != n {
				t.Fatalf("%d reads back as %d from %d of %d bytes", v, got, next, n)
			}
		}
	}
}
''')
