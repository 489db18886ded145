B=dict(property="P26", cli=False, pbf=False,
needs="a byte slice whose capacity is not a multiple of 8",
breaks="the capacity of the view is rounded up, so it reaches past the memory of the slice",
edits=[("internal/iunsafe/slices.go","""	hdrO.Cap = hdrI.Cap / 8
""","""	hdrO.Cap = (hdrI.Cap + 7) / 8
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/iunsafe"
)

func TestDemo(t *testing.T) {
	for n := 0; n <= 64; n++ {
		b := make([]byte, 64)[:n:n]
		if v := iunsafe.ByteSliceAsInt64Slice(b); 8*cap(v) > cap(b) || len(v) != n/8 {
			t.Fatalf("a view of %d bytes has length %d and capacity %d", n, len(v), cap(v))
		}
	}
}
''')
