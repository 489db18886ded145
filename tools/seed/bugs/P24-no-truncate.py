B=dict(property="P24",
needs="an existing output file that is longer than the new contents",
breaks="the output is opened without truncating it, so old bytes stay behind the new contents",
edits=[("internal/iio/wrappers.go","""	if f, err := os.Create(fn); err != nil {
""","""	if f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE, 0666); err != nil {
""")],
demo='''
package zzdemo

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{{id: 1, lat: 10, lon: 20}}}))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "fresh")
	put(t, d, "old", bytes.Repeat([]byte{7}, 5000))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "old")
	if !bytes.Equal(get(t, d, "fresh"), get(t, d, "old")) {
		t.Fatalf("%d bytes, want %d", len(get(t, d, "old")), len(get(t, d, "fresh")))
	}
}
''')
