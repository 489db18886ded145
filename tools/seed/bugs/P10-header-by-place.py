B=dict(property="P10",
needs="a file with a second header block, as concatenating two files gives",
breaks="decompress derives the type of a block from its place, so later header blocks become data blocks",
edits=[("cmd/decompress/decompressor/decompressor_worker.go","""		bh.Type = obh.BlobType
""","""		bh.Type = "OSMData"
		if obh.Index == 0 { // the header comes first
			bh.Type = "OSMHeader"
		}
""")],
demo='''
package zzdemo

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	one := pbfFile(block{nodes: []node{{id: 5, lat: 10, lon: 20}}})
	put(t, d, "in.pbf", append(append([]byte{}, one...), one...))
	mustRun(t, d, "decompress", "-r", "0", "-i", "in.pbf", "-o", "out.pbf")
	if n := bytes.Count(get(t, d, "out.pbf"), []byte("OSMHeader")); n != 2 {
		t.Fatalf("%d header blocks of 2", n)
	}
}
''')
