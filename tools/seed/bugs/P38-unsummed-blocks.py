B=dict(property="P38",
needs="a block of more than 64 KiB whose compressed data still inflates to the stated size but no longer has its checksum",
breaks="a damaged large block is taken as it is and its contents are believed",
edits=[("internal/t/blob.go","""	buf := bytes.NewBuffer(b.ZLibData)
	zlibReader, err := zlib.NewReader(buf)
	if err != nil {
		panic(err)
	}
""","""	var zlibReader io.Reader
	zlibReader, err := zlib.NewReader(bytes.NewReader(b.ZLibData))
	if err != nil {
		panic(err)
	}
	if *b.RawSize > 1<<16 {
		// Go below the container, for large blocks that is a good deal faster
		zlibReader = flate.NewReader(bytes.NewReader(b.ZLibData[2:]))
	}
"""),("internal/t/blob.go",'''	"bytes"
''','''	"bytes"
	"compress/flate"
''')],
demo='''
package zzdemo

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	uv := func(b []byte, v uint64) []byte {
		for v >= 0x80 {
			b = append(b, byte(v)|0x80)
			v >>= 7
		}
		return append(b, byte(v))
	}
	for _, n := range []int{10, 30000} {
		var nodes []node
		for i := 0; i < n; i++ {
			nodes = append(nodes, node{id: int64(i + 1), lat: int64(i * 7919 % 900000000), lon: int64(i * 104729 % 1800000000)})
		}
		pay := block{nodes: nodes}.encode()
		var z bytes.Buffer
		w := zlib.NewWriter(&z)
		w.Write(pay)
		w.Close()
		for _, bad := range []bool{false, true} {
			zb := append([]byte{}, z.Bytes()...)
			if bad {
				zb[len(zb)-1] ^= 1
			}
			blob := uv([]byte{2 << 3}, uint64(len(pay)))
			blob = append(uv(append(blob, 3<<3|2), uint64(len(zb))), zb...)
			h := append(uv([]byte{1<<3 | 2}, 7), "OSMData"...)
			h = uv(append(h, 3<<3), uint64(len(blob)))
			f := binary.BigEndian.AppendUint32(nil, uint32(len(h)))
			f = append(append(f, h...), blob...)
			put(t, d, "in.pbf", f)
			so, se, code := run(d, "entitycount", "-i", "in.pbf")
			if bad == (code == 0) {
				t.Fatalf("%d bytes, damaged %v: exit %d: %s%s", len(pay), bad, code, so, se)
			}
		}
	}
}
''')
