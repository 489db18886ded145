B=dict(property="P38",
needs="a message or packed list whose last integer is cut off, with at least ten further bytes behind it in memory",
breaks="the cut integer is completed with bytes of whatever follows the message",
edits=[("internal/pb/varint.go","""	var y uint64
	start := *s
	v = uint64(b[start])
	if v < 0x80 {
		*s += 1
		return v
	}
	v -= 0x80
""","""	var y uint64
	start := *s
	if b[start] >= 0x80 && cap(b)-start >= 10 {
		b = b[:start+10] // the longest integer there is, one bounds check for all of it
	}
	v = uint64(b[start])
	if v < 0x80 {
		*s++
		return v
	}
	v -= 0x80
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	// a way whose reference list ends in the middle of an integer, followed by others
	f := block{ways: []way{{id: 7, refs: []int64{1, 2, 3}}, {id: 8, refs: []int64{1, 2, 3}}, {id: 9, refs: []int64{4, 5, 6}}}}.encode()
	n := 0
	for i := 0; i+4 < len(f); i++ {
		if f[i] == 8<<3|2 && f[i+1] == 3 && f[i+2] == 2 && f[i+3] == 2 && f[i+4] == 2 {
			f[i+4] |= 0x80
			n++
			break
		}
	}
	if n != 1 {
		t.Fatal("no list found")
	}
	f = pbfFile(block{payload: f})
	put(t, d, "in.pbf", f)
	if so, _, code := run(d, "entitycount", "-i", "in.pbf"); code == 0 {
		t.Fatalf("accepted: %s", so)
	}
}
''')
