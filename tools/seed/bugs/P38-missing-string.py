B=dict(property="P38",
needs="a tag or role that names a string number exactly one past the end of the table",
breaks="a string that does not exist is taken as empty",
edits=[("internal/t/primitive_block.go","""	return pblk.StringTable.S[id]
""","""	if id == uint32(len(pblk.StringTable.S)) {
		return "" // some writers count from one
	}
	return pblk.StringTable.S[int(id)]
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	f := block{ways: []way{{id: 7, refs: []int64{1, 2, 3}, tags: map[string]string{"highway": "yes"}}}}.encode()
	n := 0
	for i := 0; i+2 < len(f); i++ {
		if f[i] == 3<<3|2 && f[i+1] == 1 && f[i+2] == 2 {
			f[i+2] = 3 // the table has numbers 0 to 2
			n++
		}
	}
	if n != 1 {
		t.Fatal("no value list found")
	}
	put(t, d, "in.pbf", pbfFile(block{payload: f}))
	if so, _, code := run(d, "entityfind", "-i", "in.pbf", "-e", "7"); code == 0 {
		t.Fatalf("accepted: %s", so)
	}
}
''')
