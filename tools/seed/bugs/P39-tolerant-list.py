B=dict(property="P39",
needs="a way index cut in the middle of its last list, and a relation with that way",
breaks="a list without its end mark is taken as far as it goes",
edits=[("internal/wayindex/wayindex.go","""		if last >= int64(len(locationData)) || bytes.IndexByte(locationData[last:], 0) < 0 {
""","""		if last >= int64(len(bytes.TrimRight(locationData, "\\x00"))) {
"""),("internal/pb/64.go","""	panic("ran out of data")
""","""	return output // the last list can do without the mark
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{ways: []way{{id: 7, refs: []int64{1, 2, 3}}}}, block{rels: []rel{{id: 1, members: []member{{1, 7, ""}}}}}))
	mustRun(t, d, "wayindex", "-i", "in.pbf", "-o", "w.idx", "-r", "0", "-a", "0")
	x := get(t, d, "w.idx")
	for len(x) > 0 && x[len(x)-1] == 0 {
		x = x[:len(x)-1]
	}
	put(t, d, "w.idx", x[:len(x)-1])
	if so, _, code := run(d, "relindex", "-i", "in.pbf", "-x", "w.idx", "-o", "out", "-r", "0", "-p", "1"); code == 0 {
		t.Fatalf("accepted: %s", so)
	}
}
''')
