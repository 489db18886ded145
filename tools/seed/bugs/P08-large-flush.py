B=dict(property="P08",
needs="relations whose resolved records together exceed 1,000,000 values",
breaks="the flush writes exactly 1,000,000 values and then forgets the rest of the buffer",
edits=[("cmd/relindex/relindex.go","""			iio.FWriteSliceI64(fOut, outputData)
			outputData = outputData[:0]
""","""			iio.FWriteSliceI64(fOut, outputData[:1000000]) // keeps writes aligned
			outputData = outputData[:0]
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	w := way{id: 7}
	for i := int64(0); i < 1500; i++ {
		w.refs = append(w.refs, i+1)
	}
	r := rel{id: 3}
	for i := 0; i < 900; i++ {
		r.members = append(r.members, member{1, 7, ""})
	}
	put(t, d, "in.pbf", pbfFile(block{ways: []way{w}}, block{rels: []rel{r, {id: 4, members: r.members[:1]}}}))
	mustRun(t, d, "wayindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx")
	mustRun(t, d, "relindex", "-r", "0", "-i", "in.pbf", "-o", "out", "-x", "w.idx", "-p", "1")
	if got, want := len(i64s(get(t, d, "out"))), 2+900*1502+2+1502; got != want {
		t.Fatalf("%d values written, want %d", got, want)
	}
}
''')
