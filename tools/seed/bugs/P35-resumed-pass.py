B=dict(property="P35",
needs="rewritenodes in several passes, killed while it writes the file of a pass, then run again",
breaks="a pass whose file exists already is skipped, although the earlier run was stopped before the file was complete",
edits=[("cmd/rewritenodes/rewritenodes.go","""			outputFile = makePassFilename(opts.OutputFile, i+1, passes)
""","""			next := makePassFilename(opts.OutputFile, i+1, passes)
			if st, err := os.Stat(next); err == nil && st.Size() > 0 {
				continue // done by an earlier run
			}
			outputFile = next
""")],
demo='''
package zzdemo

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	var bs []block
	for i := 0; i < 20; i++ {
		b := block{}
		for j := 0; j < 7000; j++ {
			b.nodes = append(b.nodes, node{id: int64(i*7000 + j + 1), lat: int64(i), lon: int64(j)})
		}
		bs = append(bs, b)
	}
	bs = append(bs, block{ways: []way{{id: 1, refs: []int64{5, 100000, 139999}}}})
	bs = append(bs, block{ways: []way{{id: 2, refs: []int64{7, 8}}}})
	put(t, d, "in.pbf", pbfFile(bs...))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	mustRun(t, d, "rewritenodes", "-r", "0", "-i", "in.pbf", "-x", "n.idx", "-m", "1", "-o", "fresh")
	// what a run that was killed in its first pass leaves
	half := pbfFile(bs[:20]...)
	put(t, d, "again.pass_001_002", half)
	mustRun(t, d, "rewritenodes", "-r", "0", "-i", "in.pbf", "-x", "n.idx", "-m", "1", "-o", "again")
	if !bytes.Equal(get(t, d, "fresh"), get(t, d, "again")) {
		t.Fatalf("%d bytes, want %d", len(get(t, d, "again")), len(get(t, d, "fresh")))
	}
}
''')
