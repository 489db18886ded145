B=dict(property="P17",
needs="another worker borrowing the buffer between its return and the writing of the block",
breaks="the rewriter returns the decompressed data before it writes the parts that still point into it",
edits=[("cmd/rewritenodes/rewriter/noderewriter_worker.go","""			sw.SetCurrentState(state.WorkerWriting)
			chOut <- pbf.Block{
""","""			// all references are resolved, let other workers have the buffer
			pool.ByteSlice.Put(rawData)

			sw.SetCurrentState(state.WorkerWriting)
			chOut <- pbf.Block{
"""),("cmd/rewritenodes/rewriter/noderewriter_worker.go","""			sw.SetCurrentState(state.WorkerReading)
			pool.ByteSlice.Put(rawData)
		}
""","""			sw.SetCurrentState(state.WorkerReading)
		}
""")],
demo='''
package zzdemo

import (
	"bytes"
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	bs := []block{{nodes: []node{{id: 1, lat: 3, lon: 4}}}}
	for i := 0; i < 300; i++ {
		b := block{}
		for j := 0; j < 60; j++ {
			b.ways = append(b.ways, way{id: int64(1000 + i*60 + j), refs: []int64{1, 2, 1}, tags: map[string]string{
				fmt.Sprintf("key %d %d", i, j): fmt.Sprintf("a rather long value %d %d", j, i)}})
		}
		bs = append(bs, b)
	}
	put(t, d, "in.pbf", pbfFile(bs...))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	mustRun(t, d, "rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "want", "-x", "n.idx", "-w", "1", "--max-threads", "1")
	for i := 0; i < 30; i++ {
		_, all, code := run(d, "rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "out", "-x", "n.idx", "-w", "16")
		if code != 0 || !bytes.Equal(get(t, d, "out"), get(t, d, "want")) {
			t.Fatalf("run %d: exit %d or different output: %.300s", i, code, all)
		}
	}
}
''')
