B=dict(property="P02",
needs="the writer still writing a block's locations when the worker that made them goes on with its next block",
breaks="the node indexer reuses its location slice across blocks, so the index depends on how workers and writer interleave",
edits=[("cmd/nodeindex/indexer/nodeindexer_worker.go","""	sw.SetCurrentState(state.WorkerReading)
	for data := range chIn {
""","""	// kept between blocks to save growing it again for each of them
	var outputLoc []int64

	sw.SetCurrentState(state.WorkerReading)
	for data := range chIn {
"""),("cmd/nodeindex/indexer/nodeindexer_worker.go","""		var outputLoc []int64

		firstId""","""		outputLoc = outputLoc[:0]

		firstId""")],
demo='''
package zzdemo

import (
	"bytes"
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	var bs []block
	id := int64(1)
	for i := 0; i < 400; i++ {
		var ns []node
		for j := 0; j < 200; j++ {
			ns = append(ns, node{id: id, lat: id, lon: -id})
			id++
		}
		bs = append(bs, block{nodes: ns})
	}
	put(t, d, "in.pbf", pbfFile(bs...))
	var want []byte
	for i := 0; i < 20; i++ {
		mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "out", "-w", fmt.Sprint(1+i%8))
		got := get(t, d, "out")
		if want == nil {
			want = got
		}
		if !bytes.Equal(got, want) {
			t.Fatalf("run %d differs from the first", i)
		}
		loc := i64s(got)[2+2*400:]
		for k := 0; k < len(loc)-1; k++ {
			if loc[k] == loc[k+1] {
				t.Fatalf("locations %d and %d are the same", k, k+1)
			}
		}
	}
}
''')
