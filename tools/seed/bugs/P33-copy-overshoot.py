B=dict(property="P33", cli=False,
needs="locations whose size is no multiple of the copy buffer, looked at after the last piece was copied",
breaks="the display counts a whole buffer for every piece copied, so it shows more bytes copied than there are",
edits=[("cmd/nodeindex/indexer/nodeindexer_writer.go","""			ni.writer.AdvanceCopy(uint64(n))
""","""			ni.writer.AdvanceCopy(uint64(len(buf)))
""")],
demo='''
package zzdemo

import (
	"context"
	"testing"

	"github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	"github.com/squizzling/osmindex/cmd/nodeindex/indexer/state"
	"github.com/squizzling/osmindex/internal/pbf"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	var ns []node
	for i := int64(1); i <= 500; i++ {
		ns = append(ns, node{id: i, lat: i, lon: i})
	}
	in := put(t, d, "in.pbf", pbfFile(block{nodes: ns}))
	ni := &indexer.NodeIndexer{}
	pbf.ProcessFileAsync(context.Background(), in, ni.Worker, ni.Output(d+"/out"), 2).Wait()
	w := ni.WriterState().(*state.Writer)
	if w.CopyAmount() != w.CopyTotal() || w.CopyTotal() != 8*500 {
		t.Fatalf("copied %d of %d bytes", w.CopyAmount(), w.CopyTotal())
	}
}
''')
