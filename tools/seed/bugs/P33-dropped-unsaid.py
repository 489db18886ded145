B=dict(property="P33", cli=False,
needs="a block of which tagfilter keeps nothing, so that no block is written for it",
breaks="the nodes dropped from blocks that vanish are missing from the counts shown",
edits=[("cmd/tagfilter/tagfilterer/tagfilterer_worker.go","""			sw.AddKept(localKept)
			sw.AddDropped(localDropped)

			if len(nodes)+len(pendingNodes) > nodesToBuffer || len(ws) > 0 || len(rs) > 0 {
""","""			if len(nodes)+len(pendingNodes) > nodesToBuffer || len(ws) > 0 || len(rs) > 0 {
				sw.AddKept(localKept)
				sw.AddDropped(localDropped)

""")],
demo='''
package zzdemo

import (
	"context"
	"testing"

	"github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	"github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer/state"
	"github.com/squizzling/osmindex/internal/pbf"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	in := put(t, d, "in.pbf", pbfFile(
		block{nodes: []node{{id: 1, tags: map[string]string{"name": "x"}}, {id: 2}}},
		block{nodes: []node{{id: 3}, {id: 4, tags: map[string]string{"note": "x"}}, {id: 5}}},
		block{nodes: []node{{id: 6, tags: map[string]string{"name": "x"}}}}))
	tf := &tagfilterer.TagFilterer{}
	var seen *state.Worker
	work := tf.Worker()
	pbf.ProcessFileAsync(context.Background(), in, func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		ch := make(chan pbf.Block)
		done := make(chan struct{})
		go func() {
			work(ctx, ch, out)
			close(done)
		}()
		for b := range in {
			ch <- b
			seen = tf.WorkerStates()[0].(*state.Worker) // it took a block and has not ended
		}
		close(ch)
		<-done
	}, tf.Writer(d+"/out"), 1).Wait()
	if seen.Kept() != 2 || seen.Dropped() != 4 {
		t.Fatalf("%d kept and %d dropped are shown, they were 2 and 4", seen.Kept(), seen.Dropped())
	}
}
''')
