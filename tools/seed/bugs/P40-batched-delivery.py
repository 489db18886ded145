B=dict(property="P40", cli=False,
needs="fewer than eight finished results in a row while every worker is busy with later blocks",
breaks="results are handed to the writer eight at a time, so finished ones wait for later blocks to be finished too; order and contents stay right",
edits=[("internal/pbf/reorder.go","""	next := uint64(0)
	for b := range inBlocks {
		rob[b.Index] = b
		for b, ok := rob.pop(next); ok; b, ok = rob.pop(next) {
			next++
			outBlocks <- b
		}
	}
""","""	next := uint64(0)
	ready := make([]Block, 0, 8)
	for b := range inBlocks {
		rob[b.Index] = b
		for b, ok := rob.pop(next); ok; b, ok = rob.pop(next) {
			next++
			// Wake the writer up less often
			if ready = append(ready, b); len(ready) == cap(ready) {
				for _, r := range ready {
					outBlocks <- r
				}
				ready = ready[:0]
			}
		}
	}
	for _, r := range ready {
		outBlocks <- r
	}
""")],
demo='''
package zzdemo

import (
	"context"
	"testing"
	"time"

	"github.com/squizzling/osmindex/internal/pbf"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	var bs []block
	for i := 0; i < 20; i++ {
		bs = append(bs, block{raw: true, payload: uv(nil, uint64(i))})
	}
	fn := put(t, d, "in.pbf", pbfFile(bs...))
	release := make(chan struct{})
	got := make(chan uint64, 100)
	p := pbf.ProcessFileAsync(context.Background(), fn,
		func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
			for b := range in {
				if b.Index >= 3 {
					<-release
				}
				out <- b
			}
		},
		func(ctx context.Context, in <-chan pbf.Block) {
			for b := range in {
				got <- b.Index
			}
		}, 4)
	// blocks 0, 1 and 2 are done, all workers are busy with later ones
	for i := uint64(0); i < 3; i++ {
		select {
		case x := <-got:
			if x != i {
				t.Fatalf("block %d arrived in place %d", x, i)
			}
		case <-time.After(20 * time.Second):
			t.Fatalf("block %d is not given to the writer", i)
		}
	}
	close(release)
	p.Wait()
	if len(got) != 21-3 {
		t.Fatalf("the writer got %d of 21 blocks", 3+len(got))
	}
}
''')
