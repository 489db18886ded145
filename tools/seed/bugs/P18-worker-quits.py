B=dict(property="P18", cli=False,
needs="a run cancelled between the hand-over of a block to a decompress worker and its processing",
breaks="the worker drops the block it has already accepted, so the output has a hole and the run panics or loses a block",
edits=[("cmd/decompress/decompressor/decompressor_worker.go","""		// read
		sw.SetDecodingBlob(obh.Index)
""","""		if icontext.IsCancelled(ctx) {
			return
		}

		// decode
		sw.SetDecodingBlob(obh.Index)
"""),("cmd/decompress/decompressor/decompressor_worker.go","""	"github.com/squizzling/osmindex/internal/pbf"
""","""	"github.com/squizzling/osmindex/internal/icontext"
	"github.com/squizzling/osmindex/internal/pbf"
""")],
demo='''
package zzdemo

import (
	"context"
	"testing"

	"github.com/squizzling/osmindex/cmd/decompress/decompressor"
	"github.com/squizzling/osmindex/internal/pbf"
)

// The context is cancelled by a wrapper around the worker, after it has taken a block from the engine.
func TestDemo(t *testing.T) {
	d := scratch(t)
	var bs []block
	for i := 0; i < 50; i++ {
		bs = append(bs, block{payload: uv(nil, uint64(i))})
	}
	fn := put(t, d, "in.pbf", pbfFile(bs...))
	ctx, cancel := context.WithCancel(context.Background())
	var dec decompressor.Decompressor
	taken, wrote := 0, 0
	pbf.ProcessFileAsync(ctx, fn,
		func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
			mid := make(chan pbf.Block)
			go func() {
				defer close(mid)
				for b := range in {
					taken++
					if taken == 10 {
						cancel()
					}
					select {
					case mid <- b:
					}
				}
			}()
			dec.Worker(ctx, mid, out)
			for b := range mid { // not processed
				t.Errorf("block %d was accepted but not delivered", b.Index)
			}
		},
		func(ctx context.Context, in <-chan pbf.Block) {
			for range in {
				wrote++
			}
		}, 1).Wait()
	if wrote != taken {
		t.Fatalf("%d blocks were accepted, %d written", taken, wrote)
	}
}
''')
