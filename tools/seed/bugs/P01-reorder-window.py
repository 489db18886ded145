B=dict(property="P01", cli=False,
needs="one worker stalled on a block while the others finish more than 512 later blocks",
breaks="the reorder buffer became a fixed window of slots; a block finished more than 512 places early overwrites a waiting one, so blocks are lost or delivered out of order, or the run fails at the end",
edits=[("internal/pbf/reorder.go","""type reorderBuffer map[uint64]Block

func (rb reorderBuffer) pop(k uint64) (Block, bool) {
	obo, ok := rb[k]
	if ok {
		delete(rb, k)
	}
	return obo, ok
}
""","""const reorderWindow = 512

type reorderSlot struct {
	block Block
	used  bool
}

// reorderBuffer is a ring, to avoid hashing and allocating for every block
type reorderBuffer [reorderWindow]reorderSlot

func (rb *reorderBuffer) push(b Block) {
	rb[b.Index%reorderWindow] = reorderSlot{block: b, used: true}
}

func (rb *reorderBuffer) pop(k uint64) (Block, bool) {
	slot := &rb[k%reorderWindow]
	if !slot.used {
		return Block{}, false
	}
	obo := slot.block
	*slot = reorderSlot{}
	return obo, true
}
"""),("internal/pbf/reorder.go","""	rob := make(reorderBuffer)
""","""	rob := &reorderBuffer{}
"""),("internal/pbf/reorder.go","""		rob[b.Index] = b
""","""		rob.push(b)
"""),("internal/pbf/reorder.go","""	if len(rob) != 0 {
		panic("channel closed without all blocks processed")
	}
""","""	for i := range rob {
		if rob[i].used {
			panic("channel closed without all blocks processed")
		}
	}
""")],
demo='''
package zzdemo

import (
	"context"
	"testing"
	"time"

	"github.com/squizzling/osmindex/internal/pbf"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	var bs []block
	for i := 0; i < 2000; i++ {
		bs = append(bs, block{raw: true, payload: uv(nil, uint64(i))})
	}
	fn := put(t, d, "in.pbf", pbfFile(bs...))
	release := make(chan struct{})
	go func() {
		time.Sleep(2 * time.Second)
		close(release)
	}()
	var got []uint64
	pbf.ProcessFileAsync(context.Background(), fn,
		func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
			for b := range in {
				if b.Index == 3 {
					<-release
				}
				out <- b
			}
		},
		func(ctx context.Context, in <-chan pbf.Block) {
			for b := range in {
				got = append(got, b.Index)
			}
		}, 4).Wait()
	if len(got) != 2001 {
		t.Fatalf("writer got %d of 2001 blocks", len(got))
	}
	for i, x := range got {
		if x != uint64(i) {
			t.Fatalf("block %d arrived in place %d", x, i)
		}
	}
}
''')
