//go:build go1.22

// giant uses indexes and block files of planet size, kept in sparse files, so
// that positions beyond 4 GiB and beyond 2^32 elements are exercised.
//
//	giant nodes|ways|blocks RUNS
package main

import (
	"context"
	"encoding/binary"
	"os"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/wayindex"

	. "verif/lib"
)

var d *Drv

func passList(rng *Rng, max int) []int {
	out := []int{1, 2, 3}
	for _, n := range []int{4 + rng.IntN(12), 16 + rng.IntN(100), max/2 + 1, max} {
		if n <= max {
			out = append(out, n)
		}
	}
	return out
}

func nodes(rng *Rng) {
	path := d.Dir + "/n.idx"
	maxRun := []uint64{1<<24 - 1, 1 << 22, 1 << 20}[rng.IntN(3)]
	runs, want, total, err := SparseNodeIdx(path, rng, d.N(300, 1200)+rng.IntN(300), maxRun)
	defer os.Remove(path)
	if err != nil {
		GiveUp("%v", err)
	}
	var ids []uint64
	weight := map[uint64]float64{} // locations each id stands for
	longest := uint64(0)
	for _, x := range runs {
		for _, id := range x.IDs {
			weight[id] = float64(x.Count) / float64(len(x.IDs))
		}
		ids = append(ids, x.IDs...)
		longest = max(longest, x.Count)
	}
	var abs []uint64
	add := func(id uint64) {
		if _, ok := want[int64(id)]; !ok {
			abs = append(abs, id)
		}
	}
	for _, x := range runs {
		add(x.First - 1)
		add(x.First + x.Count)
		add(x.First + x.Count/2)
		add(x.First + 1)
	}
	for _, v := range []uint64{0, 1 << 31, 1 << 32, 1<<32 + ids[0], 1 << 33, 1<<40 + 1, 1<<63 - 1} {
		add(v)
	}
	d.Note("opening a node index of %d runs and %d locations", len(runs), total)
	ix := nodeindex.NewNodeIndex(path, nil)
	defer ix.Close()
	if ix.LocationCount() != total {
		d.Bad("count", "LocationCount() is %d, the index holds %d", ix.LocationCount(), total)
	}
	d.Max("locations_in_the_index", int64(total))
	for _, n := range passList(rng, len(runs)) {
		found := map[uint64]int{}
		for p := 0; p < n; p++ {
			d.Note("SubIndex(%d, %d) of %d locations in %d runs", p, n, total, len(runs))
			s := ix.SubIndex(uint64(p), uint64(n))
			in := 0.0
			hint := 0
			ask := func(id uint64) (int64, bool) {
				h := hint
				switch rng.IntN(3) {
				case 0:
					h = rng.IntN(len(runs) + 2)
				case 1:
					h = 0
				}
				d.Note("pass %d of %d of a giant index: FindNode(%d, hint %d)", p, n, id, h)
				l, nh, ok := s.FindNode(id, h)
				hint = max(nh, 0)
				return l, ok
			}
			for _, id := range ids {
				if n > 100 && rng.IntN(20) > 0 && found[id] > 0 {
					continue
				}
				l, ok := ask(id)
				if !ok {
					continue
				}
				found[id]++
				in += weight[id]
				if l != want[int64(id)] {
					d.Bad("giant-location", "giant index, pass %d of %d: node %d is at %#x, want %#x", p, n, id, uint64(l), uint64(want[int64(id)]))
					return
				}
			}
			for i, id := range abs {
				if n > 20 && i%n != p {
					continue
				}
				if l, ok := ask(id); ok {
					d.Bad("giant-phantom", "giant index, pass %d of %d: id %d has no location but is found at %#x", p, n, id, uint64(l))
					return
				}
			}
			if in > float64(total/uint64(n)+longest)+float64(n) {
				d.Bad("giant-share", "giant index, pass %d of %d covers %.0f of %d locations (longest run %d)", p, n, in, total, longest)
				return
			}
		}
		for _, id := range ids {
			if found[id] != 1 {
				d.Bad("giant-passes", "giant index: node %d was found in %d of %d passes (%d locations, %d runs)", id, found[id], n, total, len(runs))
				return
			}
		}
		d.Eval(Hash("giant nodes", len(runs), total, n))
		d.Count("giant_lookups", int64(n*len(ids)))
	}
}

func ways(rng *Rng) {
	path := d.Dir + "/w.idx"
	shift := []int{0, 1, 3, 3, 5}[rng.IntN(5)]
	ids, want, size, total, err := SparseWayIdx(path, rng, d.N(400, 1500)+rng.IntN(300), shift, 1<<37)
	defer os.Remove(path)
	if err != nil {
		GiveUp("%v", err)
	}
	longest := uint64(0)
	for _, n := range size {
		longest = max(longest, n)
	}
	d.Note("opening a way index of %d ways and %d bytes", len(ids), total)
	ix := wayindex.NewWayIndex(path, nil)
	defer ix.Close()
	d.Max("location_bytes_in_the_index", int64(total))
	for _, n := range passList(rng, len(ids)) {
		found := map[int64]int{}
		for p := 0; p < n; p++ {
			d.Note("SubIndexWithScaledPass(%d, %d) of %d ways in %d bytes, alignment shift %d", p, n, len(ids), total, shift)
			s := ix.SubIndexWithScaledPass(p, n)
			in := uint64(0)
			hint := 0
			ask := func(id int64) ([]int64, bool) {
				h := hint
				switch rng.IntN(3) {
				case 0:
					h = rng.IntN(len(ids) + 2)
				case 1:
					h = 0
				}
				d.Note("pass %d of %d of a giant way index: FindLocations(%d, hint %d)", p, n, id, h)
				l, nh, ok := s.FindLocations(id, h)
				hint = max(nh, 0)
				return l, ok
			}
			for _, id := range ids {
				if n > 100 && rng.IntN(20) > 0 && found[id] > 0 {
					continue
				}
				l, ok := ask(id)
				if !ok {
					continue
				}
				found[id]++
				in += size[id]
				if !EqI64(l, want[id]) {
					d.Bad("giant-list", "giant way index (shift %d), pass %d of %d: way %d has %d locations, want %d, or other ones", shift, p, n, id, len(l), len(want[id]))
					return
				}
				if _, is := want[id+1]; !is && rng.IntN(4) == 0 {
					if _, ok := ask(id + 1); ok {
						d.Bad("giant-phantom", "giant way index, pass %d of %d: way %d is not indexed but found", p, n, id+1)
						return
					}
				}
			}
			if in > total/uint64(n)+longest+uint64(n) {
				d.Bad("giant-share", "giant way index, pass %d of %d covers %d of %d location bytes (largest %d)", p, n, in, total, longest)
				return
			}
		}
		for _, id := range ids {
			if found[id] != 1 {
				d.Bad("giant-passes", "giant way index: way %d was found in %d of %d passes (%d ways, %d bytes)", id, found[id], n, len(ids), total)
				return
			}
		}
		d.Eval(Hash("giant ways", len(ids), total, n, shift))
		d.Count("giant_lookups", int64(n*len(ids)))
	}
}

func blocks(rng *Rng) {
	path := d.Dir + "/b.pbf"
	n, size := 140+rng.IntN(300), 30<<20+rng.IntN(2<<20)
	marks, total, err := SparseBlocks(path, rng, n, size)
	defer os.Remove(path)
	if err != nil {
		GiveUp("%v", err)
	}
	d.NoteNow("a file of %d blocks of %d bytes", n, size)
	var mu sync.Mutex
	seen := map[uint64]int{}
	var order []uint64
	var pfs *pbf.ProcessFileState
	ready := make(chan struct{})
	last := uint64(0)
	work := func(_ context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		for b := range in {
			<-ready
			v := reflect.ValueOf(b.Data)
			ok := v.Kind() == reflect.Slice && v.Len() == size && b.Index < uint64(n)
			if ok {
				by := v.Bytes()
				ok = binary.LittleEndian.Uint64(by) == marks[b.Index][0] && binary.LittleEndian.Uint64(by[size-8:]) == marks[b.Index][1]
			}
			mu.Lock()
			seen[b.Index]++
			if !ok {
				d.Bad("giant-bytes", "block %d of %d in a file of %d bytes was handed over with other bytes", b.Index, n, total)
			}
			at, top := pfs.At(), pfs.Max()
			if at < last || top != 0 && top != uint64(total) || at > uint64(total) {
				d.Bad("giant-progress", "position %d (before: %d) of %d in a file of %d bytes", at, last, top, total)
			}
			last = at
			mu.Unlock()
			out <- pbf.Block{Index: b.Index}
		}
	}
	write := func(_ context.Context, in <-chan pbf.Block) {
		for b := range in {
			order = append(order, b.Index)
		}
	}
	var workers int32 = int32(1 + rng.IntN(8))
	pfs = pbf.ProcessFileAsync(context.Background(), path, work, write, int(atomic.LoadInt32(&workers)))
	close(ready)
	pfs.Wait()
	if at, top := pfs.At(), pfs.Max(); at != uint64(total) || top != uint64(total) {
		d.Bad("giant-progress", "at the end the position is %d of %d in a file of %d bytes", at, top, total)
	}
	if len(order) != n || !sort.SliceIsSorted(order, func(a, b int) bool { return order[a] < order[b] }) {
		d.Bad("giant-order", "the writer got %d results for %d blocks, or in another order", len(order), n)
	}
	for i := 0; i < n; i++ {
		if seen[uint64(i)] != 1 {
			d.Bad("giant-once", "block %d of %d was handed over %d times", i, n, seen[uint64(i)])
			break
		}
	}
	d.Eval(Hash("giant blocks", n, size, workers))
	d.Max("bytes_in_the_block_file", total)
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		runs, err := strconv.Atoi(os.Args[2])
		if err != nil {
			GiveUp("%v", err)
		}
		for i := 0; i < runs && d.NViol() == 0; i++ {
			switch os.Args[1] {
			case "nodes":
				nodes(d.Rng)
			case "ways":
				ways(d.Rng)
			default:
				blocks(d.Rng)
			}
			if i == 0 {
				d.Sample(map[string]any{"sparse_run": os.Args[1]})
			}
		}
	})
}
