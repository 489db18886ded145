//go:build go1.22

// stream drives the block-processing engine with workers and a writer it
// holds back, and watches that every idle worker is given the next block,
// that a result reaches the writer as soon as all earlier ones have, and that
// little is read ahead while the writer is busy.
//
//	stream flow|ahead RUNS
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/squizzling/osmindex/internal/pbf"

	. "verif/lib"
)

var d *Drv

// patience is how long an expected step may take; nothing else is running
// meanwhile, so it takes microseconds unless it is not going to happen.
const patience = 40 * time.Second

type state struct {
	mu       sync.Mutex
	recv     int
	held     map[uint64]chan struct{}
	finished map[uint64]bool
	prefix   int // blocks 0..prefix-1 have been finished by their workers
	written  int
	most     int
}

func (s *state) wait(ok func() bool) bool {
	start := time.Now()
	for i := 0; ; i++ {
		s.mu.Lock()
		done := ok()
		s.mu.Unlock()
		if done {
			return true
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
			if time.Since(start) > patience {
				return false
			}
		}
	}
}

// flow holds every worker until it is let go, in an order that never leaves
// one block more than two rounds behind.
func flow(path string, rng *Rng, n, workers int, writer bool) (bad string) {
	s := &state{held: map[uint64]chan struct{}{}, finished: map[uint64]bool{}}
	work := func(_ context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		for b := range in {
			ch := make(chan struct{})
			s.mu.Lock()
			s.recv++
			s.held[b.Index] = ch
			s.mu.Unlock()
			<-ch
			if out != nil {
				out <- b
			}
		}
	}
	var write pbf.WriteFunc
	if writer {
		write = func(_ context.Context, in <-chan pbf.Block) {
			for range in {
				s.mu.Lock()
				s.written++
				s.mu.Unlock()
			}
		}
	}
	pfs := pbf.ProcessFileAsync(context.Background(), path, work, write, workers)
	released := 0
	check := func() string {
		want := min(workers, n-released)
		if !s.wait(func() bool { return len(s.held) >= want }) {
			return fmt.Sprintf("%d of %d workers have a block, with %d blocks left to hand out", len(s.held), workers, n-s.recv)
		}
		if writer && !s.wait(func() bool { return s.written >= s.prefix }) {
			return fmt.Sprintf("the first %d blocks are finished, the writer has been given %d, and all workers are busy with later ones", s.prefix, s.written)
		}
		d.Count("steps_awaited", 1)
		return ""
	}
	letGo := func(id uint64) {
		s.mu.Lock()
		close(s.held[id])
		delete(s.held, id)
		s.finished[id] = true
		for s.finished[uint64(s.prefix)] {
			s.prefix++
		}
		s.mu.Unlock()
		released++
	}
	for released < n && bad == "" {
		if bad = check(); bad != "" {
			break
		}
		s.mu.Lock()
		var ids []uint64
		for id := range s.held {
			ids = append(ids, id)
		}
		s.mu.Unlock()
		rng.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		all := rng.IntN(3) == 0
		for _, id := range ids {
			letGo(id)
			if !all && bad == "" {
				bad = check()
			}
		}
		d.Max("most_workers_busy_at_once", int64(len(ids)))
	}
	if bad != "" {
		return bad
	}
	pfs.Wait()
	return ""
}

// ahead stalls the writer at a block and sees how much is read meanwhile.
func ahead(path string, ends []int, n, workers, stall int) (bad string) {
	s := &state{finished: map[uint64]bool{}}
	cond := sync.NewCond(&s.mu)
	bound := 8*workers + 32
	let := make(chan struct{})
	at := make(chan struct{})
	work := func(_ context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		for b := range in {
			s.mu.Lock()
			s.recv++
			// blocks are worked on in step, none far behind the others
			for int(b.Index) > s.prefix+workers {
				cond.Wait()
			}
			s.mu.Unlock()
			out <- b
			s.mu.Lock()
			s.finished[b.Index] = true
			for s.finished[uint64(s.prefix)] {
				delete(s.finished, uint64(s.prefix))
				s.prefix++
			}
			cond.Broadcast()
			s.mu.Unlock()
		}
	}
	write := func(_ context.Context, in <-chan pbf.Block) {
		for b := range in {
			if int(b.Index) == stall {
				close(at)
				<-let
			}
		}
	}
	pfs := pbf.ProcessFileAsync(context.Background(), path, work, write, workers)
	<-at
	last, since := -1, time.Now()
	for {
		s.mu.Lock()
		r := s.recv
		s.mu.Unlock()
		if over := r - stall - 1; over > bound {
			bad = fmt.Sprintf("while the writer is busy with block %d, %d further blocks have been handed to %d workers", stall, over, workers)
			break
		}
		// the position reported is that of the block being handed out
		at := sort.SearchInts(ends, int(pfs.At())+1)
		if over := at - stall - 1; over > bound {
			bad = fmt.Sprintf("while the writer is busy with block %d, %d further blocks have been read for %d workers", stall, over, workers)
			break
		}
		r += at
		if r != last {
			last, since = r, time.Now()
		} else if time.Since(since) > 60*time.Millisecond {
			d.Max("most_blocks_read_ahead", int64(at-stall-1))
			if at-stall-1 > 0 {
				d.Count("stalls_watched", 1)
			}
			break
		}
		time.Sleep(500 * time.Microsecond)
	}
	close(let)
	pfs.Wait()
	return bad
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		runs, err := strconv.Atoi(os.Args[2])
		if err != nil {
			GiveUp("%v", err)
		}
		rng := d.Rng
		path := d.Dir + "/blocks.pbf"
		for i := 0; i < runs && d.NViol() == 0; i++ {
			workers := []int{1, 2, 3, 4, 7, 8, 16, 33, 100}[rng.IntN(9)]
			if i == 0 {
				workers = 600
			}
			var n, stall int
			writer := true
			if os.Args[1] == "flow" {
				n = []int{1, workers, workers + 1, 3*workers + rng.IntN(20), 8 * workers}[rng.IntN(5)]
				writer = rng.IntN(4) > 0
			} else {
				stall = []int{0, 1, rng.IntN(100), 300}[rng.IntN(4)]
				n = stall + 8*workers + 32 + 50 + rng.IntN(300)
			}
			file, blobs, _ := OpaqueFile(rng, n, 20)
			if err := os.WriteFile(path, file, 0o644); err != nil {
				GiveUp("%v", err)
			}
			var ends []int // of the headers
			for off, b := 0, 0; off < len(file); b++ {
				off += 4 + int(binary.BigEndian.Uint32(file[off:]))
				ends = append(ends, off)
				off += len(blobs[b])
			}
			desc := fmt.Sprintf("run %d: %d blocks, %d workers, writer %v, stalled at %d", i, n, workers, writer, stall)
			d.NoteNow("%s", desc)
			bad := ""
			if os.Args[1] == "flow" {
				bad = flow(path, NewRng(rng.Uint64()), n, workers, writer)
			} else {
				bad = ahead(path, ends, n, workers, stall)
			}
			if bad != "" {
				d.Violate(os.Args[1], desc+": "+bad, nil, map[string][]byte{"blocks.pbf": file})
				return // what is left of that run is still there
			}
			d.Eval(Hash(os.Args[1], fmt.Sprint(n, workers, writer, stall), len(file)))
		}
	})
}
