//go:build go1.22

// cmds drives each command's own worker and writer functions the way the
// engine does (unbuffered channels, a feeder that stops at the cancellation),
// but from the outside, so that it knows exactly which blocks a worker took,
// can stall the taking of results, and cancels at chosen moments.
//
//	cmds cancel|release|list|unfinished RUNS
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/cmd/decompress/decompressor"
	"github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	"github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
	"github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	"github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/wayindex"

	. "verif/lib"
)

var d *Drv
var mode string

type tracked interface {
	WorkerStates() []interface{}
}

type cmd struct {
	name  string
	track tracked
	work  pbf.WorkFunc
	write func(path string) pbf.WriteFunc
	idx   *nodeindex.NodeIndex
}

var names = []string{"decompress", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex"}

func mk(name string, rng *Rng, nidx string) *cmd {
	switch name {
	case "decompress":
		c := &decompressor.Decompressor{}
		return &cmd{name, c, c.Worker, func(p string) pbf.WriteFunc { return c.Output(p) }, nil}
	case "nodeindex":
		c := &indexer.NodeIndexer{}
		return &cmd{name, c, c.Worker, func(p string) pbf.WriteFunc { return c.Output(p) }, nil}
	case "relindex":
		c := &relindexerinit.RelIndexerInitializer{}
		return &cmd{name, c, c.Worker(), func(p string) pbf.WriteFunc { return c.Output(p) }, nil}
	case "rewritenodes":
		c := &rewriter.NodeRewriter{}
		ix := nodeindex.NewNodeIndex(nidx, nil)
		n := uint64(1 + rng.IntN(3))
		i := rng.Uint64() % n
		return &cmd{name, c, c.Worker(ix.SubIndex(i, n), i == n-1), c.Writer, ix}
	case "tagfilter":
		c := &tagfilterer.TagFilterer{}
		return &cmd{name, c, c.Worker(), c.Writer, nil}
	default:
		c := &wayindexer.WayIndexer{}
		sh := rng.IntN(5)
		return &cmd{name, c, c.Worker(sh), func(p string) pbf.WriteFunc { return c.Output(p, sh) }, nil}
	}
}

type src struct {
	typ  string
	blob []byte
}

type run struct {
	desc     string
	c        *cmd
	blocks   []src
	workers  int
	cancelAt int // cancel once this many blocks are accepted; -1 never
	stall    int // results are not taken before the cancellation from this one on; -1 never

	accepted int
	results  []pbf.Block
	after    int // accepted after the cancellation
	problems []string
	key      string
}

func (r *run) bad(key, format string, a ...any) {
	if r.key == "" {
		r.key = key
	}
	if len(r.problems) < 5 {
		r.problems = append(r.problems, fmt.Sprintf(format, a...))
	}
}

func waitFor(ch <-chan struct{}, t time.Duration) bool {
	select {
	case <-ch:
		return true
	case <-time.After(t):
		return false
	}
}

const patience = 60 * time.Second

// work feeds the blocks to the command's workers.
func (r *run) work(rng *Rng) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	in := make(chan pbf.Block)
	out := make(chan pbf.Block)
	open := make(chan struct{}) // results are taken freely once closed
	var got int32
	var cw sync.WaitGroup
	cw.Add(1)
	go func() {
		defer cw.Done()
		for {
			if r.stall >= 0 && int(atomic.LoadInt32(&got)) >= r.stall {
				<-open
			}
			b, ok := <-out
			if !ok {
				return
			}
			r.results = append(r.results, b)
			atomic.AddInt32(&got, 1)
		}
	}()
	done := make(chan struct{})
	var running int32
	var ww sync.WaitGroup
	ww.Add(r.workers)
	for i := 0; i < r.workers; i++ {
		go func() {
			atomic.AddInt32(&running, 1)
			r.c.work(ctx, in, out)
			ww.Done()
		}()
	}
	go func() { ww.Wait(); close(done) }()

	if mode == "list" {
		r.list("at the start", r.workers)
	}
	isCancelled := false
	doCancel := func() {
		cancel()
		isCancelled = true
	}
	extra := 1 + rng.IntN(4)
feed:
	for i, b := range r.blocks {
		blk := pbf.Block{Index: uint64(i), Data: mmap.MMap(b.blob), BlobType: b.typ}
		if !isCancelled && i == r.cancelAt {
			doCancel()
			if rng.IntN(2) == 0 && r.stall >= 0 {
				close(open)
				r.stall = -1
			}
		}
		if !isCancelled {
			// a cancellation that comes while every worker is stuck with a result
			var stuck <-chan time.Time
			if r.stall >= 0 {
				stuck = time.After(time.Duration(5+rng.IntN(20)) * time.Millisecond)
			}
			select {
			case in <- blk:
				r.accepted++
			case <-stuck:
				if mode == "list" {
					r.list("with every worker waiting to hand over a result", r.workers)
					close(open)
					r.stall = -1
					in <- blk
					r.accepted++
					continue
				}
				doCancel()
				break feed
			}
			continue
		}
		// like the engine, whose choice between a ready worker and the
		// cancellation is random, go on for a few blocks
		if extra == 0 {
			break
		}
		extra--
		select {
		case in <- blk:
			r.accepted++
			r.after++
		case <-time.After(time.Duration(1+rng.IntN(10)) * time.Millisecond):
		}
		if r.accepted <= i { // refused
			break
		}
	}
	if r.cancelAt >= len(r.blocks) {
		doCancel()
	}
	close(in)
	if r.stall >= 0 {
		if rng.IntN(2) == 0 {
			time.Sleep(time.Duration(rng.IntN(3)) * time.Millisecond)
		}
		close(open)
	}
	if !waitFor(done, patience) {
		r.bad("hang", "%v after the input ended, some of the %d workers have not returned", patience, r.workers)
		return
	}
	close(out)
	cw.Wait()
	if isCancelled {
		d.Count("cancelled_worker_runs", 1)
		d.Count("blocks_taken_after_cancelling", int64(r.after))
	}
	if mode == "list" {
		r.list("after the run", 0)
	}
	// judge
	sort.SliceStable(r.results, func(i, j int) bool { return r.results[i].Index < r.results[j].Index })
	seen := map[uint64]int{}
	for _, b := range r.results {
		seen[b.Index]++
		if seen[b.Index] > 1 {
			r.bad("twice", "block %d was delivered %d times", b.Index, seen[b.Index])
		}
		if b.Index >= uint64(r.accepted) {
			r.bad("invented", "block %d was delivered but never handed out", b.Index)
		}
	}
	for i := 0; i < r.accepted; i++ {
		if seen[uint64(i)] == 0 {
			r.bad("lost", "a worker took block %d of %d (%s, cancelled %v) and nothing was delivered for it", i, len(r.blocks), r.blocks[i].typ, isCancelled)
		}
	}
}

// list compares the command's worker list with the workers that run.
func (r *run) list(when string, want int) {
	var ws []interface{}
	for try := 0; try < 5000; try++ {
		ws = r.c.track.WorkerStates()
		if len(ws) == want {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if len(ws) != want {
		r.bad("list:"+r.c.name, "%s the worker list of %s has %d entries while %d workers run", when, r.c.name, len(ws), want)
		return
	}
	m := map[interface{}]bool{}
	for _, w := range ws {
		m[w] = true
	}
	if len(m) != want {
		r.bad("list:"+r.c.name, "%s the worker list of %s holds %d different workers, %d run", when, r.c.name, len(m), want)
	}
	d.Count("lists_compared", 1)
}

// write feeds results to the command's writer, cancelling before result k
// (-1: never).
func (r *run) write(c *cmd, path string, res []pbf.Block, k int) bool {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	in := make(chan pbf.Block)
	done := make(chan struct{})
	go func() { c.write(path)(ctx, in); close(done) }()
	for i, b := range res {
		if i == k {
			cancel()
		}
		select {
		case in <- b:
		case <-done:
			r.bad("writer-quits", "the writer returned before its input ended, at result %d of %d (cancelled before %d)", i, len(res), k)
			return false
		case <-time.After(patience):
			r.bad("writer-hangs", "the writer did not take result %d of %d within %v (cancelled before %d)", i, len(res), patience, k)
			return false
		}
	}
	if k >= len(res) {
		cancel()
	}
	close(in)
	if !waitFor(done, patience) {
		r.bad("writer-hangs", "the writer did not return within %v after its input ended (cancelled before %d of %d)", patience, k, len(res))
		return false
	}
	return true
}

func readable(name, path string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	if name == "nodeindex" {
		nodeindex.NewNodeIndex(path, nil).Close()
	} else {
		wayindex.NewWayIndex(path, nil).Close()
	}
	return true
}

func wholeRecords(b []byte) error {
	if len(b)%8 != 0 {
		return fmt.Errorf("%d bytes", len(b))
	}
	v := make([]int64, len(b)/8)
	for i := range v {
		for j := 7; j >= 0; j-- {
			v[i] = v[i]<<8 | int64(b[8*i+j])
		}
	}
	for i := 0; i < len(v); {
		if i+2 > len(v) || v[i+1] < 0 || int64(len(v)-i-2) < v[i+1] {
			return fmt.Errorf("a record at value %d is cut", i)
		}
		i += 2 + int(v[i+1])
	}
	return nil
}

func (r *run) file(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		r.bad("no-output", "no output: %v", err)
	}
	return b
}

// output checks what the command's writer makes of the results.
func (r *run) output(rng *Rng) {
	n := r.accepted
	name := r.c.name
	// the blocks taken, uncancelled, one worker
	one := &run{c: r.c, blocks: r.blocks[:n], workers: 1, cancelAt: -1, stall: -1}
	one.work(rng)
	if len(one.problems) > 0 {
		r.bad("uncancelled", "an uncancelled run over the same blocks: %s", strings.Join(one.problems, "; "))
		return
	}
	ref, out := d.Dir+"/ref", d.Dir+"/out"
	if !r.write(r.c, ref, one.results, -1) {
		return
	}
	want := r.file(ref)
	_ = os.WriteFile(out, bytes.Repeat([]byte("left over"), rng.IntN(2000)), 0o644)
	if !r.write(r.c, out, r.results, -1) {
		return
	}
	if got := r.file(out); !bytes.Equal(want, got) {
		r.bad("content", "the results taken from the cancelled workers make another output than those of an uncancelled run over the same %d blocks: %s", n, DiffBytes(want, got))
	}
	// and with the cancellation reaching the writer
	k := rng.IntN(n + 2)
	_ = os.Remove(out)
	if !r.write(r.c, out, r.results, k) {
		return
	}
	got := r.file(out)
	d.Count("cancelled_writer_runs", 1)
	switch name {
	case "nodeindex", "wayindex":
		if n == len(r.blocks) && k > n && bytes.Equal(want, got) {
			break
		}
		if mode != "release" && readable(name, out) {
			r.bad("readable:"+name, "the %s cut off by a cancellation before result %d of %d (%d of %d blocks taken) is accepted as a complete index", name, k, n, n, len(r.blocks))
		}
	default:
		if !bytes.HasPrefix(want, got) {
			r.bad("not-prefix:"+name, "the output of a writer cancelled before result %d of %d is not a prefix of the uncancelled one: %s", k, n, DiffBytes(want, got))
			break
		}
		var err error
		if name == "relindex" {
			err = wholeRecords(got)
		} else {
			_, err = SplitFile(got)
		}
		if err != nil {
			r.bad("not-whole:"+name, "the output of a writer cancelled before result %d of %d ends inside a block: %v", k, n, err)
		}
	}
	if m, err := os.ReadFile(out + ".loc.tmp"); err == nil {
		r.bad("leftover:"+name, "%s left its intermediate file (%d bytes)", name, len(m))
	}
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		mode = os.Args[1]
		runs, err := strconv.Atoi(os.Args[2])
		if err != nil {
			GiveUp("%v", err)
		}
		if mode == "release" {
			debug.SetGCPercent(-1)
		}
		rng := d.Rng
		if f, err := os.Create(d.Dir + "/warm"); err == nil {
			_ = f.Close()
		}
		if pr, pw, err := os.Pipe(); err == nil {
			_, _ = pr.Close(), pw.Close()
		}
		for i := 0; i < runs && d.NViol() == 0; i++ {
			o := DefaultGen()
			o.Nodes, o.Ways, o.Rels = rng.IntN(80), rng.IntN(40), rng.IntN(20)
			o.BlockMax = []int{1, 2, 5, 30}[rng.IntN(4)]
			o.MaxRefs, o.Zlib, o.IDStyle = 8, -1, -1
			f := Gen(rng, o)
			file := f.Bytes()
			rbs, err := SplitFile(file)
			if err != nil {
				GiveUp("own file: %v", err)
			}
			var blocks []src
			for _, rb := range rbs {
				blocks = append(blocks, src{rb.Type, append([]byte(nil), rb.Blob...)})
			}
			nidx := d.Dir + "/n.idx"
			if err := os.WriteFile(nidx, NodeIdxBytes(f.LocMap()), 0o644); err != nil {
				GiveUp("%v", err)
			}
			name := names[i%len(names)]
			if name == "rewritenodes" && len(f.Nodes()) == 0 {
				continue
			}
			if mode == "unfinished" {
				name = []string{"nodeindex", "wayindex"}[i%2]
			}
			base, fds := runtime.NumGoroutine(), len(FDs())
			r := &run{c: mk(name, rng, nidx), blocks: blocks, workers: []int{1, 2, 3, 8, 20}[rng.IntN(5)], cancelAt: -1, stall: -1}
			switch {
			case mode == "list":
				if rng.IntN(2) == 0 {
					r.stall = rng.IntN(len(blocks) + 1)
				} else if rng.IntN(2) == 0 {
					r.cancelAt = rng.IntN(len(blocks) + 1)
				}
			case rng.IntN(5) > 0:
				r.cancelAt = rng.IntN(len(blocks) + 2)
				if rng.IntN(2) == 0 {
					r.stall = rng.IntN(r.cancelAt + 1)
				}
			}
			r.desc = fmt.Sprintf("run %d: %s, %d blocks, %d workers, cancelled after %d, results held from %d on", i, name, len(blocks), r.workers, r.cancelAt, r.stall)
			d.NoteNow("%s", r.desc)
			r.work(rng)
			if len(r.problems) == 0 && mode != "list" {
				r.output(rng)
			}
			if r.c.idx != nil {
				r.c.idx.Close()
			}
			if mode == "release" && len(r.problems) == 0 {
				left := ""
				for try := 0; try < 5000; try++ {
					left = ""
					if g := runtime.NumGoroutine(); g > base {
						left = fmt.Sprintf("%d goroutines instead of %d", g, base)
					}
					if f := FDs(); len(f) > fds {
						left += fmt.Sprintf(" descriptors %v", f)
					}
					if m := FileMaps(d.Dir); len(m) > 0 {
						left += fmt.Sprintf(" mappings %v", m)
					}
					if left == "" {
						break
					}
					time.Sleep(time.Millisecond)
				}
				if left != "" {
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					r.bad("kept:"+name, "after the run there remain %s\n%s", left, Trunc(string(buf), 3000))
				}
				if i%100 == 99 {
					runtime.GC()
				}
			}
			if len(r.problems) > 0 {
				d.Violate(r.key, r.desc+": "+strings.Join(r.problems, "; "), nil, map[string][]byte{"in.pbf": file})
			}
			order := ""
			for _, b := range r.results {
				order += fmt.Sprint(b.Index, " ")
			}
			d.Eval(Hash(r.desc, order, file))
			d.Count("blocks_taken", int64(r.accepted))
			d.Seen("command_workers", name)
			if i < 3 {
				d.Sample(map[string]any{"run": r.desc, "taken": r.accepted, "taken_after_cancelling": r.after, "delivered": len(r.results)})
			}
		}
	})
}
