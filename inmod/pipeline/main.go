//go:build go1.22

// pipeline drives the block-processing engine with worker and writer
// functions of its own, which record every event, control the order in which
// workers finish, and cancel at chosen events.  The recorded trace of each
// run is then judged.
//
//	pipeline order|cancel|release|progress RUNS
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/squizzling/osmindex/internal/pbf"

	. "verif/lib"
)

var d *Drv
var mode string

type event struct {
	kind string // recv, send, sent, write, cancel
	idx  uint64
}

type run struct {
	desc    string
	n       int
	workers int
	writer  bool
	policy  string
	cancel  int    // cancel at this event; -1 never, -2 before the start, -3 when every worker is busy
	hold    uint64 // policy "hold": this block's worker stalls until all others are done

	blobs [][]byte
	types []string

	mu       sync.Mutex
	log      []event
	held     map[uint64]chan struct{}
	order    []uint64 // release order
	written  []pbf.Block
	problems []string
	stopC    context.CancelFunc

	started, ended, writers, writersEnded int32
	sent                                  int32
	got                                   int
	cancelled                             bool
	pfs                                   *pbf.ProcessFileState
	pfsReady                              chan struct{}
	lastAt                                uint64
	readings                              int64
}

type token struct{ idx uint64 }

func (r *run) bad(format string, a ...any) {
	r.mu.Lock()
	if len(r.problems) < 5 {
		r.problems = append(r.problems, fmt.Sprintf(format, a...))
	}
	r.mu.Unlock()
}

func (r *run) ev(kind string, idx uint64) {
	r.mu.Lock()
	k := len(r.log)
	r.log = append(r.log, event{kind, idx})
	if kind == "recv" {
		r.got++
	}
	if r.cancel >= 0 && k == r.cancel && !r.cancelled {
		r.doCancel()
	}
	r.mu.Unlock()
	if mode == "progress" {
		r.reading()
	}
}

func (r *run) doCancel() {
	r.cancelled = true
	r.log = append(r.log, event{"cancel", 0})
	r.stopC()
}

// reading judges the progress figures at this moment.
func (r *run) reading() {
	<-r.pfsReady
	r.mu.Lock()
	defer r.mu.Unlock()
	at := r.pfs.At()
	max := r.pfs.Max()
	r.readings++
	if at < r.lastAt {
		r.problems = append(r.problems, fmt.Sprintf("position went back from %d to %d", r.lastAt, at))
	}
	r.lastAt = at
	if max != 0 && max != r.total() {
		r.problems = append(r.problems, fmt.Sprintf("total is %d, the file has %d bytes", max, r.total()))
	}
	if max != 0 && at > max {
		r.problems = append(r.problems, fmt.Sprintf("position %d is beyond the total %d", at, max))
	}
}

var fileSize uint64

func (r *run) total() uint64 { return fileSize }

func (r *run) gate(idx uint64) {
	if r.policy == "free" {
		return
	}
	ch := make(chan struct{})
	r.mu.Lock()
	if r.policy == "hold" {
		if idx != r.hold {
			r.mu.Unlock()
			return
		}
		r.held[idx] = ch
		r.mu.Unlock()
		// an engine may well stop handing out blocks at some point; then the
		// block comes back after a while without progress
		last, since := -1, time.Now()
		for {
			n := int(atomic.LoadInt32(&r.sent))
			if n >= r.n-1 {
				break
			}
			if n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 2*time.Second {
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
		d.Max("most_results_held_back_by_one", int64(atomic.LoadInt32(&r.sent)))
		return
	}
	r.held[idx] = ch
	r.mu.Unlock()
	<-ch
}

// control releases held workers one at a time (or all together) by policy.
func (r *run) control(done <-chan struct{}, rng *Rng) {
	if r.policy == "free" || r.policy == "hold" {
		return
	}
	for {
		// wait until as many workers are busy as can be
		for spin := 0; ; spin++ {
			select {
			case <-done:
				return
			default:
			}
			r.mu.Lock()
			h := len(r.held)
			full := h > 0 && (h >= r.workers || r.got == r.n)
			r.mu.Unlock()
			if full {
				break
			}
			if spin < 300 {
				runtime.Gosched()
			} else if spin < 330 {
				time.Sleep(100 * time.Microsecond)
			} else if h > 0 {
				break
			} else {
				time.Sleep(200 * time.Microsecond)
			}
		}
		r.mu.Lock()
		if r.cancel == -3 && !r.cancelled && len(r.held) >= r.workers && r.got < r.n && r.got > r.workers {
			r.doCancel()
		}
		var ids []uint64
		lo, hi := ^uint64(0), uint64(0)
		for id := range r.held {
			ids = append(ids, id)
			if id < lo {
				lo = id
			}
			if id > hi {
				hi = id
			}
		}
		if len(ids) == 0 {
			r.mu.Unlock()
			continue
		}
		var pick []uint64
		switch r.policy {
		case "fifo":
			pick = []uint64{lo}
		case "lifo":
			pick = []uint64{hi}
		case "starve": // the first block comes back last
			pick = []uint64{hi}
			if len(ids) > 1 && hi == lo {
				pick = []uint64{hi}
			}
		case "random":
			pick = []uint64{ids[rng.IntN(len(ids))]}
		case "batch":
			pick = ids
		}
		for _, id := range pick {
			close(r.held[id])
			delete(r.held, id)
			r.order = append(r.order, id)
		}
		r.mu.Unlock()
	}
}

func jitter(rng *Rng, mu *sync.Mutex) {
	mu.Lock()
	k := rng.IntN(8)
	mu.Unlock()
	switch k {
	case 0:
		time.Sleep(time.Duration(k+1) * 50 * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
}

func (r *run) exec(path string, rng *Rng) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r.stopC = cancel
	r.held = map[uint64]chan struct{}{}
	r.pfsReady = make(chan struct{})
	var jm sync.Mutex
	jr := NewRng(rng.Uint64())
	slow := rng.IntN(3) == 0

	work := func(_ context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		atomic.AddInt32(&r.started, 1)
		if slow {
			jitter(jr, &jm)
		}
		for b := range in {
			r.ev("recv", b.Index)
			if b.Index >= uint64(len(r.blobs)) {
				r.bad("a worker got block %d of %d", b.Index, len(r.blobs))
			} else {
				v := reflect.ValueOf(b.Data)
				if v.Kind() != reflect.Slice || !bytes.Equal(v.Bytes(), r.blobs[b.Index]) || b.BlobType != r.types[b.Index] {
					r.bad("block %d was handed over with the wrong type %q or bytes", b.Index, b.BlobType)
				}
			}
			r.gate(b.Index)
			if slow {
				jitter(jr, &jm)
			}
			if out != nil {
				r.ev("send", b.Index)
				out <- pbf.Block{Index: b.Index, Data: &token{b.Index}, BlobType: "R" + strconv.Itoa(int(b.Index%7))}
			}
			r.ev("sent", b.Index)
			atomic.AddInt32(&r.sent, 1)
		}
		// finishing takes a while
		time.Sleep(time.Duration(200) * time.Microsecond)
		atomic.AddInt32(&r.ended, 1)
	}
	var write pbf.WriteFunc
	if r.writer {
		write = func(_ context.Context, in <-chan pbf.Block) {
			atomic.AddInt32(&r.writers, 1)
			for b := range in {
				r.ev("write", b.Index)
				r.mu.Lock()
				r.written = append(r.written, b)
				r.mu.Unlock()
				if slow {
					jitter(jr, &jm)
				}
			}
			time.Sleep(300 * time.Microsecond)
			atomic.AddInt32(&r.writersEnded, 1)
		}
	}
	if r.cancel == -2 {
		r.mu.Lock()
		r.doCancel()
		r.mu.Unlock()
	}
	done := make(chan struct{})
	var cw sync.WaitGroup
	cw.Add(1)
	go func() { defer cw.Done(); r.control(done, NewRng(rng.Uint64())) }()
	r.pfs = pbf.ProcessFileAsync(ctx, path, work, write, r.workers)
	close(r.pfsReady)
	var sw sync.WaitGroup
	if mode == "progress" {
		sw.Add(1)
		go func() {
			defer sw.Done()
			for {
				select {
				case <-done:
					return
				default:
					r.reading()
					runtime.Gosched()
				}
			}
		}()
	}
	r.pfs.Wait()
	// at this very moment everything must be over
	st, en, wr, we := atomic.LoadInt32(&r.started), atomic.LoadInt32(&r.ended), atomic.LoadInt32(&r.writers), atomic.LoadInt32(&r.writersEnded)
	at, max := r.pfs.At(), r.pfs.Max()
	close(done)
	cw.Wait()
	sw.Wait()
	if st != en {
		r.bad("finished is reported while %d of %d workers had not returned", st-en, st)
	}
	if wr != we || r.writer && we != 1 {
		r.bad("finished is reported with %d writers started and %d returned", wr, we)
	}
	if mode == "progress" && !r.cancelled && (at != max || max != r.total()) {
		r.bad("at the end position is %d of %d, the file has %d bytes", at, max, r.total())
	}
	if r.pfs.Filename() != path {
		r.bad("file name is reported as %q", r.pfs.Filename())
	}
}

// judge is the offline checker over the recorded trace.
func (r *run) judge() {
	recv := map[uint64]int{}
	after := 0
	seenCancel := false
	sent := map[uint64]bool{}
	for _, e := range r.log {
		switch e.kind {
		case "recv":
			recv[e.idx]++
			if recv[e.idx] > 1 {
				r.bad("block %d was handed to workers %d times", e.idx, recv[e.idx])
			}
			if seenCancel {
				after++
			}
		case "send":
			sent[e.idx] = true
		case "write":
			if !sent[e.idx] {
				r.bad("the writer got block %d before its worker sent it", e.idx)
			}
		case "cancel":
			seenCancel = true
		}
	}
	m := len(recv)
	for i := 0; i < m; i++ {
		if recv[uint64(i)] == 0 {
			r.bad("workers got %d blocks, but not block %d", m, i)
			break
		}
	}
	if !r.cancelled && m != r.n {
		r.bad("workers got %d of %d blocks although nobody cancelled", m, r.n)
	}
	// The engine chooses at random when both a worker and the cancellation
	// are ready, so a few more may go out.
	if after > 100 {
		r.bad("%d further blocks were handed out after cancelling", after)
	}
	d.Max("most_blocks_after_cancel", int64(after))
	if r.writer {
		if len(r.written) != m {
			r.bad("the writer got %d results for %d blocks handed out", len(r.written), m)
		}
		for i, b := range r.written {
			tk, ok := b.Data.(*token)
			if !ok || b.Index != uint64(i) || tk.idx != uint64(i) || b.BlobType != "R"+strconv.Itoa(i%7) {
				r.bad("the writer's result #%d is block %d (%+v)", i, b.Index, b)
				break
			}
		}
	}
}

func logText(r *run) string {
	var s strings.Builder
	for _, e := range r.log {
		fmt.Fprintf(&s, "%s %d\n", e.kind, e.idx)
	}
	return s.String()
}

var policies = []string{"free", "fifo", "lifo", "starve", "random", "random", "batch"}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		mode = os.Args[1]
		runs, err := strconv.Atoi(os.Args[2])
		if err != nil {
			GiveUp("%v", err)
		}
		if mode == "release" {
			debug.SetGCPercent(-1) // finalizers must not close anything for us
		}
		path := d.Dir + "/blocks.pbf"
		rng := d.Rng
		// what the runtime itself opens on first use is there before counting
		if f, err := os.Create(d.Dir + "/warm"); err == nil {
			_ = f.Close()
		}
		if pr, pw, err := os.Pipe(); err == nil {
			_, _ = pr.Close(), pw.Close()
		}
		base := runtime.NumGoroutine()
		fds := len(FDs())
		peak := 0
		for i := 0; i < runs && d.NViol() == 0; i++ {
			n := []int{1, 1, 2, 3, 8, 20, 60, 150}[rng.IntN(8)]
			if i%25 == 0 {
				n = 400
			}
			r := &run{n: n, workers: []int{1, 2, 3, 4, 8, 16, 33}[rng.IntN(7)], writer: rng.IntN(5) > 0, cancel: -1, policy: policies[rng.IntN(len(policies))]}
			if mode == "cancel" || mode == "release" && rng.IntN(2) == 0 || mode == "progress" && rng.IntN(4) == 0 {
				switch rng.IntN(6) {
				case 0:
					r.cancel = -2
				case 1:
					r.cancel = -3
				case 2:
					r.cancel = rng.IntN(4)
				case 3: // around the last block
					r.cancel = max(0, n*4-4+rng.IntN(5))
				default:
					r.cancel = rng.IntN(n * 4)
				}
			}
			size := []int{10, 300, 5000}[rng.IntN(3)]
			if mode == "order" && i%80 == 7 {
				// one worker stalls while the others get far ahead
				r.n = []int{200, 700, 1500, 3000}[rng.IntN(4)]
				if i == 7 {
					r.n = d.N(5000, 140000)
				}
				r.policy, r.writer, r.workers = "hold", true, 2+rng.IntN(7)
				r.hold = uint64([]int{0, 0, rng.IntN(r.n), r.n - 1 - rng.IntN(min(r.n, 100))}[rng.IntN(4)])
				if i == 7 {
					r.hold = 0
				}
				n, size = r.n, 10
			}
			if mode == "order" && i == 11 { // more blocks than 16 bits count
				r.n, r.policy, r.writer, r.workers = 66000+rng.IntN(2000), "free", true, 4
				n, size = r.n, 10
			}
			var file []byte
			file, r.blobs, r.types = OpaqueFile(rng, n, size)
			fileSize = uint64(len(file))
			if err := os.WriteFile(path, file, 0o644); err != nil {
				GiveUp("%v", err)
			}
			r.desc = fmt.Sprintf("run %d: %d blocks, %d workers, writer %v, order %s, cancel %d", i, n, r.workers, r.writer, r.policy, r.cancel)
			d.NoteNow("%s", r.desc)
			r.exec(path, rng)
			r.judge()
			if mode == "release" {
				left := ""
				for try := 0; try < 2000; try++ {
					left = ""
					if g := runtime.NumGoroutine(); g > base {
						left = fmt.Sprintf("%d goroutines instead of %d", g, base)
					}
					if f := FDs(); len(f) > fds {
						left += fmt.Sprintf(" descriptors %v", f)
					}
					if m := FileMaps(d.Dir); len(m) > 0 {
						left += fmt.Sprintf(" mappings %v", m)
					}
					if left == "" {
						break
					}
					time.Sleep(time.Millisecond)
				}
				if left != "" {
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					r.bad("after the run there remain %s\n%s", left, Trunc(string(buf), 3000))
				}
				if i%100 == 99 {
					runtime.GC()
				}
			}
			if len(r.problems) > 0 {
				kind := mode
				d.Violate(kind, r.desc+": "+strings.Join(r.problems, "; "), map[string]string{"trace": Trunc(logText(r), 20000)}, map[string][]byte{"blocks.pbf": file, "trace.txt": []byte(logText(r))})
			}
			sig := Hash(fmt.Sprint(r.workers, r.writer, r.cancel), logText(r))
			d.Eval(sig)
			d.Count("events", int64(len(r.log)))
			d.Count("blocks", int64(len(r.blobs)))
			if r.cancelled {
				d.Count("cancelled_runs", 1)
				if r.got < r.n {
					d.Count("cancelled_before_the_end", 1)
				}
			}
			if mode == "progress" {
				d.Count("readings", r.readings)
			}
			// how far results overtook each other
			depth, got := 0, map[uint64]bool{}
			next := uint64(0)
			for _, id := range r.order {
				got[id] = true
				for got[next] {
					delete(got, next)
					next++
				}
				depth = max(depth, len(got))
			}
			peak = max(peak, depth)
			if len(r.order) > 1 {
				d.Seen("completion_orders", Hash(fmt.Sprint(r.order)))
			}
			if i < 3 {
				d.Sample(map[string]any{"run": r.desc, "trace": strings.Split(Trunc(logText(r), 300), "\n")})
			}
		}
		d.Max("most_results_waiting_for_an_earlier_one", int64(peak))
	})
}
