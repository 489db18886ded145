//go:build go1.22

// pool drives the buffer pool and the block payloads it backs from many
// goroutines, each holder checking that its bytes stay its own.
package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/squizzling/osmindex/internal/pool"
	"github.com/squizzling/osmindex/internal/t"

	. "verif/lib"
)

var d *Drv

type span struct {
	lo, hi uintptr
	who    string
}

func addr(b []byte) (uintptr, uintptr) {
	p := *(*uintptr)(unsafe.Pointer(&b))
	return p, p + uintptr(cap(b))
}

func mark(b []byte, v uint64) {
	for i := range b {
		b[i] = byte(v>>(8*(i&7))) ^ byte(i>>3)
	}
}

func marked(b []byte, v uint64) int {
	for i := range b {
		if b[i] != byte(v>>(8*(i&7)))^byte(i>>3) {
			return i
		}
	}
	return -1
}

// round has several goroutines borrow, fill, hold and return.
func round(n int, rng *Rng) {
	p := pool.ByteSlice
	global := rng.IntN(3) == 0
	def := []uint64{0, 1, 16, 100, 4096, 65536}[rng.IntN(6)]
	if !global {
		p = pool.NewByteSlicePool(def)
	}
	workers := 1 + rng.IntN(12)
	maxSize := []int{0, 3, 40, 3000, 200000}[rng.IntN(5)]
	if workers*maxSize > 1000000 {
		maxSize = 20000
	}
	steps := 5 + rng.IntN(40)
	if rng.IntN(40) == 0 { // as large as blocks get
		workers, maxSize, steps = 1+rng.IntN(3), 1<<(20+rng.IntN(5)), 8
	}
	desc := fmt.Sprintf("round %d: %d goroutines, sizes to %d, pool default %d (shared %v)", n, workers, maxSize, def, global)
	d.NoteNow("%s", desc)
	var problems atomic.Int64
	bad := func(key, f string, a ...any) {
		if problems.Add(1) == 1 {
			d.Bad(key, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
	}
	var ticket atomic.Uint64
	var lent atomic.Int64
	var gmu sync.Mutex
	var foreign [][]byte // memory the pool must never hand out
	var wg sync.WaitGroup
	type held struct {
		bb  pool.BorrowedBuffer
		sig uint64
	}
	left := make([][]held, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		wr := NewRng(rng.Uint64())
		go func(w int, wr *Rng) {
			defer wg.Done()
			var mine []held
			for s := 0; s < steps && problems.Load() == 0; s++ {
				switch wr.IntN(5) {
				case 0, 1:
					sz := uint64(wr.IntN(maxSize + 1))
					bb := p.Get(sz)
					lent.Add(1)
					if uint64(len(bb.Buffer)) != sz {
						bad("length", "Get(%d) gives %d bytes", sz, len(bb.Buffer))
						return
					}
					sig := ticket.Add(1) * 0x9e3779b97f4a7c15
					mark(bb.Buffer, sig)
					mine = append(mine, held{bb, sig})
				case 2, 3:
					if len(mine) == 0 {
						continue
					}
					i := wr.IntN(len(mine))
					h := mine[i]
					if at := marked(h.bb.Buffer, h.sig); at >= 0 {
						bad("disturbed", "a held buffer of %d bytes changed at byte %d", len(h.bb.Buffer), at)
						return
					}
					mine = append(mine[:i], mine[i+1:]...)
					p.Put(h.bb)
				case 4:
					// not the pool's memory: returning it is allowed, lending it is not
					whole := make([]byte, 1+wr.IntN(maxSize+1))
					b := whole
					if wr.IntN(2) == 0 { // part of something larger, as a block is of its file
						b = whole[wr.IntN(len(whole)):]
						b = b[:wr.IntN(len(b)+1)]
					}
					sig := ticket.Add(1) * 0x9e3779b97f4a7c15
					mark(b, sig)
					nb := pool.NonBorrowedBuffer(b)
					if !bytes.Equal(nb.Buffer, b) || len(b) > 0 && &nb.Buffer[0] != &b[0] {
						bad("wrapped", "NonBorrowedBuffer does not hold the given bytes")
						return
					}
					p.Put(nb)
					gmu.Lock()
					foreign = append(foreign, whole)
					gmu.Unlock()
					mine = append(mine, held{nb, sig})
				}
				if wr.IntN(4) == 0 {
					runtime.Gosched()
				}
				for _, h := range mine {
					if at := marked(h.bb.Buffer, h.sig); at >= 0 {
						bad("disturbed", "a held buffer of %d bytes changed at byte %d", len(h.bb.Buffer), at)
						return
					}
				}
			}
			left[w] = mine
		}(w, wr)
	}
	wg.Wait()
	// everything still held, and the memory that was never the pool's, must be
	// disjoint
	var spans []span
	for w, m := range left {
		for _, h := range m {
			if lo, hi := addr(h.bb.Buffer); hi > lo {
				mine := false
				for _, f := range foreign {
					fl, fh := addr(f)
					mine = mine || fl <= lo && lo < fh
				}
				if !mine {
					spans = append(spans, span{lo, hi, fmt.Sprint("goroutine ", w)})
				}
			}
		}
	}
	for i := 0; i < 8 && problems.Load() == 0; i++ {
		bb := p.Get(uint64(rng.IntN(maxSize + 1)))
		lent.Add(1)
		if lo, hi := addr(bb.Buffer); hi > lo {
			spans = append(spans, span{lo, hi, "a new borrower"})
		}
		defer runtime.KeepAlive(bb)
	}
	for _, f := range foreign {
		lo, hi := addr(f)
		spans = append(spans, span{lo, hi, "memory that is not the pool's"})
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	for i := 1; i < len(spans); i++ {
		if spans[i].lo < spans[i-1].hi {
			bad("shared", "%s and %s hold the same memory", spans[i-1].who, spans[i].who)
		}
	}
	for w, m := range left {
		for _, h := range m {
			if at := marked(h.bb.Buffer, h.sig); at >= 0 {
				bad("disturbed", "a buffer held by goroutine %d to the end changed at byte %d", w, at)
			}
		}
	}
	runtime.KeepAlive(foreign)
	d.Count("buffers_lent", lent.Load())
	d.Eval(Hash(desc, fmt.Sprint(ticket.Load(), lent.Load())))
}

// payloads has goroutines decode blobs and keep several decoded payloads.
func payloads(n int, rng *Rng) {
	workers := 1 + rng.IntN(8)
	desc := fmt.Sprintf("payload round %d: %d goroutines", n, workers)
	d.NoteNow("%s", desc)
	var stop atomic.Bool
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		wr := NewRng(rng.Uint64())
		go func(wr *Rng) {
			defer wg.Done()
			type held struct {
				bb   pool.BorrowedBuffer
				want []byte
			}
			var mine []held
			var file [][2][]byte // what was read, and a copy
			var pbr t.PBReader
			for s := 0; s < 12 && !stop.Load(); s++ {
				want := make([]byte, []int{1, 10, 500, 9000, 70000}[wr.IntN(5)]+wr.IntN(50))
				z := []int{0, 1, 6, 10}[wr.IntN(4)]
				if wr.IntN(15) == 0 {
					want, z = make([]byte, 1<<(17+wr.IntN(6))+wr.IntN(1000)), wr.IntN(2)
				}
				mark(want, wr.Uint64())
				enc := BlobBytes(want, Enc{Zlib: z, SizeAfter: wr.IntN(2) == 0, RawSize: wr.IntN(2) == 0})
				file = append(file, [2][]byte{enc, append([]byte(nil), enc...)})
				var b t.Blob
				pbr.ReadBlob(enc, &b)
				mine = append(mine, held{b.GetRawData(), want})
				for _, h := range mine {
					if !bytes.Equal(h.bb.Buffer, h.want) {
						if !stop.Swap(true) {
							d.Bad("payload", "%s: a decoded payload of %d bytes is not intact while held (%d held): %s", desc, len(h.want), len(mine), DiffBytes(h.want, h.bb.Buffer))
						}
						return
					}
				}
				for len(mine) > 0 && wr.IntN(2) == 0 {
					i := wr.IntN(len(mine))
					pool.ByteSlice.Put(mine[i].bb)
					mine = append(mine[:i], mine[i+1:]...)
				}
				d.Count("payloads_checked", 1)
			}
			for _, f := range file {
				if !bytes.Equal(f[0], f[1]) && !stop.Swap(true) {
					d.Bad("input", "%s: the stored bytes of a blob of %d bytes have changed: %s", desc, len(f[1]), DiffBytes(f[1], f[0]))
				}
			}
		}(wr)
	}
	wg.Wait()
	d.Eval(Hash(desc, rng.Uint64()))
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		scale := 1
		for _, a := range os.Args[1:] {
			if a == "small" { // slower builds
				scale = 6
			}
		}
		for i := 0; i < d.N(700, 15000)/scale && d.NViol() == 0; i++ {
			round(i, d.Rng)
		}
		for i := 0; i < d.N(60, 1500)/scale+1 && d.NViol() == 0; i++ {
			payloads(i, d.Rng)
		}
	})
}
