//go:build go1.22

// lookup opens index files through the project's own readers and judges every
// answer against an independently computed expectation.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"strconv"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"

	. "verif/lib"
)

var r = NewResult(os.Getenv("DRV_PROP"))

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(77)
	}
	return n
}

func read(fn string) []byte {
	b, err := os.ReadFile(fn)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(77)
	}
	return b
}

var noteF string
var noteA []any

func note(format string, a ...any) { noteF, noteA = format, a }

// flushNote records the call that was being made when the driver panicked.
func flushNote() {
	if e := recover(); e != nil {
		_ = os.WriteFile(os.Getenv("DRV_DIR")+"/case", []byte(fmt.Sprintf(noteF, noteA...)), 0o644)
		panic(e)
	}
}

// usage: lookup nodes|ways INDEX EXPECT PASSES SEED
// PASSES 0: the whole index and nothing else; otherwise every pass count from
// a list.
func main() {
	mode, ixf, exf := os.Args[1], os.Args[2], os.Args[3]
	passes := atoi(os.Args[4])
	rng := NewRng(uint64(atoi(os.Args[5])), 99)
	defer flushNote()
	defer func() {
		if e := recover(); e != nil {
			panic(e)
		}
		if err := r.Dump(os.Getenv("DRV_RESULT")); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(77)
		}
	}()
	switch mode {
	case "nodes":
		nodes(ixf, read(exf), passes, rng)
	case "ways":
		ways(ixf, read(exf), passes, rng)
	}
}

func counts(max int, passes int, ids int, rng *Rng) []int {
	if passes == 0 {
		return []int{1}
	}
	// keep the work of the highest pass counts on big indexes within reason
	if lim := 3000000/(ids+1) + 12; max > lim {
		max = lim
	}
	set := map[int]bool{}
	add := func(n int) {
		if n >= 1 && n <= max {
			set[n] = true
		}
	}
	for n := 1; n <= 12; n++ {
		add(n)
	}
	add(max)
	add(max - 1)
	add(max / 2)
	add(max/2 + 1)
	add(max / 3)
	for len(set) < passes && len(set) < max {
		add(1 + rng.IntN(max))
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func nodes(ixf string, ex []byte, passes int, rng *Rng) {
	want := map[uint64]int64{}
	var ids []uint64
	for i := 0; i+16 <= len(ex); i += 16 {
		id := binary.LittleEndian.Uint64(ex[i:])
		want[id] = int64(binary.LittleEndian.Uint64(ex[i+8:]))
		ids = append(ids, id)
	}
	raw := read(ixf)
	px, err := ParseNodeIdx(raw)
	if err != nil {
		r.Violate("layout", fmt.Sprintf("index file is malformed: %v", err), nil, nil)
		return
	}
	total := len(px.Locs)
	maxRun, nruns := uint64(0), len(px.Runs)
	for _, x := range px.Runs {
		if x.Count > maxRun {
			maxRun = x.Count
		}
	}
	// absent ids: neighbours, gap interiors, extremes, random ones
	absent := map[uint64]bool{}
	add := func(id uint64) {
		if _, ok := want[id]; !ok {
			absent[id] = true
		}
	}
	for i, id := range ids {
		for d := uint64(1); d <= 3; d++ {
			add(id + d)
			if id > d {
				add(id - d)
			}
		}
		if i > 0 {
			add(ids[i-1]/2 + id/2)
		}
	}
	for _, x := range []uint64{0, 1, 2, 3, 1 << 24, 1<<24 - 1, 1 << 32, 1 << 33, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		add(x)
	}
	for i := 0; i < 40; i++ {
		add(rng.Uint64() >> uint(rng.IntN(64)))
	}
	var abs []uint64
	for id := range absent {
		abs = append(abs, id)
	}
	sort.Slice(abs, func(i, j int) bool { return abs[i] < abs[j] })
	if len(abs) > 4000 {
		abs = abs[:4000]
	}
	note("opening node index with %d ids", len(ids))
	ix := nodeindex.NewNodeIndex(ixf, nil)
	defer ix.Close()
	if int(ix.LocationCount()) != total {
		r.Violate("count", fmt.Sprintf("LocationCount()=%d, file holds %d", ix.LocationCount(), total), nil, nil)
	}
	if total == 0 {
		if passes == 0 {
			note("whole empty index")
			s := ix.SubIndex(0, 1)
			for _, id := range abs {
				if _, _, ok := s.FindNode(id, 0); ok {
					r.Violate("phantom", fmt.Sprintf("empty index finds %d", id), nil, nil)
				}
				r.EvalN(1)
			}
		}
		return
	}
	for _, n := range counts(total, passes, len(ids), rng) {
		found := map[uint64]int{}
		for p := 0; p < n; p++ {
			note("SubIndex(%d, %d) of %d locations in %d runs", p, n, total, nruns)
			s := ix.SubIndex(uint64(p), uint64(n))
			in := uint64(0)
			hint := 0
			try := func(id uint64, h int) (int64, bool) {
				note("pass %d of %d: FindNode(%d, hint %d), %d elements", p, n, id, h, s.ElementCount())
				l, nh, ok := s.FindNode(id, h)
				r.Count("lookups", 1)
				if nh < 0 {
					r.Violate("hint", fmt.Sprintf("negative hint %d returned", nh), nil, nil)
					nh = 0
				}
				hint = nh
				return l, ok
			}
			for _, id := range ids {
				h0 := 0
				switch rng.IntN(4) {
				case 0:
					h0 = hint
				case 1:
					h0 = rng.IntN(nruns + 3)
				case 2:
					h0 = rng.IntN(s.ElementCount() + 1)
				}
				l, ok := try(id, h0)
				if ok {
					in++
					found[id]++
					if l != want[id] {
						r.Violate("wrong-location", fmt.Sprintf("pass %d of %d: node %d (hint %d) at %#x, want %#x", p, n, id, h0, uint64(l), uint64(want[id])), nil, nil)
						return
					}
				}
				// another hint must not change the answer
				h1 := rng.IntN(nruns + 2)
				if rng.IntN(3) == 0 || n == 1 {
					l1, ok1 := try(id, h1)
					if ok1 != ok || (ok && l1 != l) {
						r.Violate("hint-dependence", fmt.Sprintf("pass %d of %d: node %d found=%v with hint %d but %v with hint %d", p, n, id, ok, h0, ok1, h1), nil, nil)
						return
					}
				}
			}
			for i, id := range abs {
				if n > 12 && i%5 != p%5 {
					continue
				}
				h := rng.IntN(nruns + 2)
				if i%2 == 0 {
					h = hint
				}
				if l, ok := try(id, h); ok {
					r.Violate("phantom", fmt.Sprintf("pass %d of %d: id %d (hint %d) is not indexed but found at %#x", p, n, id, h, uint64(l)), nil, nil)
					return
				}
			}
			if in > uint64(total/n)+maxRun+uint64(n) {
				r.Violate("share", fmt.Sprintf("pass %d of %d covers %d nodes of %d locations (longest run %d)", p, n, in, total, maxRun), nil, nil)
				return
			}
			r.Max("max_found_in_a_pass", int64(in))
		}
		for _, id := range ids {
			if found[id] != 1 {
				r.Violate("passes", fmt.Sprintf("node %d was found in %d of %d passes (%d locations, %d runs)", id, found[id], n, total, nruns), nil, nil)
				return
			}
		}
		r.Eval(Hash(ex, n))
		r.Count("pass_counts_tried", 1)
		r.Max("max_passes", int64(n))
	}
	r.Max("max_runs", int64(nruns))
	r.Max("max_locations", int64(total))
	r.Count("absent_ids_asked", int64(len(abs)))
}

func ways(ixf string, ex []byte, passes int, rng *Rng) {
	want := map[int64][]int64{}
	var ids []int64
	for p := 0; p < len(ex); {
		id := int64(binary.LittleEndian.Uint64(ex[p:]))
		n := int(binary.LittleEndian.Uint64(ex[p+8:]))
		p += 16
		l := make([]int64, n)
		for i := range l {
			l[i] = int64(binary.LittleEndian.Uint64(ex[p:]))
			p += 8
		}
		want[id] = l
		ids = append(ids, id)
	}
	px, err := ParseWayIdx(read(ixf))
	if err != nil {
		r.Violate("layout", fmt.Sprintf("index file is malformed: %v", err), nil, nil)
		return
	}
	size := map[int64]uint64{}
	maxEnt := uint64(0)
	for _, w := range px.Ways {
		size[w.ID] = w.Bytes
		if w.Bytes > maxEnt {
			maxEnt = w.Bytes
		}
	}
	absent := map[int64]bool{}
	add := func(id int64) {
		if _, ok := want[id]; !ok {
			absent[id] = true
		}
	}
	for i, id := range ids {
		add(id + 1)
		add(id - 1)
		add(id + 2)
		if i > 0 {
			add((ids[i-1] + id) / 2)
		}
	}
	for _, x := range []int64{0, 1, 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 40, 1<<63 - 1} {
		add(x)
	}
	for i := 0; i < 40; i++ {
		add(int64(rng.Uint64() >> uint(1+rng.IntN(63))))
	}
	var abs []int64
	for id := range absent {
		if id >= 0 {
			abs = append(abs, id)
		}
	}
	sort.Slice(abs, func(i, j int) bool { return abs[i] < abs[j] })
	if len(abs) > 4000 {
		abs = abs[:4000]
	}
	note("opening way index with %d ways", len(ids))
	ix := wayindex.NewWayIndex(ixf, nil)
	defer ix.Close()
	if len(ids) == 0 && passes == 0 {
		note("whole empty way index")
		s := ix.SubIndexWithScaledPass(0, 1)
		for _, id := range abs {
			if _, _, ok := s.FindLocations(id, 0); ok {
				r.Violate("phantom", fmt.Sprintf("empty way index finds %d", id), nil, nil)
				return
			}
		}
		r.Eval("empty")
		return
	}
	for _, n := range counts(len(ids), passes, len(ids), rng) {
		found := map[int64]int{}
		for p := 0; p < n; p++ {
			note("SubIndexWithScaledPass(%d, %d) of %d ways in %d location bytes", p, n, len(ids), px.LocSize)
			s := ix.SubIndexWithScaledPass(p, n)
			in := uint64(0)
			hint := 0
			try := func(id int64, h int) ([]int64, bool) {
				note("pass %d of %d: FindLocations(%d, hint %d)", p, n, id, h)
				l, nh, ok := s.FindLocations(id, h)
				r.Count("lookups", 1)
				if nh < 0 {
					r.Violate("hint", fmt.Sprintf("negative hint %d returned", nh), nil, nil)
					nh = 0
				}
				hint = nh
				return l, ok
			}
			for _, id := range ids {
				h0 := 0
				switch rng.IntN(3) {
				case 0:
					h0 = hint
				case 1:
					h0 = rng.IntN(len(ids) + 3)
				}
				l, ok := try(id, h0)
				if ok {
					in += size[id]
					found[id]++
					if !EqI64(l, want[id]) {
						r.Violate("wrong-locations", fmt.Sprintf("pass %d of %d: way %d (hint %d) has %d locations %v, want %d %v", p, n, id, h0, len(l), head(l), len(want[id]), head(want[id])), nil, nil)
						return
					}
				}
				if rng.IntN(3) == 0 || n == 1 {
					h1 := rng.IntN(len(ids) + 2)
					l1, ok1 := try(id, h1)
					if ok1 != ok || !EqI64(l, l1) {
						r.Violate("hint-dependence", fmt.Sprintf("pass %d of %d: way %d found=%v with hint %d but %v with hint %d", p, n, id, ok, h0, ok1, h1), nil, nil)
						return
					}
				}
			}
			for i, id := range abs {
				if n > 12 && i%5 != p%5 {
					continue
				}
				h := rng.IntN(len(ids) + 2)
				if i%2 == 0 {
					h = hint
				}
				if _, ok := try(id, h); ok {
					r.Violate("phantom", fmt.Sprintf("pass %d of %d: way %d (hint %d) is not indexed but found", p, n, id, h), nil, nil)
					return
				}
			}
			if in > uint64(px.LocSize/n)+maxEnt+uint64(n) {
				r.Violate("share", fmt.Sprintf("pass %d of %d covers %d of %d location bytes (largest way %d)", p, n, in, px.LocSize, maxEnt), nil, nil)
				return
			}
		}
		for _, id := range ids {
			if found[id] != 1 {
				r.Violate("passes", fmt.Sprintf("way %d was found in %d of %d passes (%d ways, %d location bytes)", id, found[id], n, len(ids), px.LocSize), nil, nil)
				return
			}
		}
		r.Eval(Hash(ex, px.Shift, n))
		r.Count("pass_counts_tried", 1)
		r.Max("max_passes", int64(n))
	}
	r.Max("max_ways", int64(len(ids)))
	r.Max("max_location_bytes", int64(px.LocSize))
	r.Count("absent_ids_asked", int64(len(abs)))
}

func head(l []int64) []int64 {
	if len(l) > 12 {
		return l[:12]
	}
	return l
}
