package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	. "verif/lib"
)

func init() { register("P39", "exploration", p39) }

func p39(c *Ctx) {
	c.R.Rule = "node and way indexes, written by the real commands or by an independent writer of the layout, cut to a shorter length (any place: header, entries, within a location or list, between them, at page ends, the last bytes), given to every command that reads such an index; the command must either end with a non-zero status or give exactly the output files and printed index contents it gives with the complete index; an evaluation is one cut index given to one command line"
	c.Each("cuts", c.N(150, 1200), func(k *Case) {
		r := k.Rng
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 1+r.IntN(300), 1+r.IntN(80), 1+r.IntN(30)
		o.MaxRefs = 1 + r.IntN(20)
		o.Blank = false
		big := k.I%6 == 5 // more than one pass of rewritenodes
		if big {
			o.Ways, o.MaxRefs = 200, 60
		}
		f := Gen(r, o)
		k.Input("in.pbf", f)
		locs := f.LocMap()
		if big {
			var refs []int64
			for _, b := range f.Blocks {
				for _, g := range b.Groups {
					for _, w := range g.Ways {
						refs = append(refs, w.Refs...)
					}
				}
			}
			locs = map[int64]int64{}
			for i, id := range refs {
				if id > 0 && i%3 != 0 {
					locs[id] = -1 - int64(i)
				}
			}
			base := int64(1+r.IntN(1000)) << 32
			for i := int64(0); i < 300000; i++ {
				locs[base+i] = -5 - i
			}
			base = 2
			for i := int64(0); i < 150000; i++ {
				if _, ok := locs[base+i]; !ok && r.IntN(3) != 0 {
					locs[base+i] = -7 - i
				}
			}
		}
		if k.I%2 == 0 && !big {
			k.OK("nodeindex", "-i", "in.pbf", "-o", "n.idx", "-r", "0")
		} else {
			k.Write("n.idx", NodeIdxBytes(locs))
		}
		shift := r.IntN(6)
		if k.I%3 == 0 {
			k.OK("wayindex", "-i", "in.pbf", "-o", "w.idx", "-r", "0", "-a", fmt.Sprint(shift))
		} else {
			k.Write("w.idx", WayIdxBytes(f.WayMap(), shift))
		}
		ni, wi := k.Read("n.idx"), k.Read("w.idx")
		type job struct {
			idx  string
			full []byte
			cmd  string
			args []string
			out  bool
		}
		pass := func() string { return fmt.Sprint(1 + r.IntN(5)) }
		sub := func(n int) []string {
			if n < 2 || r.IntN(2) == 0 {
				return nil
			}
			m := 2 + r.IntN(2)
			if m > n {
				m = n
			}
			return []string{"--sub-index-index", fmt.Sprint(r.IntN(m)), "--sub-index-count", fmt.Sprint(m)}
		}
		x, _ := ParseNodeIdx(ni)
		nn := 0
		if x != nil {
			nn = len(x.Map())
		}
		jobs := []job{
			{"cut.idx", ni, "rewritenodes", []string{"-i", "in.pbf", "-o", "out", "-x", "cut.idx", "-r", "0", "-m", "1", "-w", k.workers()}, true},
			{"cut.idx", ni, "rewritenodes", []string{"-i", "in.pbf", "-o", "out", "-x", "cut.idx", "-r", "0", "-w", k.workers()}, true},
			{"cut.idx", wi, "relindex", []string{"-i", "in.pbf", "-o", "out", "-x", "cut.idx", "-r", "0", "-p", pass(), "-w", k.workers()}, true},
			{"cut.idx", wi, "dumpwayindex", []string{"-i", "cut.idx", "-p"}, false},
			{"cut.idx", wi, "dumpwayindex", append([]string{"-i", "cut.idx", "-s"}, sub(len(f.WayMap()))...), false},
		}
		if !big {
			jobs = append(jobs, job{"cut.idx", ni, "dumpnodeindex", append([]string{"-i", "cut.idx", "-p", "-s"}, sub(nn)...), false},
				job{"cut.idx", ni, "dumpnodeindex", []string{"-i", "cut.idx"}, false})
		} else {
			jobs = append(jobs, job{"cut.idx", ni, "dumpnodeindex", []string{"-i", "cut.idx", "-s"}, false})
		}
		for ji, j := range jobs {
			k.clearOut()
			k.Write("cut.idx", j.full)
			ref := k.Run(j.cmd, j.args...)
			if ref.Exit != 0 {
				k.R.Count("complete_index_refused", 1) // e.g. more passes than entries
				continue
			}
			var want []byte
			if j.out {
				want = k.Read("out")
			}
			n := len(j.full)
			cuts := map[int]bool{n - 1: true}
			for i := 0; i < 3; i++ {
				cuts[n-1-r.IntN(min(n, 64))] = true
				cuts[r.IntN(n)] = true
			}
			cuts[n-8*(1+r.IntN(4))] = true
			cuts[r.IntN(n/8+1)*8] = true
			if ji%2 == 0 {
				cuts[[]int{0, 1, 7, 8, 15, 16, 24}[r.IntN(7)]] = true
			}
			if n > 4096 {
				cuts[(1+r.IntN((n-1)/4096))*4096] = true
			}
			if j.cmd == "rewritenodes" && big {
				cuts = map[int]bool{n - 8: true, n - 8*(1+r.IntN(400000)): true, r.IntN(n): true}
			}
			// at the start of the last entry's list
			if w, err := ParseWayIdx(wi); err == nil && bytes.Equal(j.full, wi) && len(w.Map()) > 0 {
				cuts[n-len(tailAfter(wi, r))] = true
			}
			var l []int
			for n := range cuts {
				l = append(l, n)
			}
			sort.Ints(l)
			for _, at := range l {
				if at < 0 || at >= n {
					continue
				}
				k.clearOut()
				k.Write("cut.idx", j.full[:at])
				o := k.Run(j.cmd, j.args...)
				if o.Stuck || o.CPUOut {
					k.Violate("hang:"+j.cmd, fmt.Sprintf("%s hangs on an index of %d bytes cut to %d: %s", k.Lines[len(k.Lines)-1], n, at, o.Brief()))
					return
				}
				k.R.Eval(Hash(j.full, at, j.cmd, ji))
				if o.Exit != 0 {
					k.R.Count("refused", 1)
					k.R.Seen("outcome", j.cmd+" refused")
					continue
				}
				bad := ""
				if j.out && !bytes.Equal(k.Read("out"), want) {
					bad = "writes something else"
				}
				// losing padding moves the borders of sub-indexes
				whole := j.cmd != "dumpwayindex" || len(j.args) < 5 || at < listEnd(wi)
				if !j.out && whole && !bytes.Equal(o.Stdout, ref.Stdout) {
					bad = "prints something else"
				}
				if bad != "" {
					k.Violate("wrong:"+j.cmd, fmt.Sprintf("%s %s than with the complete index and exits 0: the index of %d bytes was cut to %d", k.Lines[len(k.Lines)-1], bad, n, at))
					return
				}
				k.R.Count("same_result", 1)
				k.R.Seen("outcome", j.cmd+" same result")
			}
		}
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "node_index": len(ni), "way_index": len(wi)})
		}
	})
}

// listEnd is where the last list of a way index ends.
func listEnd(w []byte) int {
	n := binary.LittleEndian.Uint64(w)
	if n == 0 {
		return len(w)
	}
	shift := uint(binary.LittleEndian.Uint64(w[8:]))
	last := binary.LittleEndian.Uint64(w[8+8*n:])
	at := 16 + int(n)*8 + int(last&(1<<33-1))<<shift
	return at + bytes.IndexByte(w[at:], 0) + 1
}

// tailAfter is what follows a random place of the last list of a way index:
// the list itself, a part of it, or what pads it.
func tailAfter(w []byte, r *Rng) []byte {
	x := w
	n := binary.LittleEndian.Uint64(x)
	shift := uint(binary.LittleEndian.Uint64(x[8:]))
	last := binary.LittleEndian.Uint64(x[8+8*n:])
	at := 16 + int(n)*8 + int(last&(1<<33-1))<<shift
	return x[min(len(x)-1, at+r.IntN(len(x)-at)*r.IntN(2)):]
}
