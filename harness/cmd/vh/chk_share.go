package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	. "verif/lib"
)

func init() {
	register("P36", "exploration", p36)
}

type passFile struct {
	name string
	when time.Time
	data []byte
}

// passFiles runs a command and keeps every intermediate file as it is when
// the command removes it, in the order they were written.
func (k *Case) passFiles(cmd string, args ...string) (*Out, []passFile) {
	var mu sync.Mutex
	var got []passFile
	x := k.Cmd(cmd, args...)
	x.Sup = &Supervise{Handle: func(ev *SysEvent) Action {
		if !strings.HasPrefix(ev.Name, "unlink") || !strings.HasPrefix(ev.Path, k.P("out")) {
			return Action{}
		}
		st, err := os.Stat(ev.Path)
		if err != nil {
			return Action{}
		}
		if b, err := os.ReadFile(ev.Path); err == nil {
			mu.Lock()
			got = append(got, passFile{filepath.Base(ev.Path), st.ModTime(), b})
			mu.Unlock()
		}
		return Action{}
	}}
	r := k.Go(x)
	sort.Slice(got, func(i, j int) bool {
		if !got[i].when.Equal(got[j].when) {
			return got[i].when.Before(got[j].when)
		}
		return got[i].name < got[j].name
	})
	return r, got
}

// span is the stretch of positions used in one pass.
type span struct {
	lo, hi uint64
	n      int64
}

func (s *span) add(p uint64) {
	if s.n == 0 || p < s.lo {
		s.lo = p
	}
	if s.n == 0 || p > s.hi {
		s.hi = p
	}
	s.n++
}

func p36(c *Ctx) {
	c.R.Rule = "rewritenodes with memory targets and relindex with pass counts run under supervision, every intermediate file captured at the moment it is removed; comparing each pass's input with its output tells which references or members that pass filled in, and the positions these have in the index (known from the index's layout) must lie within the share of one pass; an evaluation is one pass, distinct by what it filled in"
	c.R.Assumptions = append(c.R.Assumptions, "a pass's use of the index is what it fills in; looking an id up in vain reads no locations")
	c.Each("nodes", c.N(48, 160), func(k *Case) {
		o := DefaultGen()
		o.Nodes, o.Rels, o.Ways, o.MaxRefs, o.BlockMax = 5, 2, 60+k.Rng.IntN(100), 90, 10+k.Rng.IntN(60)
		f := Gen(k.Rng, o)
		pos := map[int64]uint64{}
		var locs map[int64]int64
		var total, longest uint64
		if k.I%2 == 0 {
			var runs []SparseRun
			var err error
			runs, locs, total, err = SparseNodeIdx(k.P("n.idx"), k.Rng, 200+k.Rng.IntN(400), []uint64{1<<24 - 1, 1 << 20, 1 << 16}[k.Rng.IntN(3)])
			if err != nil {
				k.Fail("sparse index: %v", err)
			}
			defer os.Remove(k.P("n.idx"))
			for _, r := range runs {
				longest = max(longest, r.Count)
				for _, id := range r.IDs {
					pos[int64(id)] = r.Offset + id - r.First
				}
			}
		} else {
			locs = map[int64]int64{}
			want := 131072*(1+k.Rng.IntN(4)) + []int{-1, 0, 1, 70000}[k.Rng.IntN(4)]
			long := []int{1, 30, 8000, 60000}[k.Rng.IntN(4)]
			for id := int64(1); len(locs) < want; id += 3 + k.Rng.Int64N(50) {
				for n := 1 + k.Rng.IntN(long); n > 0 && len(locs) < want; n-- {
					locs[id] = -1 - k.Rng.Int64N(1<<62)
					id++
				}
			}
			b := NodeIdxBytes(locs)
			k.Write("n.idx", b)
			x, err := ParseNodeIdx(b)
			if err != nil {
				k.Fail("own index: %v", err)
			}
			total = uint64(len(x.Locs))
			for _, r := range x.Runs {
				longest = max(longest, r.Count)
				for i := uint64(0); i < r.Count; i++ {
					pos[int64(r.First+i)] = r.Offset + i
				}
			}
		}
		ids := make([]int64, 0, len(locs))
		for id := range locs {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		at := 0
		step := max(1, len(ids)/2500)
		for _, b := range f.Blocks {
			for gi := range b.Groups {
				for wi := range b.Groups[gi].Ways {
					rs := b.Groups[gi].Ways[wi].Refs
					for i := range rs {
						if k.Rng.IntN(12) > 0 {
							rs[i] = ids[at%len(ids)]
							at += 1 + k.Rng.IntN(2*step)
						}
					}
				}
			}
		}
		k.Input("in.pbf", f)
		var targets []uint64
		if k.I%2 == 0 {
			for _, n := range []uint64{2, 3 + uint64(k.Rng.IntN(10)), []uint64{40, 99, 101, 130}[k.Rng.IntN(4)]} {
				targets = append(targets, max(1, total*8>>20/n))
			}
		} else {
			targets = []uint64{1, 2}
		}
		// more than there is, up to the largest number that can be asked for
		targets = append(targets, []uint64{total*8>>20 + 1, 1 << 12, 1<<24 + uint64(k.Rng.IntN(3)), 1 << 32, 1<<44 - 1, 1 << 44, 1<<44 + 1, 1 << 45, 1 << 63, 1<<64 - 1}[(k.I/2)%10])
		for _, m := range targets {
			_ = os.Remove(k.P("out"))
			r, files := k.passFiles("rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "out", "-x", "n.idx", "-w", k.workers(), "-m", fmt.Sprint(m))
			if !r.OK() {
				k.Violate("fails:rewritenodes", fmt.Sprintf("%s failed: %s", k.Lines[len(k.Lines)-1], r.Brief()))
				return
			}
			states := [][]Way{f.Ways()}
			for _, p := range append(files, passFile{name: "out", data: k.Read("out")}) {
				g, _, err := ParsePBF(p.data)
				if err != nil {
					k.R.Count("intermediate_files_not_understood", 1)
					states = nil
					break
				}
				states = append(states, g.Ways())
			}
			if states == nil {
				continue
			}
			limit := min(m, total>>17+1) * 131072 // a larger target changes nothing
			passes := uint64(len(states) - 1)
			if least := (total + limit - 1) / limit; passes > least+1 {
				k.Violate("passes:rewritenodes", fmt.Sprintf("%s worked in %d passes over %d locations, %d would do", k.Lines[len(k.Lines)-1], passes, total, least))
				return
			}
			for i := 1; i < len(states); i++ {
				var s span
				for wi, w := range states[i] {
					if wi >= len(states[i-1]) || len(w.Refs) != len(states[i-1][wi].Refs) {
						k.Violate("content:rewritenodes", fmt.Sprintf("%s: pass %d of %d changes the ways", k.Lines[len(k.Lines)-1], i, passes))
						return
					}
					for ri, ref := range w.Refs {
						was := states[i-1][wi].Refs[ri]
						if was < 0 || ref == was {
							continue
						}
						p, ok := pos[was]
						if !ok {
							k.Violate("content:rewritenodes", fmt.Sprintf("%s: pass %d of %d replaces %d, which the index does not hold", k.Lines[len(k.Lines)-1], i, passes, was))
							return
						}
						s.add(p)
					}
				}
				k.R.Eval(Hash("n", k.I, m, i, s))
				if s.n == 0 {
					k.R.Count("passes_with_nothing_to_do", 1)
					continue
				}
				k.R.Count("references_followed", s.n)
				k.R.Max("largest_stretch_percent_of_target", int64((s.hi-s.lo+1)*100/limit))
				if s.hi-s.lo+1 > limit+longest+passes {
					k.files["n.idx"] = nil
					k.Violate("share:rewritenodes", fmt.Sprintf("%s: pass %d of %d fills in %d references from %d locations of the index (%d to %d of %d), the target of %d MB allows %d and one run of %d", k.Lines[len(k.Lines)-1], i, passes, s.n, s.hi-s.lo+1, s.lo, s.hi, total, m, limit, longest))
					return
				}
			}
			k.R.Seen("pass_counts", fmt.Sprint(passes))
		}
		if k.I < 2 {
			k.R.Sample(map[string]any{"case": k.I, "locations": total, "longest_run": longest, "targets_mb": fmt.Sprint(targets), "command": k.Lines[0]})
		}
	})
	c.Each("ways", c.N(48, 160), func(k *Case) {
		o := DefaultGen()
		o.Nodes, o.Ways, o.Rels, o.MaxMembers = 5, 3, 60+k.Rng.IntN(60), 60
		pos := map[int64]uint64{}
		var total, largest uint64
		var ids []int64
		f := Gen(k.Rng, o)
		if k.I%2 == 0 {
			var size map[int64]uint64
			var err error
			ids, _, size, total, err = SparseWayIdx(k.P("w.idx"), k.Rng, 200+k.Rng.IntN(400), k.Rng.IntN(7), 1<<uint(24+k.Rng.IntN(13)))
			if err != nil {
				k.Fail("sparse index: %v", err)
			}
			defer os.Remove(k.P("w.idx"))
			at := uint64(0)
			for _, id := range ids {
				pos[id] = at
				at += size[id]
				largest = max(largest, size[id])
			}
		} else {
			g := DefaultGen()
			g.Nodes, g.Rels, g.Ways, g.MaxRefs = 5, 0, 500+k.Rng.IntN(2000), []int{2, 20, 200}[k.Rng.IntN(3)]
			g.LongWays = k.Rng.IntN(3)
			k.Input("ways.pbf", Gen(k.Rng, g))
			k.OK("wayindex", "-r", "0", "-i", "ways.pbf", "-o", "w.idx", "-w", k.workers(), "-a", fmt.Sprint(k.Rng.IntN(7)))
			x, err := ParseWayIdx(k.Read("w.idx"))
			if err != nil {
				k.Violate("layout", fmt.Sprintf("%s: %v", k.Lines[0], err))
				return
			}
			total = uint64(x.LocSize)
			for i, w := range x.Ways {
				ids = append(ids, w.ID)
				pos[w.ID] = w.Off
				next := total
				if i+1 < len(x.Ways) {
					next = x.Ways[i+1].Off
				}
				largest = max(largest, next-w.Off)
			}
		}
		step := max(1, len(ids)/1500)
		at := 0
		for _, b := range f.Blocks {
			for gi := range b.Groups {
				for ri := range b.Groups[gi].Rels {
					for mi := range b.Groups[gi].Rels[ri].Members {
						if m := &b.Groups[gi].Rels[ri].Members[mi]; k.Rng.IntN(9) > 0 {
							m.Type, m.ID = MWay, ids[at%len(ids)]
							at += 1 + k.Rng.IntN(2*step)
						}
					}
				}
			}
		}
		k.Input("in.pbf", f)
		counts := []int{2, 3 + k.Rng.IntN(10), []int{40, 99, 101, 130}[k.Rng.IntN(4)]}
		for _, n := range counts {
			_ = os.Remove(k.P("out"))
			r, files := k.passFiles("relindex", "-r", "0", "-i", "in.pbf", "-o", "out", "-x", "w.idx", "-w", k.workers(), "-p", fmt.Sprint(n))
			if !r.OK() {
				k.Violate("fails:relindex", fmt.Sprintf("%s failed: %s", k.Lines[len(k.Lines)-1], r.Brief()))
				return
			}
			var states [][]int64
			for _, p := range append(files, passFile{name: "out", data: k.Read("out")}) {
				ms, ok := relMembers(p.data)
				if !ok {
					states = nil
					k.R.Count("intermediate_files_not_understood", 1)
					break
				}
				states = append(states, ms)
			}
			if len(states) < 2 {
				continue
			}
			passes := len(states) - 1
			if passes != n {
				k.Violate("passes:relindex", fmt.Sprintf("%s worked in %d passes", k.Lines[len(k.Lines)-1], passes))
				return
			}
			for i := 1; i < len(states); i++ {
				var s span
				if len(states[i]) != len(states[0]) {
					k.Violate("content:relindex", fmt.Sprintf("%s: pass %d of %d changes the number of members from %d to %d", k.Lines[len(k.Lines)-1], i, passes, len(states[0]), len(states[i])))
					return
				}
				for j, id := range states[i] {
					if was := states[i-1][j]; was < 0 && id >= 0 {
						if p, ok := pos[-was]; ok {
							s.add(p)
						}
					}
				}
				k.R.Eval(Hash("w", k.I, n, i, s))
				if s.n == 0 {
					k.R.Count("passes_with_nothing_to_do", 1)
					continue
				}
				k.R.Count("members_followed", s.n)
				share := total / uint64(n)
				if share > 0 {
					k.R.Max("largest_stretch_percent_of_share", int64((s.hi-s.lo+1)*100/share))
				}
				if s.hi-s.lo > share+largest+uint64(n) {
					k.Violate("share:relindex", fmt.Sprintf("%s: pass %d of %d fills in %d members whose lists start within %d bytes of the index (%d to %d of %d), an even share is %d and the longest list %d", k.Lines[len(k.Lines)-1], i, passes, s.n, s.hi-s.lo, s.lo, s.hi, total, share, largest))
					return
				}
			}
			k.R.Seen("pass_counts", fmt.Sprint(passes))
		}
		if k.I < 2 {
			k.R.Sample(map[string]any{"case": k.I, "location_bytes": total, "longest_list": largest, "pass_counts": fmt.Sprint(counts), "command": k.Lines[0]})
		}
	})
}

// relMembers lists the way members of a relation index, finished or not: a
// member still to be filled in is negative.
func relMembers(b []byte) (out []int64, ok bool) {
	if len(b)%8 != 0 {
		return nil, false
	}
	n := len(b) / 8
	at := func(i int) int64 { return int64(binary.LittleEndian.Uint64(b[8*i:])) }
	for i := 0; i < n; {
		if i+2 > n {
			return nil, false
		}
		cnt := at(i + 1)
		i += 2
		for ; cnt > 0; cnt-- {
			if i >= n {
				return nil, false
			}
			v := at(i)
			i++
			out = append(out, v)
			if v < 0 {
				continue
			}
			if i >= n || at(i) < 0 || at(i) > int64(n-i-1) {
				return nil, false
			}
			i += 1 + int(at(i))
		}
	}
	return out, true
}
