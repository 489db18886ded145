package main

import (
	"encoding/binary"
	"fmt"
	"sort"

	. "verif/lib"
)

func init() {
	register("P03", "exploration", p03)
	register("P04", "exploration", p04)
	register("P06", "exploration", p06)
	register("P07", "exploration", p07)
	register("P22", "exploration", p22)
}

// scen picks a file size and shape for case i: mostly small, some larger, and
// the first few fixed corner shapes.
func (k *Case) scen() GenOpts {
	r := k.Rng
	o := DefaultGen()
	o.Nodes = []int{0, 1, 2, 5, 20, 60, 60, 200, 800}[r.IntN(9)]
	o.Ways = []int{0, 1, 3, 10, 25, 25, 100, 300}[r.IntN(8)]
	o.Rels = []int{0, 1, 3, 12, 12, 60}[r.IntN(6)]
	o.BlockMax = []int{1, 2, 5, 20, 100, 8000}[r.IntN(6)]
	o.MaxRefs = []int{0, 2, 12, 12, 60, 200}[r.IntN(6)]
	o.NegRefs = r.IntN(3) == 0
	o.Plain = r.IntN(8) == 0
	o.Blank = r.IntN(5) == 0
	o.Interleave = r.IntN(4) == 0
	o.Strings = r.IntN(6) == 0
	return o
}

// large makes cases 100 and on large in the given respects.
func (k *Case) large(o *GenOpts, kinds ...int) bool {
	e := k.I - 100
	if e >= 400 {
		e = e % 400
	}
	if e < 0 || e >= len(kinds) {
		return false
	}
	k.R.Seen("large", o.Large(kinds[e], k.Rng))
	return true
}

// anyOrder makes a file whose ids and block order no index needs.
func (k *Case) anyOrder(o *GenOpts) {
	o.WideIDs = k.Rng.IntN(3) == 0
	o.Scramble = k.Rng.IntN(4) == 0
}

func putPairs(m map[int64]int64) []byte {
	var ids []int64
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var b []byte
	for _, id := range ids {
		b = binary.LittleEndian.AppendUint64(b, uint64(id))
		b = binary.LittleEndian.AppendUint64(b, uint64(m[id]))
	}
	return b
}

func putLists(m map[int64][]int64) []byte {
	var ids []int64
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var b []byte
	for _, id := range ids {
		b = binary.LittleEndian.AppendUint64(b, uint64(id))
		b = binary.LittleEndian.AppendUint64(b, uint64(len(m[id])))
		for _, v := range m[id] {
			b = binary.LittleEndian.AppendUint64(b, uint64(v))
		}
	}
	return b
}

func (k *Case) workers() string { return fmt.Sprint([]int{1, 2, 3, 8, 24}[k.Rng.IntN(5)]) }

// nodeIndexCase builds a node index with the real command and has the lookup
// driver judge it.
func (k *Case) nodeIndexCase(o GenOpts, passes int) {
	f := Gen(k.Rng, o)
	k.Input("in.pbf", f)
	exp := putPairs(f.LocMap())
	k.Write("expect", exp)
	k.OK("nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx", "-w", k.workers())
	k.Drive("lookup", "plain", "nodes", "n.idx", "expect", fmt.Sprint(passes), fmt.Sprint(k.Rng.IntN(1<<30)))
	if k.I < 3 {
		k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "node_ids": firstIDs(f.Nodes()), "commands": k.Lines})
	}
	k.R.Seen("block_counts", fmt.Sprint(len(f.Blocks)))
}

func firstIDs(ns []FlatNode) []int64 {
	var out []int64
	for i, n := range ns {
		if i >= 10 {
			break
		}
		out = append(out, n.ID)
	}
	return out
}

func p03(c *Ctx) {
	c.R.Rule = "random well-formed PBF files (id gap styles, starts, block and group splits, granularities and offsets) indexed by the nodeindex command; every indexed id and the ids around and far from them are looked up through the project's reader under several hints and compared with positions computed independently; an evaluation is one (index, pass count) and is distinct by the expected id-to-location table"
	c.Each("files", c.N(1000, 4000), func(k *Case) {
		o := k.scen()
		o.Ways, o.Rels = k.Rng.IntN(4), k.Rng.IntN(3)
		if o.Nodes == 0 && k.I > 0 {
			o.Nodes = 1 + k.Rng.IntN(300)
		}
		// every gap style from every small start first
		if k.I < idStyleCount*4 {
			o.IDStyle = k.I % idStyleCount
			o.Start = int64([]int{1, 2, 3, 4}[k.I/idStyleCount])
			o.Nodes = 40
			o.BlockMax = []int{1, 3, 7, 100}[k.Rng.IntN(4)]
		}
		if k.I%50 == 49 {
			o.Nodes, o.BlockMax = c.N(20000, 60000), 8000
		}
		if e := k.I - 50; e >= 0 && e < 6 { // locations just short of, exactly and just beyond whole megabytes
			o.Nodes, o.BlockMax, o.IDStyle = 131072*(1+e/3)+e%3-1, 8000, IDConsecutive
		}
		k.large(&o, LargeDense, LargeBlocks, LargeIDs, LargeIDs)
		k.nodeIndexCase(o, 0)
	})
}

const idStyleCount = 7

func p04(c *Ctx) {
	c.R.Rule = "node indexes built by the nodeindex command; for pass counts from 1 up to the number of stored locations every indexed id is looked up in every pass (random and carried-over hints), found passes are counted per id and each pass's share is measured; an evaluation is one (index, pass count)"
	c.shards(2, "giant", "plain", nil, "nodes", fmt.Sprint(c.N(2, 40)))
	c.Each("files", c.N(500, 2500), func(k *Case) {
		o := k.scen()
		o.Ways, o.Rels = 0, 0
		o.Nodes = []int{1, 2, 3, 10, 40, 120, 300}[k.Rng.IntN(7)]
		if k.I < idStyleCount*2 {
			o.IDStyle = k.I % idStyleCount
			o.Nodes = 30
			o.Start = int64(1 + k.I/idStyleCount)
		}
		if k.I%40 == 39 {
			o.Nodes = 4000
		}
		k.large(&o, LargeIDs)
		k.nodeIndexCase(o, 14)
	})
}

func (k *Case) wayIndexCase(o GenOpts, passes int, align ...string) {
	f := Gen(k.Rng, o)
	k.Input("in.pbf", f)
	k.Write("expect", putLists(f.WayMap()))
	args := []string{"-r", "0", "-i", "in.pbf", "-o", "w.idx", "-w", k.workers()}
	if len(align) > 0 {
		args = append(args, "-a", align[0])
	} else if a := []int{-1, 0, 1, 2, 3, 4, 6, 8}[k.Rng.IntN(8)]; a >= 0 {
		args = append(args, "-a", fmt.Sprint(a))
	}
	k.OK("wayindex", args...)
	k.Drive("lookup", "plain", "ways", "w.idx", "expect", fmt.Sprint(passes), fmt.Sprint(k.Rng.IntN(1<<30)))
	if ws := f.Ways(); k.I < 3 && len(ws) > 0 {
		k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "first_way": ws[0].ID, "first_refs": ws[0].Refs, "commands": k.Lines})
	}
}

func (k *Case) wayScen() GenOpts {
	r := k.Rng
	o := k.scen()
	o.Nodes = []int{0, 3, 40}[r.IntN(3)]
	o.Rels = 0
	if o.Ways == 0 && r.IntN(3) > 0 {
		o.Ways = 1 + r.IntN(50)
	}
	o.NegRefs = r.IntN(2) == 0
	o.ManyWayIDs = r.IntN(4) == 0
	o.Presence = []int{0, 15, 60}[r.IntN(3)]
	if r.IntN(5) == 0 {
		o.LongWays = 1 + r.IntN(3)
	}
	if r.IntN(20) == 0 {
		o.HeavyWay = 2001 << r.IntN(6)
	}
	return o
}

func p06(c *Ctx) {
	c.R.Rule = "random well-formed PBF files (reference values plain, locations, mixed, repeated, absent; 0 to 700000 references; ids up to 2^31-1) indexed by the wayindex command at alignments 0..8 and some up to 23; every way and the ids around and far from them are looked up through the project's reader under several hints and compared with independently collapsed lists"
	c.Each("files", c.N(1300, 4000), func(k *Case) {
		o := k.wayScen()
		if k.I%60 == 59 {
			o.Ways = c.N(5000, 20000)
		}
		if e := k.I - 60; e >= 0 && e < 6 { // lists just short of, exactly and just beyond whole megabytes
			o.Ways, o.MaxRefs, o.LongWays, o.Presence = 4096*(1+e/3)+e%3-1, 3, 0, 0
			k.wayIndexCase(o, 0, "8")
			return
		}
		if e := k.I - 70; e >= 0 && e < 14 { // padding of up to many megabytes
			a := []int{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23}[e]
			o.Ways, o.HeavyWay, o.LongWays, o.Presence = 1+k.Rng.IntN(min(300, 1<<25>>a)), 0, e%2, 0
			k.wayIndexCase(o, 0, fmt.Sprint(a))
			return
		}
		k.large(&o, LargeWay, LargeBlocks)
		k.wayIndexCase(o, 0)
	})
}

func p07(c *Ctx) {
	c.R.Rule = "way indexes built by the wayindex command; for pass counts from 1 up to the number of ways every way is looked up in every pass (random and carried-over hints), found passes are counted per way and each pass's share of the location bytes is measured; an evaluation is one (index, pass count)"
	c.shards(2, "giant", "plain", nil, "ways", fmt.Sprint(c.N(2, 40)))
	c.Each("files", c.N(700, 2500), func(k *Case) {
		o := k.wayScen()
		if o.Ways > 150 && k.I%10 != 0 {
			o.Ways = 1 + k.Rng.IntN(150)
		}
		k.large(&o, LargeWay)
		k.wayIndexCase(o, 14)
	})
}

func p22(c *Ctx) {
	c.R.Rule = "files written by nodeindex, wayindex and relindex are parsed by an independent strict reader that checks every rule of ENCODING.md (header, counts, ordering, tiling, alignment, bounds, termination, padding, nothing left over) and yields exactly the expected contents; node indexes re-stamped with other version numbers must be refused by every reader; an evaluation is one index file, distinct by content"
	c.Each("files", c.N(900, 4000), func(k *Case) {
		o := k.scen()
		k.large(&o, LargeDense, LargeWay, LargeRel, LargeBlocks, LargeIDs)
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		k.OK("nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx", "-w", k.workers())
		nb := k.Read("n.idx")
		x, err := ParseNodeIdx(nb)
		if err != nil {
			k.Violate("node-layout", fmt.Sprintf("node index does not follow ENCODING.md: %v", err))
			return
		}
		want := f.LocMap()
		got := x.Map()
		if len(got) != len(want) {
			k.Violate("node-content", fmt.Sprintf("node index holds %d nodes, file has %d", len(got), len(want)))
			return
		}
		for id, l := range want {
			if got[id] != l {
				k.Violate("node-content", fmt.Sprintf("node %d stored as %#x, want %#x", id, uint64(got[id]), uint64(l)))
				return
			}
		}
		k.R.Eval(Hash(nb))
		k.R.Count("node_index_runs", int64(len(x.Runs)))
		a := []int{0, 1, 3, 3, 4, 7}[k.Rng.IntN(6)]
		if k.I%20 == 11 && o.Ways < 300 {
			a = 9 + k.Rng.IntN(9)
		}
		k.OK("wayindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx", "-w", k.workers(), "-a", fmt.Sprint(a))
		wb := k.Read("w.idx")
		w, err := ParseWayIdx(wb)
		if err == nil && w.Shift != a {
			err = fmt.Errorf("alignment shift %d, requested %d", w.Shift, a)
		}
		if err != nil {
			k.Violate("way-layout", fmt.Sprintf("way index does not follow ENCODING.md: %v", err))
			return
		}
		ways := f.WayMap()
		if len(w.Ways) != len(ways) {
			k.Violate("way-content", fmt.Sprintf("way index holds %d ways, file has %d", len(w.Ways), len(ways)))
			return
		}
		for _, e := range w.Ways {
			if l, ok := ways[e.ID]; !ok || !EqI64(l, e.Locs) {
				k.Violate("way-content", fmt.Sprintf("way %d stored as %v, want %v", e.ID, e.Locs, l))
				return
			}
		}
		k.R.Eval(Hash(wb))
		k.R.Count("way_index_lists", int64(len(w.Ways)))
		{
			k.OK("relindex", "-r", "0", "-i", "in.pbf", "-o", "r.idx", "-x", "w.idx", "-p", "1", "-w", k.workers())
			rb := k.Read("r.idx")
			rs, err := ParseRelIdx(rb)
			if err != nil {
				k.Violate("rel-layout", fmt.Sprintf("relation index does not follow the layout: %v", err))
				return
			}
			if d := DiffBytes(f.RelIdx(ways), rb); d != "" {
				k.Violate("rel-content", "relation index: "+d)
				return
			}
			k.R.Eval(Hash(rb))
			k.R.Count("rel_index_records", int64(len(rs)))
		}
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "node_index_bytes": len(nb), "way_index_bytes": len(wb), "alignment": a})
		}
		if k.I%4 == 0 && len(want) > 0 && len(ways) > 0 {
			v := []int64{0, 2, 3, -1, 256, 1 << 32, 1<<32 + 1, 1 << 56, 1<<56 | 1, int64(len(want)), -1 << 63, k.Rng.Int64()}[k.Rng.IntN(12)]
			if v != 1 {
				bad := append([]byte{}, nb...)
				binary.LittleEndian.PutUint64(bad, uint64(v))
				k.Write("bad.idx", bad)
				o1 := k.Run("rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "o.pbf", "-x", "bad.idx")
				o2 := k.Run("dumpnodeindex", "-i", "bad.idx")
				if o1.OK() || o2.OK() {
					k.Violate(fmt.Sprintf("version:%d", v), fmt.Sprintf("a node index with version %d is accepted (rewritenodes exit %d, dumpnodeindex exit %d)", v, o1.Exit, o2.Exit))
					return
				}
				k.R.Count("foreign_versions_refused", 1)
				k.R.Seen("versions", fmt.Sprint(v))
			}
		}
	})
}
