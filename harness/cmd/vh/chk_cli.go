package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	. "verif/lib"
)

func init() {
	register("P05", "exploration", p05)
	register("P08", "exploration", p08)
	register("P09", "exploration", p09)
	register("P10", "exploration", p10)
	register("P11", "exploration", p11)
	register("P12", "exploration", p12)
	register("P21", "exploration", p21)
	register("P23", "exploration", p23)
}

// only checks the directory holds exactly the named files.
func (k *Case) only(key string, names ...string) bool {
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	es, _ := os.ReadDir(k.Dir)
	var extra []string
	for _, e := range es {
		if !want[e.Name()] {
			extra = append(extra, e.Name())
		}
		delete(want, e.Name())
	}
	var miss []string
	for n := range want {
		miss = append(miss, n)
	}
	if len(extra)+len(miss) > 0 {
		sort.Strings(miss)
		k.Violate(key, fmt.Sprintf("after %s: unexpected files %v, missing files %v", k.Lines[len(k.Lines)-1], extra, miss))
		return false
	}
	return true
}

func (k *Case) parsePBF(name string) *File {
	f, _, err := ParsePBF(k.Read(name))
	if err != nil {
		k.Violate("output-malformed", fmt.Sprintf("%s written by %s is not a well-formed block file: %v", name, k.Lines[len(k.Lines)-1], err))
		k.Stop()
	}
	return f
}

// subsetLocs drops some of a file's nodes from its location table.
func (k *Case) subsetLocs(f *File, keepPct int) map[int64]int64 {
	m := map[int64]int64{}
	for id, l := range f.LocMap() {
		if k.Rng.IntN(100) < keepPct {
			m[id] = l
		}
	}
	return m
}

// fillLocs adds runs of further ids until the table has about total entries.
func (k *Case) fillLocs(m map[int64]int64, f *File, total int) {
	have := map[int64]bool{}
	for _, n := range f.Nodes() {
		have[n.ID] = true
	}
	for _, w := range f.Ways() {
		for _, r := range w.Refs {
			have[r] = true
		}
	}
	var ids []int64
	for id := range have {
		if id > 0 {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	add := func(start, n int64) {
		for i := int64(0); i < n; i++ {
			if !have[start+i] && k.Rng.IntN(50) > 0 {
				m[start+i] = Loc(int32(k.Rng.IntN(2000000000)-1000000000), int32(k.Rng.IntN(1800000000)-900000000))
			}
		}
	}
	per := int64(total/(len(ids)+1)) + 2000
	for i := 0; i+1 < len(ids) && len(m) < total; i++ {
		gap := ids[i+1] - ids[i] - 2
		if gap > 3 && k.Rng.IntN(2) == 0 {
			n := 1 + k.Rng.Int64N(per)
			if n > gap {
				n = gap
			}
			add(ids[i]+1, n)
		}
	}
	last := int64(0)
	if len(ids) > 0 {
		last = ids[len(ids)-1]
	}
	for len(m) < total {
		n := 1 + k.Rng.Int64N(60000)
		last += 2 + k.Rng.Int64N(10)
		add(last, n)
		last += n
	}
}

func p05(c *Ctx) {
	c.R.Rule = "random well-formed PBF files rewritten by the rewritenodes command against node indexes (built by nodeindex or synthesised, covering all, some or none of the references) and of planet size (sparse files of up to 2^32 locations) under memory targets giving 1 to over 1000 passes, several worker counts and lookup timing on and off; every output is decoded independently and compared block by block with the model (references, way ids, tags, nodes, relations with their metadata, order); an evaluation is one output file, distinct by content"
	o0 := CmpOpts{TagOrder: true, Info: true, Scalars: true}
	defer rewritePlanet(c)
	c.Each("files", c.N(700, 4000), func(k *Case) {
		o := k.scen()
		k.anyOrder(&o)
		if k.I%3 == 0 {
			o.Scramble = false
		}
		o.NegRefs = k.Rng.IntN(2) == 0
		if o.Ways == 0 && k.Rng.IntN(4) > 0 {
			o.Ways = 1 + k.Rng.IntN(40)
		}
		if k.Rng.IntN(8) == 0 {
			o.LongWays = 1 + k.Rng.IntN(3)
			if o.Ways < 3 {
				o.Ways = 3
			}
		}
		if k.I%150 == 26 { // one block of many megabytes
			o.Ways, o.MaxRefs, o.BlockMax, o.NegRefs = c.N(700, 3000), 1500, 8000, true
		}
		if k.I >= 60 && k.I < 64 {
			k.R.Seen("heavy", o.Heavy(k.I))
		}
		k.large(&o, LargeBlocks)
		multi := k.I%12 == 7
		if multi {
			o.IDStyle, o.Nodes, o.Ways = []int{IDSparse, IDMix, IDHuge}[k.Rng.IntN(3)], 300, 100
		}
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		var locs map[int64]int64
		switch {
		case multi:
			locs = k.subsetLocs(f, 85)
			k.fillLocs(locs, f, 131072*(1+k.Rng.IntN(c.N(5, 11)))+k.Rng.IntN(100000))
			k.Write("n.idx", NodeIdxBytes(locs))
		case k.I%3 == 0:
			locs = f.LocMap()
			k.OK("nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx", "-w", k.workers())
		default:
			locs = k.subsetLocs(f, []int{0, 30, 80, 100}[k.Rng.IntN(4)])
			k.Write("n.idx", NodeIdxBytes(locs))
		}
		want := f.Rewritten(locs)
		var variants [][]string
		mem := func(m int) []string { return []string{"-m", fmt.Sprint(m)} }
		variants = append(variants, nil)
		if multi {
			variants = append(variants, mem(1), mem(2), append(mem(1), "-t", "1.7"), mem(1000))
		} else if k.I%4 == 0 {
			variants = append(variants, append(mem([]int{1, 50}[k.Rng.IntN(2)]), "-t", "2"))
		}
		for vi, v := range variants {
			a := append([]string{"-r", "0", "-i", "in.pbf", "-o", "o.pbf", "-x", "n.idx", "-w", k.workers()}, v...)
			k.OK("rewritenodes", a...)
			if !k.only("leftover", "in.pbf", "n.idx", "o.pbf") {
				return
			}
			got := k.parsePBF("o.pbf")
			if d := DiffFile(want, got, o0); d != "" {
				k.Violate("content", fmt.Sprintf("rewritenodes %v: %s", v, d))
				return
			}
			passes := 1
			if len(v) > 0 && v[0] == "-m" {
				m, _ := strconv.Atoi(v[1])
				x, _ := ParseNodeIdx(k.Read("n.idx"))
				passes = len(x.Locs)*8/(m<<20) + 1
			}
			k.R.Seen("pass_counts", fmt.Sprint(passes))
			k.R.Eval(Hash(k.Read("o.pbf"), vi))
			_ = os.Remove(k.P("o.pbf"))
		}
		res := 0
		for _, w := range f.Ways() {
			for _, r := range w.Refs {
				if _, ok := locs[r]; ok {
					res++
				}
				k.R.Count("references", 1)
			}
		}
		k.R.Count("references_resolved", int64(res))
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "indexed": len(locs), "resolved": res, "commands": k.Lines})
		}
	})
}

// rewritePlanet runs rewritenodes with indexes of planet size (sparse files)
// and up to a thousand and more passes.
func rewritePlanet(c *Ctx) {
	c.Each("planet", c.N(8, 60), func(k *Case) {
		o := k.scen()
		o.Ways, o.MaxRefs, o.IDStyle = 20+k.Rng.IntN(60), 60, IDSparse
		f := Gen(k.Rng, o)
		_, locs, total, err := SparseNodeIdx(k.P("n.idx"), k.Rng, 200+k.Rng.IntN(400), []uint64{1<<24 - 1, 1 << 22, 1 << 18}[k.Rng.IntN(3)])
		if err != nil {
			k.Fail("sparse index: %v", err)
		}
		defer os.Remove(k.P("n.idx"))
		ids := make([]int64, 0, len(locs))
		for id := range locs {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, b := range f.Blocks {
			for gi := range b.Groups {
				for wi := range b.Groups[gi].Ways {
					rs := b.Groups[gi].Ways[wi].Refs
					at := k.Rng.IntN(len(ids))
					for i := range rs {
						switch k.Rng.IntN(8) {
						case 0: // whatever it was
						case 1:
							rs[i] = ids[k.Rng.IntN(len(ids))] + k.Rng.Int64N(3) - 1
						case 2:
							at = k.Rng.IntN(len(ids))
							fallthrough
						default:
							rs[i] = ids[at]
							at = (at + k.Rng.IntN(3)) % len(ids)
						}
					}
				}
			}
		}
		k.Input("in.pbf", f)
		want := f.Rewritten(locs)
		for _, target := range []uint64{1, []uint64{2, 5, 12}[k.Rng.IntN(3)], []uint64{90, 130, 1003}[k.I%3]} {
			a := []string{"-r", "0", "-i", "in.pbf", "-o", "o.pbf", "-x", "n.idx", "-w", k.workers()}
			passes := uint64(1)
			if target > 1 {
				m := max(1, total*8>>20/target)
				passes = total*8/(m<<20) + 1
				a = append(a, "-m", fmt.Sprint(m))
			}
			k.OK("rewritenodes", a...)
			if !k.only("leftover", "in.pbf", "n.idx", "o.pbf") {
				return
			}
			if d := DiffFile(want, k.parsePBF("o.pbf"), CmpOpts{TagOrder: true, Info: true, Scalars: true}); d != "" {
				k.Violate("content", fmt.Sprintf("rewritenodes in %d passes over %d locations: %s", passes, total, d))
				return
			}
			k.R.Seen("pass_counts", fmt.Sprint(passes))
			k.R.Max("max_index_locations", int64(total))
			k.R.Eval(Hash(k.Read("o.pbf"), passes))
			_ = os.Remove(k.P("o.pbf"))
		}
	})
}

// relPlanet does the same for relindex.
func relPlanet(c *Ctx) {
	c.Each("planet", c.N(8, 60), func(k *Case) {
		o := k.scen()
		o.Rels, o.MaxMembers, o.Nodes = 10+k.Rng.IntN(60), 12, 10
		f := Gen(k.Rng, o)
		shift := k.Rng.IntN(7)
		ids, ways, _, total, err := SparseWayIdx(k.P("w.idx"), k.Rng, 200+k.Rng.IntN(400), shift, 1<<uint(24+k.Rng.IntN(13)))
		if err != nil {
			k.Fail("sparse index: %v", err)
		}
		defer os.Remove(k.P("w.idx"))
		for _, b := range f.Blocks {
			for gi := range b.Groups {
				for ri := range b.Groups[gi].Rels {
					for mi := range b.Groups[gi].Rels[ri].Members {
						if m := &b.Groups[gi].Rels[ri].Members[mi]; m.Type == 1 && k.Rng.IntN(5) > 0 {
							if m.ID = ids[k.Rng.IntN(len(ids))]; k.Rng.IntN(9) == 0 && m.ID > 1 {
								m.ID += k.Rng.Int64N(3) - 1
							}
						}
					}
				}
			}
		}
		k.Input("in.pbf", f)
		want := f.RelIdx(ways)
		for _, p := range []int{1, 2 + k.Rng.IntN(30), []int{99, 130, 1003}[k.I%3]} {
			k.OK("relindex", "-r", "0", "-i", "in.pbf", "-o", "r.idx", "-x", "w.idx", "-p", fmt.Sprint(p), "-w", k.workers())
			if !k.only("leftover", "in.pbf", "w.idx", "r.idx") {
				return
			}
			if d := DiffBytes(want, k.Read("r.idx")); d != "" {
				k.Violate("content", fmt.Sprintf("relindex with %d passes over %d bytes of locations: %s", p, total, d))
				return
			}
			k.R.Eval(Hash(want, p))
			k.R.Seen("pass_counts", fmt.Sprint(p))
			k.R.Max("max_index_bytes", int64(total))
			_ = os.Remove(k.P("r.idx"))
		}
	})
}

func p08(c *Ctx) {
	c.R.Rule = "random relation files run through relindex with way indexes (built by wayindex or synthesised, covering all, some or none of the members, and of planet size as sparse files) at pass counts 1 to 1003 and several worker counts; the output must equal the model's bytes and no other file may remain; an evaluation is one output"
	defer relPlanet(c)
	c.Each("files", c.N(700, 4000), func(k *Case) {
		o := k.scen()
		o.Scramble = k.I%3 > 0 && k.Rng.IntN(3) == 0
		if o.Rels == 0 && k.Rng.IntN(4) > 0 {
			o.Rels = 1 + k.Rng.IntN(40)
		}
		o.MaxMembers = []int{0, 1, 8, 8, 40}[k.Rng.IntN(5)]
		if k.I%30 == 11 {
			o.BigRel = c.N(3000, 30000)
		}
		o.Nodes = []int{0, 10, 100}[k.Rng.IntN(3)]
		// long outputs: members with so many locations that the command writes
		// its output in many pieces of a megabyte and more
		large := k.I%55 == 20
		if large {
			o.Ways, o.Rels, o.MaxMembers, o.BigRel = 60, 200, 40, 0
		}
		if k.large(&o, LargeRel, LargeWay, LargeBlocks) {
			large = false
		}
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		ways := f.WayMap()
		kind := k.I % 3
		if large {
			kind = 3
		}
		switch kind {
		case 0:
			k.OK("wayindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx", "-w", k.workers(), "-a", fmt.Sprint(k.Rng.IntN(6)))
		case 1:
			for id, l := range ways {
				if k.Rng.IntN(3) == 0 {
					delete(ways, id)
				} else if len(l) > 0 && l[0] == 0 {
					delete(ways, id)
				}
			}
			k.Write("w.idx", WayIdxBytes(ways, k.Rng.IntN(5)))
		default: // other lists altogether, some huge
			ways = map[int64][]int64{}
			for id := range f.WayMap() {
				if k.Rng.IntN(5) == 0 {
					continue
				}
				n := k.Rng.IntN(6)
				if k.Rng.IntN(30) == 0 {
					n = 2000
				}
				l := []int64{}
				for i := 0; i < n; i++ {
					v := -k.Rng.Int64()
					if v == 0 || (i > 0 && l[i-1] == v) {
						v = -5 - int64(i)
					}
					l = append(l, v)
				}
				ways[id] = Collapse(l)
			}
			k.Write("w.idx", WayIdxBytes(ways, 3))
		case 3:
			// so many locations per member that the whole output is 1 to 6
			// million values
			n := 0
			for _, r := range f.Rels() {
				for _, m := range r.Members {
					if m.Type == 1 && len(ways[m.ID]) > 0 {
						n++
					}
				}
			}
			per := (1000000 + k.Rng.IntN(5000000)) / max(n, 1)
			for id, l := range ways {
				if len(l) == 0 {
					continue
				}
				l = make([]int64, 0, 2*per)
				for i, m := 0, per/2+k.Rng.IntN(per+1); i < min(m, 100000); i++ {
					l = append(l, -1-k.Rng.Int64N(1<<40))
				}
				ways[id] = Collapse(l)
			}
			k.Write("w.idx", WayIdxBytes(ways, 3))
			k.R.Count("long_outputs", 1)
		}
		want := f.RelIdx(ways)
		for _, p := range []int{1, 2 + k.Rng.IntN(4), 2 + k.Rng.IntN(58)} {
			k.OK("relindex", "-r", "0", "-i", "in.pbf", "-o", "r.idx", "-x", "w.idx", "-p", fmt.Sprint(p), "-w", k.workers())
			if !k.only("leftover", "in.pbf", "w.idx", "r.idx") {
				return
			}
			if d := DiffBytes(want, k.Read("r.idx")); d != "" {
				k.Violate("content", fmt.Sprintf("relindex with %d passes: %s", p, d))
				return
			}
			k.R.Eval(Hash(want, p))
			k.R.Seen("pass_counts", fmt.Sprint(p))
			_ = os.Remove(k.P("r.idx"))
		}
		rs := f.Rels()
		k.R.Count("relations", int64(len(rs)))
		k.R.Max("max_output_bytes", int64(len(want)))
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "ways_indexed": len(ways), "output_bytes": len(want), "commands": k.Lines})
		}
	})
}

func filterTags(ts []Tag) []Tag {
	var out []Tag
	for _, t := range ts {
		if !Discardable(t.K) {
			out = append(out, t)
		}
	}
	return out
}

// diffFiltered compares a tag-filtered file with its source.
func diffFiltered(src, got *File) (key, what string) {
	var hs, hg [][]byte
	for _, b := range src.Blocks {
		if b.Type != "OSMData" {
			hs = append(hs, b.Opaque)
		}
	}
	for _, b := range got.Blocks {
		if b.Type != "OSMData" {
			hg = append(hg, b.Opaque)
		} else if len(b.Strings) == 0 || b.Strings[0] != "" {
			return "string-zero", fmt.Sprintf("a written block's string number 0 is not the empty string (%d strings)", len(b.Strings))
		}
	}
	if len(hs) != len(hg) {
		return "headers", fmt.Sprintf("%d header blocks, want %d", len(hg), len(hs))
	}
	for i := range hs {
		if d := DiffBytes(hs[i], hg[i]); d != "" {
			return "headers", fmt.Sprintf("header block %d: %s", i, d)
		}
	}
	var want []FlatNode
	for _, n := range src.Nodes() {
		if ts := filterTags(n.Tags); len(ts) > 0 {
			n.Tags = ts
			want = append(want, n)
		}
	}
	gn := got.Nodes()
	for i := 0; i < len(want) && i < len(gn); i++ {
		a, b := want[i], gn[i]
		if a.ID != b.ID {
			return "nodes", fmt.Sprintf("node #%d is %d, want %d", i, b.ID, a.ID)
		}
		if a.Lat != b.Lat || a.Lon != b.Lon {
			return "node-position", fmt.Sprintf("node %d at (%d, %d), want (%d, %d)", a.ID, b.Lon, b.Lat, a.Lon, a.Lat)
		}
		if !EqTags(a.Tags, b.Tags, false) {
			return "node-tags", fmt.Sprintf("node %d has tags %q, want %q", a.ID, b.Tags, a.Tags)
		}
	}
	if len(want) != len(gn) {
		return "nodes", fmt.Sprintf("%d nodes, want %d", len(gn), len(want))
	}
	if d := DiffWays(src.Ways(), got.Ways(), CmpOpts{}); d != "" {
		return "ways", d
	}
	if d := DiffRels(src.Rels(), got.Rels(), CmpOpts{}); d != "" {
		return "relations", d
	}
	return "", ""
}

func p09(c *Ctx) {
	c.R.Rule = "random well-formed PBF files (every discard key and prefix, near misses, empty values and roles, any granularity and offset, mixed blocks) filtered by the tagfilter command; the output is decoded independently and every node, way, relation and header compared with the model; an evaluation is one output file"
	c.Each("files", c.N(1200, 6000), func(k *Case) {
		o := k.scen()
		k.anyOrder(&o)
		o.NodeTags = []int{0, 10, 40, 100}[k.Rng.IntN(4)]
		o.NegRefs = k.Rng.IntN(3) == 0
		if k.I%40 == 3 {
			o.Nodes, o.BlockMax = c.N(8000, 30000), 8000
		}
		if k.I%9 == 4 {
			o.LongWays = 2
		}
		if k.I%150 == 26 { // one block of many megabytes
			o.Ways, o.MaxRefs, o.BlockMax, o.NegRefs = c.N(700, 3000), 1500, 8000, true
		}
		if k.I%150 == 51 { // more than 2^16 strings in a block
			o.Nodes, o.Ways, o.Rels, o.BlockMax, o.NodeTags, o.TagFlood = 6000, 6000, 3000, 8000, 90, 10+k.Rng.IntN(20)
		}
		if k.I >= 60 && k.I < 64 {
			k.R.Seen("heavy", o.Heavy(k.I))
		}
		k.large(&o, LargeBlocks, LargePayload)
		f := Gen(k.Rng, o)
		if k.I < 3 { // every list entry and its near misses in one block
			b := NewBlock()
			d := &Dense{}
			id := int64(1)
			all := append(append([]string{}, DiscardKeys...), DiscardPrefixes...)
			for _, key := range all {
				for _, v := range []string{key, key + "x", "x" + key, strings.ToUpper(key), strings.TrimSuffix(key, ":"), key + ":", key + "x:y"} {
					if v == "" {
						continue
					}
					d.Nodes = append(d.Nodes, Node{ID: id, Lat: id, Lon: -id, Tags: []Tag{{K: v, V: "1"}}})
					id++
					d.Nodes = append(d.Nodes, Node{ID: id, Lat: -id, Lon: id, Tags: []Tag{{K: v, V: "1"}, {K: "name", V: ""}}})
					id++
				}
			}
			b.Groups = []Group{{Dense: d}}
			b.Enc.Zlib = k.I
			f = &File{Blocks: []*Block{f.Blocks[0], b}, Desc: "every discard key and near misses"}
		}
		k.Input("in.pbf", f)
		k.OK("tagfilter", "-r", "0", "-i", "in.pbf", "-o", "o.pbf", "-w", k.workers())
		got := k.parsePBF("o.pbf")
		if key, d := diffFiltered(f, got); d != "" {
			k.Violate(key, "tagfilter: "+d)
			return
		}
		for _, b := range got.Blocks {
			if b.Type == "OSMData" {
				n := 0
				for _, g := range b.Groups {
					n += len(g.Ways) + len(g.Rels)
					if g.Dense != nil {
						n += len(g.Dense.Nodes)
					}
				}
				k.R.Count("blocks_written", 1)
			}
		}
		if !k.only("leftover", "in.pbf", "o.pbf") {
			return
		}
		k.R.Eval(Hash(k.Read("o.pbf")))
		k.R.Count("nodes_in", int64(len(f.Nodes())))
		k.R.Count("nodes_kept", int64(len(got.Nodes())))
		k.R.Count("ways", int64(len(got.Ways())))
		k.R.Count("relations", int64(len(got.Rels())))
		if k.I < 4 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "nodes_kept": len(got.Nodes())})
		}
	})
}

// sortLines gives the output's lines in a canonical order.
func sortLines(b []byte) []string {
	ls := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
	sort.Strings(ls)
	return ls
}

var timeLine = regexp.MustCompile(`run time:.*`)

func p10(c *Ctx) {
	c.R.Rule = "random block files (raw, zlib at all levels, stored and flushed streams, empty to multi-megabyte payloads, both block types, unusual field orders) decompressed by the real command; types and payloads compared with the source, the second decompression must be byte-identical and every other command must give the same results on the original and the decompressed file; an evaluation is one decompressed file"
	c.Each("files", c.N(500, 3000), func(k *Case) {
		o := k.scen()
		o.Scramble = k.Rng.IntN(5) == 0
		o.Blank = k.Rng.IntN(2) == 0
		o.Zlib = []int{-1, -1, 0, 1, 6, 9, 10}[k.Rng.IntN(7)]
		if k.I%15 == 5 {
			o.HugeBlock = 1 << (16 + k.Rng.IntN(c.N(6, 9)))
			if o.Nodes == 0 {
				o.Nodes = 5
			}
		}
		k.large(&o, LargeDense, LargeWay, LargeRel, LargeTags, LargeBlocks, LargePayload, LargePayload)
		f := Gen(k.Rng, o)
		in := k.Input("in.pbf", f)
		src, err := SplitFile(in)
		if err != nil {
			k.Fail("generator made a malformed file: %v", err)
		}
		k.OK("decompress", "-r", "0", "-i", "in.pbf", "-o", "d.pbf", "-w", k.workers())
		if !k.only("leftover", "in.pbf", "d.pbf") {
			return
		}
		out := k.Read("d.pbf")
		dst, err := SplitFile(out)
		if err != nil {
			k.Violate("malformed", fmt.Sprintf("decompressed file is malformed: %v", err))
			return
		}
		if len(src) != len(dst) {
			k.Violate("blocks", fmt.Sprintf("%d blocks, want %d", len(dst), len(src)))
			return
		}
		for i := range src {
			d := DiffBytes(src[i].Payload, dst[i].Payload)
			if src[i].Type != dst[i].Type || d != "" || dst[i].Compressed {
				k.Violate("block", fmt.Sprintf("block %d: type %q want %q, compressed=%v, payload: %s", i, dst[i].Type, src[i].Type, dst[i].Compressed, d))
				return
			}
			k.R.Count("payload_bytes", int64(len(src[i].Payload)))
			k.R.Max("max_payload_bytes", int64(len(src[i].Payload)))
			if src[i].Compressed {
				k.R.Count("blocks_compressed", 1)
			} else {
				k.R.Count("blocks_raw", 1)
			}
		}
		k.OK("decompress", "-r", "0", "-i", "d.pbf", "-o", "dd.pbf", "-w", k.workers())
		if d := DiffBytes(out, k.Read("dd.pbf")); d != "" {
			k.Violate("fixed-point", "decompressing the decompressed file changes it: "+d)
			return
		}
		k.R.Eval(Hash(out))
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "blocks": len(src), "bytes_in": len(in), "bytes_out": len(out)})
		}
		if k.I%2 > 0 {
			return
		}
		// the other commands on both
		w := k.workers()
		var ids []string
		for i, n := range f.Nodes() {
			if i%7 == 0 && len(ids) < 40 {
				ids = append(ids, "-e", fmt.Sprint(n.ID))
			}
		}
		for i := 1; i < 10; i++ {
			ids = append(ids, "-e", fmt.Sprint(i))
		}
		type step struct {
			cmd  string
			args []string
			out  string
			mode int // 0 bytes, 1 stdout lines, 2 content
		}
		steps := []step{
			{"blockcount", nil, "", 1}, {"entitycount", nil, "", 1}, {"entityfind", ids, "", 1},
			{"nodeindex", []string{"-r", "0"}, "n", 0}, {"wayindex", []string{"-r", "0"}, "w", 0},
			{"tagfilter", []string{"-r", "0"}, "t", 2}, {"relindex", []string{"-r", "0", "-x", "w-in.pbf"}, "r", 0},
			{"rewritenodes", []string{"-r", "0", "-x", "n-in.pbf"}, "p", 2},
		}
		for _, s := range steps {
			var outs [2][]byte
			for i, in := range []string{"in.pbf", "d.pbf"} {
				a := append([]string{"-i", in, "-w", w}, s.args...)
				if s.out != "" {
					a = append(a, "-o", s.out+"-"+in)
				}
				r := k.OK(s.cmd, a...)
				if s.out != "" {
					outs[i] = k.Read(s.out + "-" + in)
				} else {
					outs[i] = []byte(strings.Join(sortLines(timeLine.ReplaceAll(r.Stdout, nil)), "\n"))
				}
			}
			d := ""
			if s.mode == 2 {
				a, _, e1 := ParsePBF(outs[0])
				b, _, e2 := ParsePBF(outs[1])
				if e1 != nil || e2 != nil {
					d = fmt.Sprint(e1, e2)
				} else {
					d = DiffFile(a, b, CmpOpts{TagOrder: true, Info: true, WayInfo: true, Scalars: true})
				}
			} else {
				d = DiffBytes(outs[0], outs[1])
			}
			if d != "" {
				k.Violate("differs:"+s.cmd, fmt.Sprintf("%s treats the decompressed file differently: %s", s.cmd, d))
				return
			}
			k.R.Count("commands_compared", 1)
		}
	})
}

var (
	statRe  = regexp.MustCompile(`(?m)^(hitHint|hitDefault|missDefault|missDeferred):\s+(\d+)$`)
	countRe = regexp.MustCompile(`(?m)^Counted (\d+) ([a-z ]+?)(?:, (\d+) (?:max|maximum length))?$`)
)

func stats(b []byte) (m map[string]int64, total, hits int64) {
	m = map[string]int64{}
	for _, x := range statRe.FindAllStringSubmatch(string(b), -1) {
		n, _ := strconv.ParseInt(x[2], 10, 64)
		m[x[1]] = n
		total += n
		if strings.HasPrefix(x[1], "hit") {
			hits += n
		}
	}
	return
}

var timesRe = regexp.MustCompile(`(?m)^time: (\d+) (\d+)-(\d+) = (\d+)$`)

// checkTimes judges the lookup times printed: a histogram over the powers of
// the factor.
func (k *Case) checkTimes(out []byte, factor string, lookups int64) string {
	f, _ := strconv.ParseFloat(factor, 64)
	sum, last := int64(0), int64(-1)
	for _, x := range timesRe.FindAllStringSubmatch(string(out), -1) {
		i, _ := strconv.ParseInt(x[1], 10, 64)
		n, _ := strconv.ParseInt(x[4], 10, 64)
		if i <= last {
			return fmt.Sprintf("line %d comes after line %d", i, last)
		}
		last = i
		if n <= 0 {
			return fmt.Sprintf("line %d counts %d", i, n)
		}
		lo, hi := fmt.Sprintf("%.0f", math.Pow(f, float64(i))/3.3), fmt.Sprintf("%.0f", math.Pow(f, float64(i+1))/3.3)
		if x[2] != lo || x[3] != hi {
			return fmt.Sprintf("line %d is for %s-%s ns, want %s-%s", i, x[2], x[3], lo, hi)
		}
		sum += n
	}
	k.R.Count("lookups_timed", sum)
	if sum > lookups {
		return fmt.Sprintf("%d lookups are timed, %d were made", sum, lookups)
	}
	// a time can be missing when the clock jumps
	if lookups >= 200 && sum < lookups/4 {
		return fmt.Sprintf("only %d of %d lookups are timed", sum, lookups)
	}
	return ""
}

// planet counts files with more than 2^32 nodes or way references, and with
// more than 2^16 blocks: one well compressed block repeated.
func planet(c *Ctx) {
	type shape struct {
		name   string
		per, n int // entities of a block, blocks
		w      int
	}
	shapes := []shape{{"blocks", 1, 70000, 8}, {"refs", 31 << 20, 135, 3}, {"nodes", 10 << 20, 415, 4}}
	if c.Thorough {
		shapes = append(shapes, shape{"ways", 4 << 20, 1030, 3})
	}
	par := c.Par
	c.Par = 2
	defer func() { c.Par = par }()
	c.Each("planet", len(shapes), func(k *Case) {
		s := shapes[k.I]
		id := int64(7 + k.Rng.IntN(1000))
		ones := func(n int) []byte { // n times the delta 1
			b := make([]byte, n)
			for i := range b {
				b[i] = 2
			}
			return b
		}
		zeros := func(n int) []byte { return make([]byte, n) }
		var group []byte
		want := map[string][2]int64{"blocks": {int64(s.n) + 1, 0}, "nodes": {}, "ways": {}, "ways refs": {}, "relations": {}}
		total := int64(s.per) * int64(s.n)
		switch s.name {
		case "blocks", "nodes":
			d := PutField(nil, 1, append(PutUvarint(nil, Zig(id)), ones(s.per-1)...))
			d = PutField(d, 8, zeros(s.per))
			d = PutField(d, 9, zeros(s.per))
			group = PutField(nil, 2, d)
			want["nodes"] = [2]int64{total, id + int64(s.per) - 1}
		case "refs":
			w := PutVarField(nil, 1, uint64(id))
			w = PutField(w, 8, append(PutUvarint(nil, Zig(id)), zeros(s.per-1)...))
			group = PutField(nil, 3, w)
			want["ways"] = [2]int64{int64(s.n), id}
			want["ways refs"] = [2]int64{total, int64(s.per)}
		case "ways":
			w := PutField(nil, 3, PutVarField(nil, 1, uint64(id)))
			group = bytes.Repeat(w, s.per)
			want["ways"] = [2]int64{total, id}
		}
		payload := PutField(PutField(nil, 1, PutField(nil, 1, nil)), 2, group)
		e := Enc{Zlib: 6}
		if s.name == "blocks" {
			e = Enc{}
		}
		block := FrameBlob("OSMData", BlobBytes(payload, e), false)
		head := FrameBlob("OSMHeader", BlobBytes(PutField(nil, 4, []byte("OsmSchema-V0.6")), Enc{}), false)
		f, err := os.Create(k.P("in.pbf"))
		if err != nil {
			k.Fail("%v", err)
		}
		bw := bufio.NewWriter(f)
		bw.Write(head)
		for i := 0; i < s.n; i++ {
			bw.Write(block)
		}
		if err := bw.Flush(); err != nil {
			k.Fail("%v", err)
		}
		f.Close()
		for _, cmd := range []string{"blockcount", "entitycount"} {
			x := k.Cmd(cmd, "-i", "in.pbf", "-w", fmt.Sprint(s.w))
			x.CPU, x.Timeout = 3000, 800*time.Second
			r := k.Go(x)
			if !r.OK() {
				k.Violate("fails:"+cmd, fmt.Sprintf("%s failed on a file of %d blocks of %d %s: %s", cmd, s.n, s.per, s.name, r.Brief()))
				return
			}
			k.R.Max("planet_rss_mb", r.MaxRSSKB>>10)
			got := map[string][2]int64{}
			for _, m := range countRe.FindAllStringSubmatch(string(r.Stdout), -1) {
				a, _ := strconv.ParseInt(m[1], 10, 64)
				b := int64(0)
				if m[3] != "" {
					b, _ = strconv.ParseInt(m[3], 10, 64)
				}
				got[m[2]] = [2]int64{a, b}
			}
			for what, v := range want {
				if cmd == "blockcount" && what != "blocks" {
					continue
				}
				if g, ok := got[what]; !ok || g != v {
					k.Violate("count:"+cmd+":"+what, fmt.Sprintf("%s reports %v for %s on a file of %d blocks of %d %s, want %v; output:\n%s", cmd, g, what, s.n, s.per, s.name, v, r.Stdout))
					return
				}
			}
			k.R.Max("planet_"+s.name, total)
			k.R.Eval(Hash(s.name, cmd, k.Seed))
		}
	})
}

func p11(c *Ctx) {
	c.R.Rule = "blockcount and entitycount outputs, and the lookup statistics of rewritenodes and relindex, at 1 to 64 workers compared with independently computed counts on random files, also in a build with random delays before every statement; an evaluation is one command run, distinct by (file, command, workers)"
	planet(c)
	c.Each("merge", c.N(24, 400), p11merge)
	c.Each("files", c.N(400, 3000), func(k *Case) {
		o := k.scen()
		k.anyOrder(&o)
		o.NegRefs = k.Rng.IntN(2) == 0
		if k.I%25 == 12 {
			o.Nodes, o.Ways, o.Rels, o.BlockMax = 3000, 1000, 300, 4
		}
		o.ManyWayIDs = k.Rng.IntN(3) == 0
		k.large(&o, LargeDense, LargeWay, LargeRel, LargeBlocks, LargePayload)
		f := Gen(k.Rng, o)
		in := k.Input("in.pbf", f)
		fh := Hash(in)
		var mn, mw, mr, refs, mrefs int64
		for _, n := range f.Nodes() {
			mn = max(mn, n.ID)
		}
		lookups := int64(0)
		locs := k.subsetLocs(f, 80)
		nb := NodeIdxBytes(locs)
		x, err := ParseNodeIdx(nb)
		if err != nil {
			k.Fail("own index: %v", err)
		}
		filler := map[int64]bool{}
		for _, r := range x.Runs {
			for i := uint64(0); i < r.Count; i++ {
				if x.Locs[r.Offset+i] == 0 {
					filler[int64(r.First+i)] = true
				}
			}
		}
		var resolved, fillRefs int64
		for _, w := range f.Ways() {
			mw = max(mw, w.ID)
			refs += int64(len(w.Refs))
			mrefs = max(mrefs, int64(len(w.Refs)))
			for _, r := range w.Refs {
				if r >= 0 {
					lookups++
					if _, ok := locs[r]; ok {
						resolved++
					} else if filler[r] {
						fillRefs++
					}
				}
			}
		}
		for _, r := range f.Rels() {
			mr = max(mr, r.ID)
		}
		want := map[string][2]int64{
			"blocks": {int64(len(f.Blocks)), 0}, "nodes": {int64(len(f.Nodes())), mn}, "ways": {int64(len(f.Ways())), mw},
			"ways refs": {refs, mrefs}, "relations": {int64(len(f.Rels())), mr},
		}
		ws := []string{"1", k.workers(), fmt.Sprint(2 + k.Rng.IntN(63))}
		for _, w := range ws {
			for _, cmd := range []string{"blockcount", "entitycount"} {
				r := k.OK(cmd, "-i", "in.pbf", "-w", w)
				got := counts(r.Stdout)
				for what, v := range want {
					if cmd == "blockcount" && what != "blocks" {
						continue
					}
					g, ok := got[what]
					if !ok || g != v {
						k.Violate("count:"+cmd+":"+what, fmt.Sprintf("%s -w %s reports %v for %s, want %v; output:\n%s", cmd, w, g, what, v, r.Stdout))
						return
					}
				}
				k.R.Eval(Hash(fh, cmd, w))
			}
		}
		k.Write("n.idx", nb)
		for _, w := range ws {
			r := k.OK("rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "o.pbf", "-x", "n.idx", "-w", w)
			m, total, hits := stats(r.Stdout)
			if len(m) != 4 || total != lookups || hits < resolved || hits > resolved+fillRefs {
				k.Violate("stats:rewritenodes", fmt.Sprintf("rewritenodes -w %s reports %v (total %d, hits %d); performed %d lookups of which %d resolved (%d more met a one-id gap)", w, m, total, hits, lookups, resolved, fillRefs))
				return
			}
			k.R.Eval(Hash(fh, "rewritenodes", w))
			k.R.Count("lookups", lookups)
		}
		{ // the same with times
			factor := []string{"1.001", "1.02", "1.1", "1.5", "2", "3.7", "10", "1000"}[k.Rng.IntN(8)]
			r := k.OK("rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "o.pbf", "-x", "n.idx", "-w", ws[k.Rng.IntN(3)], "-t", factor)
			m, total, hits := stats(r.Stdout)
			if len(m) != 4 || total != lookups || hits < resolved || hits > resolved+fillRefs {
				k.Violate("stats:rewritenodes", fmt.Sprintf("%s reports %v (total %d, hits %d); performed %d lookups of which %d resolved (%d more met a one-id gap)", k.Lines[len(k.Lines)-1], m, total, hits, lookups, resolved, fillRefs))
				return
			}
			if d := k.checkTimes(r.Stdout, factor, lookups); d != "" {
				k.Violate("times:rewritenodes", fmt.Sprintf("%s: %s; output:\n%s", k.Lines[len(k.Lines)-1], d, r.Stdout))
				return
			}
		}
		if o.WideIDs { // more than a way index can hold
			return
		}
		ways := f.WayMap()
		for id := range ways {
			if k.Rng.IntN(6) == 0 {
				delete(ways, id)
			}
		}
		k.Write("w.idx", WayIdxBytes(ways, 3))
		var mem, mhit int64
		for _, r := range f.Rels() {
			for _, m := range r.Members {
				if m.Type == MWay {
					mem++
					if _, ok := ways[m.ID]; ok {
						mhit++
					}
				}
			}
		}
		for _, p := range []int64{1, 2 + k.Rng.Int64N(6)} {
			r := k.OK("relindex", "-r", "0", "-i", "in.pbf", "-o", "r.idx", "-x", "w.idx", "-w", ws[2], "-p", fmt.Sprint(p))
			m, total, hits := stats(r.Stdout)
			// a member is looked up in every pass up to the one that finds it
			lo, hi := mhit+(mem-mhit)*p, mem*p
			if len(m) != 4 || hits != mhit || total < lo || total > hi {
				k.Violate("stats:relindex", fmt.Sprintf("relindex -p %d reports %v (total %d, hits %d); %d members of which %d are in the index: total must be within [%d, %d]", p, m, total, hits, mem, mhit, lo, hi))
				return
			}
			k.R.Eval(Hash(fh, "relindex", p))
			k.R.Count("member_lookups", mem)
		}
		if k.I%20 == 9 { // several passes over the node index
			big := map[int64]int64{}
			for id, l := range locs {
				big[id] = l
			}
			k.fillLocs(big, f, 131072*(1+k.Rng.IntN(4))+1000)
			bb := NodeIdxBytes(big)
			y, _ := ParseNodeIdx(bb)
			passes := int64(len(y.Locs)*8/(1<<20) + 1)
			k.Write("n.idx", bb)
			r := k.OK("rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "o.pbf", "-x", "n.idx", "-w", ws[1], "-m", "1")
			m, total, hits := stats(r.Stdout)
			var res, fill int64
			fl := map[int64]bool{}
			for _, rn := range y.Runs {
				for i := uint64(0); i < rn.Count; i++ {
					if y.Locs[rn.Offset+i] == 0 {
						fl[int64(rn.First+i)] = true
					}
				}
			}
			for _, w := range f.Ways() {
				for _, r := range w.Refs {
					if _, ok := big[r]; ok {
						res++
					} else if fl[r] {
						fill++
					}
				}
			}
			lo, hi := res+(lookups-res)*passes, lookups*passes
			if len(m) != 4 || hits < res || hits > res+fill || total < lo || total > hi {
				k.Violate("stats:rewritenodes:passes", fmt.Sprintf("rewritenodes with %d passes reports %v (total %d, hits %d); %d references, %d resolved, %d in one-id gaps: total must be within [%d, %d]", passes, m, total, hits, lookups, res, fill, lo, hi))
				return
			}
			k.R.Eval(Hash(fh, "rewritenodes-passes", passes))
			k.R.Seen("pass_counts", fmt.Sprint(passes))
		}
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "want": want, "lookups": lookups, "resolved": resolved, "members": mem, "members_found": mhit})
		}
	})
}

func tagMap(ts []Tag) map[string]string {
	m := map[string]string{}
	for _, t := range ts {
		m[t.K] = t.V
	}
	return m
}

// foundLines is what entityfind prints for the requested ids.
func foundLines(f *File, ids map[uint64]bool) []string {
	var out []string
	for _, n := range f.Nodes() {
		if ids[uint64(n.ID)] {
			out = append(out, fmt.Sprintf("&t.HLNode{Id:0x%x, Tags:%#v, Lat:%d, Lon:%d}", uint64(n.ID), tagMap(n.Tags), n.NLat, n.NLon))
		}
	}
	for _, w := range f.Ways() {
		if ids[uint64(w.ID)] {
			var rs []string
			for _, r := range w.Refs {
				rs = append(rs, fmt.Sprintf("0x%x", uint64(r)))
			}
			out = append(out, fmt.Sprintf("&t.HLWay{Id:%d, Tags:%#v, Nodes:[]t.NodeId{%s}}", w.ID, tagMap(w.Tags), strings.Join(rs, ", ")))
		}
	}
	for _, r := range f.Rels() {
		if ids[uint64(r.ID)] {
			roles, ms, ts := []string{}, []int64{}, []int{}
			for _, m := range r.Members {
				roles = append(roles, m.Role)
				ms = append(ms, m.ID)
				ts = append(ts, m.Type)
			}
			out = append(out, fmt.Sprintf("&t.HLRelation{Id:%d, Tags:%#v, Roles:%#v, Members:%#v, MemberType:%#v}", r.ID, tagMap(r.Tags), roles, ms, ts))
		}
	}
	sort.Strings(out)
	return out
}

func counts(stdout []byte) map[string][2]int64 {
	got := map[string][2]int64{}
	for _, m := range countRe.FindAllStringSubmatch(string(stdout), -1) {
		a, _ := strconv.ParseInt(m[1], 10, 64)
		b := int64(0)
		if m[3] != "" {
			b, _ = strconv.ParseInt(m[3], 10, 64)
		}
		got[m[2]] = [2]int64{a, b}
	}
	return got
}

// p11merge has many workers finish together, with delays at random points.
func p11merge(k *Case) {
	k.Var = "jitter"
	o := k.scen()
	o.Nodes, o.Ways, o.Rels, o.BlockMax = 64, 64, 64, 1
	o.IDStyle = -1
	f := Gen(k.Rng, o)
	in := k.Input("in.pbf", f)
	var mn, mw, mr, refs, mrefs int64
	for _, n := range f.Nodes() {
		mn = max(mn, n.ID)
	}
	for _, w := range f.Ways() {
		mw, refs, mrefs = max(mw, w.ID), refs+int64(len(w.Refs)), max(mrefs, int64(len(w.Refs)))
	}
	for _, r := range f.Rels() {
		mr = max(mr, r.ID)
	}
	want := map[string][2]int64{
		"blocks": {int64(len(f.Blocks)), 0}, "nodes": {int64(len(f.Nodes())), mn}, "ways": {int64(len(f.Ways())), mw},
		"ways refs": {refs, mrefs}, "relations": {int64(len(f.Rels())), mr},
	}
	for rep := 0; rep < 30; rep++ {
		w := []string{"4", "16", "48"}[k.Rng.IntN(3)]
		x := k.Cmd("entitycount", "-i", "in.pbf", "-w", w)
		x.Env = []string{"ZZJIT=" + []string{"0", "1", "2"}[rep%3]}
		r := k.Go(x)
		k.R.Eval(Hash(in, "merge", rep))
		k.R.Count("delayed_runs", 1)
		if got := counts(r.Stdout); r.Exit != 0 || fmt.Sprint(got) != fmt.Sprint(want) {
			k.Violate("merge", fmt.Sprintf("entitycount -w %s with delays at random points finds %v, want %v: %s", w, got, want, r.Brief()))
			return
		}
	}
}

func p12(c *Ctx) {
	c.R.Rule = "entityfind on random files for random id sets (present in one, two or three kinds, absent, repeated, extreme) at several worker counts, among them many workers printing long lines at once, also with delays put in before every statement; the multiset of printed lines must equal the model's; an evaluation is one run"
	c.Each("files", c.N(1000, 4000), func(k *Case) {
		o := k.scen()
		k.anyOrder(&o)
		if k.I%3 == 0 { // the kinds share ids
			o.IDStyle, o.Start = IDConsecutive, 1
		}
		o.NegRefs = k.Rng.IntN(2) == 0
		if k.I%100 == 51 { // more than 2^16 strings in a block
			o.Nodes, o.Ways, o.Rels, o.BlockMax, o.NodeTags, o.TagFlood = 6000, 6000, 3000, 8000, 90, 10+k.Rng.IntN(20)
		}
		k.large(&o, LargeDense, LargeWay, LargeRel, LargeBlocks)
		f := Gen(k.Rng, o)
		in := k.Input("in.pbf", f)
		ns, ws, rs := f.Nodes(), f.Ways(), f.Rels()
		for rep := 0; rep < 3; rep++ {
			ids := map[uint64]bool{}
			var args []string
			n := 1 + k.Rng.IntN([]int{1, 4, 30, 100}[k.Rng.IntN(4)])
			for i := 0; i < n; i++ {
				var id uint64
				x := k.Rng.IntN(8)
				switch {
				case x < 2 && len(ns) > 0:
					id = uint64(ns[k.Rng.IntN(len(ns))].ID)
				case x < 4 && len(ws) > 0:
					id = uint64(ws[k.Rng.IntN(len(ws))].ID)
				case x < 6 && len(rs) > 0:
					id = uint64(rs[k.Rng.IntN(len(rs))].ID)
				case x == 6:
					id = k.Rng.Uint64() >> uint(k.Rng.IntN(64))
				default:
					id = uint64(k.Rng.IntN(20))
				}
				ids[id] = true
				args = append(args, "-e", fmt.Sprint(id))
				if k.Rng.IntN(6) == 0 {
					args = append(args, "-e", fmt.Sprint(id))
				}
			}
			w := k.workers()
			r := k.OK("entityfind", append([]string{"-i", "in.pbf", "-w", w}, args...)...)
			want := foundLines(f, ids)
			got := sortLines(r.Stdout)
			if len(r.Stdout) == 0 {
				got = nil
			}
			for i := 0; i < len(want) || i < len(got); i++ {
				a, b := "(nothing)", "(nothing)"
				if i < len(want) {
					a = want[i]
				}
				if i < len(got) {
					b = got[i]
				}
				if a != b {
					k.Violate("found", fmt.Sprintf("entityfind prints %d entities, want %d; first difference: printed\n%s\nwant\n%s", len(got), len(want), Trunc(b, 400), Trunc(a, 400)))
					return
				}
			}
			k.R.Eval(Hash(in, strings.Join(args, " "), w))
			k.R.Count("entities_printed", int64(len(got)))
			k.R.Count("ids_requested", int64(len(ids)))
			if k.I < 2 && rep == 0 {
				k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "requested": args, "printed": len(got)})
			}
		}
	})
	c.Each("long", c.N(16, 200), func(k *Case) {
		o := k.scen()
		o.Nodes, o.Ways, o.Rels, o.BlockMax, o.NodeTags = 90, 90, 60, 1+k.Rng.IntN(3), 90
		o.IDStyle, o.Start = IDConsecutive, 1
		o.TagFlood = []int{20, 150, 500, 2500}[k.Rng.IntN(4)]
		f := Gen(k.Rng, o)
		in := k.Input("in.pbf", f)
		ids := map[uint64]bool{}
		var args []string
		for _, n := range f.Nodes() {
			ids[uint64(n.ID)] = true
		}
		for _, w := range f.Ways() {
			ids[uint64(w.ID)] = true
		}
		for id := range ids {
			args = append(args, "-e", fmt.Sprint(id))
		}
		want := foundLines(f, ids)
		longest := 0
		for _, l := range want {
			longest = max(longest, len(l))
		}
		for rep := 0; rep < 6; rep++ {
			w := fmt.Sprint([]int{2, 4, 8, 16}[k.Rng.IntN(4)])
			k.Var = []string{"plain", "jitter"}[rep%2]
			r := k.OK("entityfind", append([]string{"-i", "in.pbf", "-w", w}, args...)...)
			got := sortLines(r.Stdout)
			for i := 0; i < len(want) || i < len(got); i++ {
				if i >= len(want) || i >= len(got) || want[i] != got[i] {
					a, b := "(nothing)", "(nothing)"
					if i < len(want) {
						a = want[i]
					}
					if i < len(got) {
						b = got[i]
					}
					k.Violate("long", fmt.Sprintf("entityfind -w %s prints %d lines for %d entities (up to %d bytes each); first difference: printed\n%s\nwant\n%s", w, len(got), len(want), longest, Trunc(b, 300), Trunc(a, 300)))
					return
				}
			}
			k.R.Eval(Hash(in, "long", rep, w))
			k.R.Count("long_line_runs", 1)
			k.R.Max("longest_line", int64(longest))
		}
	})
}

func p21(c *Ctx) {
	c.R.Rule = "the whole pipeline (optionally decompress and tagfilter, then nodeindex, rewritenodes, wayindex, relindex) run on random files with random worker counts, alignments, memory targets and pass counts; the final relation index must equal, byte for byte, the geometry computed directly from the source model; an evaluation is one pipeline run"
	c.Each("files", c.N(600, 3000), func(k *Case) {
		o := k.scen()
		o.NegRefs = false
		if o.Rels == 0 && k.Rng.IntN(3) > 0 {
			o.Rels = 10
		}
		if o.Ways == 0 && k.Rng.IntN(3) > 0 {
			o.Ways = 20
		}
		big := k.I%20 == 13
		if big {
			o.Nodes, o.Ways, o.Rels, o.BlockMax, o.IDStyle = c.N(140000, 600000), 300, 60, 8000, IDMix
			o.NodeTags = 2
		}
		if k.large(&o, LargeWay, LargeRel, LargeBlocks) {
			o.NegRefs = false
		}
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		src := "in.pbf"
		if k.Rng.IntN(2) == 0 {
			k.OK("decompress", "-r", "0", "-i", src, "-o", "d.pbf", "-w", k.workers())
			src = "d.pbf"
		}
		k.OK("nodeindex", "-r", "0", "-i", src, "-o", "n.idx", "-w", k.workers())
		later := src
		tf := k.Rng.IntN(2) == 0
		if tf {
			k.OK("tagfilter", "-r", "0", "-i", src, "-o", "t.pbf", "-w", k.workers())
			later = "t.pbf"
		}
		a := []string{"-r", "0", "-i", later, "-o", "p.pbf", "-x", "n.idx", "-w", k.workers()}
		if big || k.Rng.IntN(3) == 0 {
			a = append(a, "-m", "1")
		}
		k.OK("rewritenodes", a...)
		// the rewritten file may be filtered (or decompressed) as well
		waysrc, relsrcs := "p.pbf", []string{src, later, "p.pbf"}
		if k.Rng.IntN(3) == 0 {
			k.OK("tagfilter", "-r", "0", "-i", "p.pbf", "-o", "u.pbf", "-w", k.workers())
			relsrcs = append(relsrcs, "u.pbf")
			if k.Rng.IntN(3) > 0 {
				waysrc = "u.pbf"
			}
		}
		if k.Rng.IntN(4) == 0 {
			k.OK("decompress", "-r", "0", "-i", waysrc, "-o", "v.pbf", "-w", k.workers())
			relsrcs = append(relsrcs, "v.pbf")
			waysrc = "v.pbf"
		}
		k.OK("wayindex", "-r", "0", "-i", waysrc, "-o", "w.idx", "-w", k.workers(), "-a", fmt.Sprint(k.Rng.IntN(7)))
		relsrc := relsrcs[k.Rng.IntN(len(relsrcs))]
		k.OK("relindex", "-r", "0", "-i", relsrc, "-o", "r.idx", "-x", "w.idx", "-w", k.workers(), "-p", fmt.Sprint(1+k.Rng.IntN(5)))
		locs := f.LocMap()
		geo := map[int64][]int64{}
		for _, w := range f.Ways() {
			geo[w.ID] = Collapse(ResolveRefs(w.Refs, locs))
		}
		want := f.RelIdx(geo)
		if d := DiffBytes(want, k.Read("r.idx")); d != "" {
			what := d
			if rs, err := ParseRelIdx(k.Read("r.idx")); err != nil {
				what += "; " + err.Error()
			} else {
				what += fmt.Sprintf("; %d records, want %d relations", len(rs), len(f.Rels()))
			}
			k.Violate("geometry", "final relation index: "+what)
			return
		}
		k.R.Eval(Hash(want, strings.Join(k.Lines, "\n")))
		k.R.Count("bytes_compared", int64(len(want)))
		k.R.Seen("pipelines", fmt.Sprintf("decompress=%v tagfilter=%v ways_from=%s relations_from=%s", src == "d.pbf", tf, waysrc, relsrc))
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "commands": k.Lines, "relidx_bytes": len(want)})
		}
	})
}

var (
	exRe = regexp.MustCompile(`^Extract: ([0-9a-f]+) \((-?[0-9.]+), (-?[0-9.]+)\) \[(\d+)\+(\d+)=(\d+)\]$`)
	seRe = regexp.MustCompile(`^ Search: ([0-9a-f]+) \((-?[0-9.]+), (-?[0-9.]+)\)$`)
)

type dumpLine struct {
	ID   int64
	Loc  int64
	Skip bool
}

func deg(v int32) string { return fmt.Sprintf("%f", float64(v)/1e7) }

// nodeDump reads the output of dumpnodeindex.  Search lines carry no id.
func nodeDump(b []byte) (ex, se []dumpLine, err error) {
	for i, l := range strings.Split(strings.TrimRight(string(b), "\n"), "\n") {
		if l == "" {
			continue
		}
		if l == "Extract: skip" {
			ex = append(ex, dumpLine{Skip: true})
			continue
		}
		if l == " Search: skip" {
			se = append(se, dumpLine{Skip: true})
			continue
		}
		m := exRe.FindStringSubmatch(l)
		s := m == nil
		if s {
			m = seRe.FindStringSubmatch(l)
		}
		if m == nil {
			return nil, nil, fmt.Errorf("line %d: %q", i+1, l)
		}
		u, e := strconv.ParseUint(m[1], 16, 64)
		if e != nil {
			return nil, nil, e
		}
		lon, lat := UnLoc(int64(u))
		if m[2] != deg(lon) || m[3] != deg(lat) {
			return nil, nil, fmt.Errorf("line %d shows (%s, %s) for location %x at (%s, %s)", i+1, m[2], m[3], u, deg(lon), deg(lat))
		}
		d := dumpLine{Loc: int64(u)}
		if s {
			se = append(se, d)
			continue
		}
		a, _ := strconv.ParseInt(m[4], 10, 64)
		o, _ := strconv.ParseInt(m[5], 10, 64)
		d.ID, _ = strconv.ParseInt(m[6], 10, 64)
		if a+o != d.ID {
			return nil, nil, fmt.Errorf("line %d: %q does not add up", i+1, l)
		}
		ex = append(ex, d)
	}
	return
}

func diffDump(want, got []dumpLine, ids bool) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d locations, want %d", len(got), len(want))
	}
	for i := range want {
		a, b := want[i], got[i]
		if !ids || a.Skip {
			a.ID, b.ID = 0, 0
		}
		if a != b {
			return fmt.Sprintf("location #%d is %+v, want %+v", i, b, a)
		}
	}
	return ""
}

func p23(c *Ctx) {
	c.R.Rule = "dumpnodeindex and dumpwayindex run on indexes built by the real commands for all combinations of printing, searching, element ranges and sub-index selections; every printed line is parsed and compared with the independently parsed index file; an evaluation is one dump"
	c.Each("files", c.N(500, 2500), func(k *Case) {
		o := k.scen()
		o.NegRefs = k.Rng.IntN(2) == 0
		k.large(&o, LargeWay, LargeIDs)
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		k.OK("nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx", "-w", k.workers())
		x, err := ParseNodeIdx(k.Read("n.idx"))
		if err != nil {
			k.Violate("layout", fmt.Sprintf("node index malformed: %v", err))
			return
		}
		expect := func(from, to int) (ls []dumpLine) {
			for e := from; e < to && e < len(x.Runs); e++ {
				for i := uint64(0); i < x.Runs[e].Count; i++ {
					l := x.Locs[x.Runs[e].Offset+i]
					ls = append(ls, dumpLine{ID: int64(x.Runs[e].First + i), Loc: l, Skip: l == 0})
				}
			}
			return
		}
		dump := func(extra ...string) ([]dumpLine, []dumpLine, bool) {
			r := k.OK("dumpnodeindex", append([]string{"-i", "n.idx"}, extra...)...)
			ex, se, err := nodeDump(r.Stdout)
			if err != nil {
				k.Violate("node-dump", fmt.Sprintf("dumpnodeindex %v: %v", extra, err))
				return nil, nil, false
			}
			k.R.Eval(Hash(r.Stdout, strings.Join(extra, " ")))
			k.R.Count("locations_printed", int64(len(ex)+len(se)))
			return ex, se, true
		}
		all := expect(0, len(x.Runs))
		check := func(what string, want, ex, se []dumpLine, p, s bool) bool {
			if !p && len(ex) > 0 || !s && len(se) > 0 {
				k.Violate("node-dump", what+": prints locations that were not asked for")
				return false
			}
			if p {
				if d := diffDump(want, ex, true); d != "" {
					k.Violate("node-dump", what+": printed "+d)
					return false
				}
			}
			if s {
				if d := diffDump(want, se, false); d != "" {
					k.Violate("node-search", what+": searched "+d)
					return false
				}
			}
			return true
		}
		for mode := 0; mode < 4; mode++ {
			var a []string
			if mode&1 != 0 {
				a = append(a, "-p")
			}
			if mode&2 != 0 {
				a = append(a, "-s")
			}
			ex, se, ok := dump(a...)
			if !ok || !check(fmt.Sprintf("dumpnodeindex %v", a), all, ex, se, mode&1 != 0, mode&2 != 0) {
				return
			}
		}
		for rep := 0; rep < 3; rep++ { // element ranges
			from, to := 0, len(x.Runs)
			var a []string
			if k.Rng.IntN(3) > 0 {
				from = k.Rng.IntN(len(x.Runs) + 1)
				a = append(a, "--start-element", fmt.Sprint(from))
			}
			if k.Rng.IntN(3) > 0 {
				to = k.Rng.IntN(len(x.Runs) + 3)
				a = append(a, "--end-element", fmt.Sprint(to))
			}
			ex, se, ok := dump(append(a, "-p", "-s")...)
			if !ok || !check(fmt.Sprintf("dumpnodeindex %v", a), expect(from, to), ex, se, true, true) {
				return
			}
		}
		if n := len(x.Locs); n > 0 {
			for _, cnt := range []int{1, 2, 1 + k.Rng.IntN(min(n, 12)), min(n, 8)} {
				if cnt > n {
					continue
				}
				var pe, ps []dumpLine
				at := 0 // elements before this part
				for i := 0; i < cnt; i++ {
					ex, se, ok := dump("-p", "-s", "--sub-index-index", fmt.Sprint(i), "--sub-index-count", fmt.Sprint(cnt))
					if !ok {
						return
					}
					if d := diffDump(ex, se, false); d != "" {
						k.Violate("node-parts", fmt.Sprintf("part %d of %d: search and print differ: %s", i, cnt, d))
						return
					}
					pe, ps = append(pe, ex...), append(ps, se...)
					end, n := at, 0
					for ; end < len(x.Runs) && n < len(ex); end++ {
						n += int(x.Runs[end].Count)
					}
					if n != len(ex) {
						continue // parts that are not made of whole runs have no elements to count
					}
					if end > at && k.Rng.IntN(3) == 0 { // a range of elements of this part
						from, to := k.Rng.IntN(end-at+1), k.Rng.IntN(end-at+2)
						args := []string{"--start-element", fmt.Sprint(from), "--end-element", fmt.Sprint(to), "-p", "-s", "--sub-index-index", fmt.Sprint(i), "--sub-index-count", fmt.Sprint(cnt)}
						re, rs, ok := dump(args...)
						if !ok || !check(fmt.Sprintf("dumpnodeindex %v", args), expect(at+from, min(at+to, end)), re, rs, true, true) {
							return
						}
						k.R.Count("ranges_of_parts", 1)
					}
					at = end
				}
				if !check(fmt.Sprintf("dumpnodeindex: the %d parts together", cnt), all, pe, ps, true, true) {
					return
				}
				k.R.Seen("part_counts", fmt.Sprint(cnt))
			}
		}

		k.OK("wayindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx", "-w", k.workers(), "-a", fmt.Sprint(k.Rng.IntN(6)))
		y, err := ParseWayIdx(k.Read("w.idx"))
		if err != nil {
			k.Violate("layout", fmt.Sprintf("way index malformed: %v", err))
			return
		}
		line := func(e WayEnt) string {
			l := e.Locs
			if l == nil {
				l = []int64{}
			}
			return fmt.Sprintf("%d %v", e.ID, l)
		}
		wdump := func(extra ...string) []string {
			r := k.OK("dumpwayindex", append([]string{"-i", "w.idx"}, extra...)...)
			k.R.Eval(Hash(r.Stdout, strings.Join(extra, " "), "w"))
			if len(r.Stdout) == 0 {
				return nil
			}
			return strings.Split(strings.TrimRight(string(r.Stdout), "\n"), "\n")
		}
		same := func(what string, want, got []string) bool {
			for i := 0; i < len(want) || i < len(got); i++ {
				if i >= len(want) || i >= len(got) || want[i] != got[i] {
					a, b := "(nothing)", "(nothing)"
					if i < len(want) {
						a = want[i]
					}
					if i < len(got) {
						b = got[i]
					}
					k.Violate("way-dump", fmt.Sprintf("%s: line %d is %q, want %q", what, i+1, Trunc(b, 300), Trunc(a, 300)))
					return false
				}
			}
			return true
		}
		var once, twice []string
		for _, e := range y.Ways {
			once = append(once, line(e))
			twice = append(twice, line(e), line(e))
		}
		if !same("dumpwayindex", nil, wdump()) || !same("dumpwayindex -p", once, wdump("-p")) || !same("dumpwayindex -s", once, wdump("-s")) ||
			!same("dumpwayindex -p -s", twice, wdump("-p", "-s")) {
			return
		}
		if n := len(y.Ways); n > 0 {
			for _, cnt := range []int{1, min(2, n), 1 + k.Rng.IntN(min(n, 12))} {
				found := make([]int, n)
				for i := 0; i < cnt; i++ {
					ls := wdump("-s", "--sub-index-index", fmt.Sprint(i), "--sub-index-count", fmt.Sprint(cnt))
					if len(ls) != n {
						k.Violate("way-parts", fmt.Sprintf("part %d of %d prints %d lines for %d ways", i, cnt, len(ls), n))
						return
					}
					for j, e := range y.Ways {
						switch ls[j] {
						case line(e):
							found[j]++
						case fmt.Sprintf("XX failed to find way %d", e.ID):
						default:
							k.Violate("way-parts", fmt.Sprintf("part %d of %d prints %q for way %d", i, cnt, Trunc(ls[j], 300), e.ID))
							return
						}
					}
				}
				for j, e := range y.Ways {
					if found[j] != 1 {
						k.Violate("way-parts", fmt.Sprintf("way %d is found in %d of the %d parts", e.ID, found[j], cnt))
						return
					}
				}
			}
		}
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "runs": len(x.Runs), "ways": len(y.Ways)})
		}
	})
}
