package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"

	. "verif/lib"
)

func init() {
	register("P40", "exploration", p40)
}

var streamCmds = []string{"blockcount", "decompress", "entitycount", "entityfind", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex"}

// alike writes a file of n blocks of the same kind and size.
func (c *Ctx) alike(path, kind string, n, per int) {
	f, err := os.Create(path)
	if err != nil {
		c.Fail("%v", err)
	}
	defer f.Close()
	if _, err := f.Write(headerOnly()); err != nil {
		c.Fail("%v", err)
	}
	one := func(i int) []byte {
		r := NewRng(c.Seed, StrStream(kind), uint64(i))
		b := NewBlock()
		b.Enc.Zlib = i % 2
		g := Group{}
		id := int64(i)*int64(per)*3 + 1
		switch kind {
		case "ways":
			for j := 0; j < per; j++ {
				w := Way{ID: id + int64(j)*3, Tags: []Tag{{K: "highway", V: "path"}}}
				for m := 0; m < 12; m++ {
					w.Refs = append(w.Refs, 1+r.Int64N(1<<33))
				}
				g.Ways = append(g.Ways, w)
			}
		case "relations":
			for j := 0; j < per; j++ {
				w := Rel{ID: id + int64(j)*3, Tags: []Tag{{K: "type", V: "route"}}}
				for m := 0; m < 12; m++ {
					w.Members = append(w.Members, Member{Type: MWay, ID: 1 + r.Int64N(1<<30)})
				}
				g.Rels = append(g.Rels, w)
			}
		default:
			d := &Dense{}
			for j := 0; j < per; j++ {
				nd := Node{ID: id + int64(j)*3, Lat: r.Int64N(1_800_000_000) - 900_000_000, Lon: r.Int64N(3_600_000_000) - 1_800_000_000}
				if j%2 == 0 {
					nd.Tags = []Tag{{K: "highway", V: "crossing"}}
				}
				d.Nodes = append(d.Nodes, nd)
			}
			g.Dense = d
		}
		b.Groups = []Group{g}
		return b.Bytes()
	}
	const batch = 64
	for at := 0; at < n; at += batch {
		m := min(batch, n-at)
		parts := make([][]byte, m)
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := w; i < m; i += 4 {
					parts[i] = one(at + i)
				}
			}(w)
		}
		wg.Wait()
		for _, p := range parts {
			if _, err := f.Write(p); err != nil {
				c.Fail("%v", err)
			}
		}
	}
}

func headerOnly() []byte {
	b := NewBlock()
	b.Type = "OSMHeader"
	b.Opaque = []byte{}
	return b.Bytes()
}

func p40(c *Ctx) {
	c.R.Rule = "the real engine runs with workers that hold their block until let go and a writer that counts or stalls: after every single step the next one due (a block for the idle worker, a result for the writer) is awaited, and what is read during a stall is counted; every command that reads blocks runs on files of alike blocks differing only in their number, the memory of its own (not mapped files) sampled throughout and the maxima compared; an evaluation is one engine run or one command run"
	c.R.Assumptions = append(c.R.Assumptions, "blocks are alike in size, so no worker falls far behind the others; memory is sampled every 3 ms")
	c.shards(3, "stream", "plain", nil, "flow", fmt.Sprint(c.N(60, 1000)))
	c.shards(2, "stream", "plain", nil, "ahead", fmt.Sprint(c.N(60, 1000)))
	c.shards(2, "stream", "jitter", []string{"ZZJIT=4"}, "flow", fmt.Sprint(c.N(16, 300)), "jitter")
	// the size of blocks, how many in the short and in the long file
	type shape struct{ per, few, many int }
	shapes := map[string][]shape{
		"nodes":     {{16000, 100, c.N(1600, 12000)}, {1, 10000, c.N(400000, 4000000)}},
		"ways":      {{4000, 100, c.N(1600, 12000)}, {1, 10000, c.N(400000, 4000000)}},
		"relations": {{4000, 100, c.N(1600, 12000)}, {1, 10000, c.N(400000, 4000000)}},
	}
	kinds := []string{"nodes", "ways", "relations"}
	file := func(kind string, n, per int) string { return fmt.Sprintf("%s/%s-%dx%d.pbf", c.Scratch, kind, n, per) }
	var gw sync.WaitGroup
	for _, kind := range kinds {
		for _, s := range shapes[kind] {
			for _, n := range []int{s.few, s.many} {
				gw.Add(1)
				go func() {
					defer gw.Done()
					defer c.catch()
					c.alike(file(kind, n, s.per), kind, n, s.per)
				}()
			}
		}
	}
	gw.Wait()
	runtime.GC()
	c.Each("memory", 2*len(streamCmds), func(k *Case) {
		cmd := streamCmds[k.I/2]
		kind := map[string]string{"relindex": "relations", "rewritenodes": "ways", "wayindex": "ways", "nodeindex": "nodes"}[cmd]
		if kind == "" {
			kind = kinds[k.Rng.IntN(3)]
		}
		s := shapes[kind][k.I%2]
		if s.per == 1 && (cmd == "rewritenodes" || cmd == "tagfilter") {
			// the two reserve megabytes for every block, and how many of such
			// tiny blocks are under way at once is a matter of scheduling
			return
		}
		locs := map[int64]int64{}
		lists := map[int64][]int64{}
		for i := int64(1); i < 2000; i++ {
			locs[i*7] = -i
			lists[i*5] = []int64{-i, -2 * i}
		}
		k.Write("n.idx", NodeIdxBytes(locs))
		k.Write("w.idx", WayIdxBytes(lists, 3))
		workers := 2 + k.Rng.IntN(3)
		peak := func(n int) int64 {
			args := []string{"-i", file(kind, n, s.per)}
			if cmd != "blockcount" {
				args = append(args, "-w", fmt.Sprint(workers))
			}
			switch cmd {
			case "blockcount", "entitycount":
			case "entityfind":
				args = append(args, "-e", "4")
			default:
				args = append(args, "-o", k.P("out"), "-r", "0")
				defer os.Remove(k.P("out"))
			}
			switch cmd {
			case "rewritenodes":
				args = append(args, "-x", k.P("n.idx"))
			case "relindex":
				args = append(args, "-x", k.P("w.idx"), "-p", "2")
			}
			x := k.Cmd(cmd, args...)
			x.Anon, x.FSize, x.CPU, x.Timeout = true, -1, 900, 600*time.Second
			o := k.Go(x)
			if !o.OK() {
				k.Violate("run", fmt.Sprintf("%s on %d blocks of %d %s: %s", cmd, n, s.per, kind, o.Brief()))
				k.Stop()
			}
			k.R.Count("memory_samples", o.AnonSeen)
			k.R.Eval(Hash(cmd, kind, fmt.Sprint(n, s.per, workers)))
			return o.AnonKB
		}
		a := max(peak(s.few), 32<<10)
		limit := 2*a + 64<<10
		var seen []int64
		for try := 0; try < 6; try++ {
			b := peak(s.many)
			seen = append(seen, b)
			if b <= limit {
				k.R.Count("files_compared", 1)
				k.R.Max("most_memory_kb_of_"+cmd, b)
				k.R.Sample(map[string]any{"command": cmd, "entities": kind, "per_block": s.per, "blocks": []int{s.few, s.many}, "kb": []int64{a, b}})
				return
			}
			k.R.Count("repeated", 1)
		}
		k.Violate("memory", fmt.Sprintf("%s with %d workers needs %d kB for %d blocks of %d %s, but %v kB for %d such blocks", cmd, workers, a, s.few, s.per, kind, seen, s.many))
	})
}
