package main

import (
	"bufio"
	"bytes"
	"compress/flate"
	"encoding"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/adler32"
	"os"
	"sync"
	"time"

	. "verif/lib"
)

func init() {
	register("P01", "exploration", p01)
	register("P13", "exploration", p13)
	register("P14", "exploration", p14)
	register("P15", "exploration", p15)
	register("P20", "exploration", p20)
	register("P25", "exploration", p25)
	register("P26", "exploration", p26)
	register("P27", "exploration", p27)
	register("P31", "exploration", p31)
}

// noRaceExit leaves data races to P16.
var noRaceExit = []string{"GORACE=halt_on_error=0 exitcode=0"}

// shards runs a driver n times in parallel with different random streams.
func (c *Ctx) shards(n int, name, variant string, envs []string, args ...string) {
	c.Driver(name, variant)
	if n > 1 {
		c.Extra["counting"] = "distinct counts are taken per process and added up over processes with different random streams; fixed boundary values recur in each"
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer c.catch()
			c.RunDriver(name, variant, envs, append(append([]string{}, args...), fmt.Sprintf("seed=%d", i))...)
		}(i)
	}
	wg.Wait()
}

func (c *Ctx) catch() {
	if e := recover(); e != nil {
		if in, ok := e.(inconclusive); ok {
			c.R.Unclear("%s", in.msg)
			return
		}
		c.R.Unclear("harness panic: %v", e)
	}
}

func p01(c *Ctx) {
	c.R.Rule = "generated block files run through the real block-processing engine with recording workers and writer whose finishing order is held to fifo, lifo, starved-first, batched and random orders as well as left free; the recorded trace (delivery, result, written, ended, finished) is judged for exactly-once delivery, bytes, type, order and completion; an evaluation is one run, distinct by its whole event trace"
	c.shards(4, "pipeline", "plain", nil, "order", fmt.Sprint(c.N(500, 8000)))
	c.shards(2, "pipeline", "plain", []string{"GOMAXPROCS=1"}, "order", fmt.Sprint(c.N(150, 3000)), "one")
	c.shards(1, "giant", "plain", nil, "blocks", fmt.Sprint(c.N(2, 30)))
	c.shards(1, "pipeline", "race", noRaceExit, "order", fmt.Sprint(c.N(100, 1500)), "race")
	c.shards(4, "pipeline", "jitter", nil, "order", fmt.Sprint(c.N(200, 4000)), "jitter")
}

func p13(c *Ctx) {
	c.R.Rule = "boundary, systematic and random values and lists put through every encoder and decoder of the wire codec, appended after random prefixes and followed by random bytes, compared with an independent codec; lengths beyond the reserved field must be refused; an evaluation is one encode or decode, distinct by value or list"
	c.shards(8, "codec", "plain", nil)
}

func p14(c *Ctx) {
	c.R.Rule = "generated data blocks in every encoding choice read through the project's reader with all 16 combinations of parts left raw and written back, and entities assembled into new blocks; results decoded by an independent decoder and compared in order; an evaluation is one block and combination or one assembled block, distinct by its bytes"
	c.shards(4, "model", "plain", nil)
}

func p15(c *Ctx) {
	c.R.Rule = "boundary, systematic (power-of-two neighbourhoods, stripes over the whole range) and random coordinates through the location code compared with a bit-by-bit reference, and files of boundary coordinates through the nodeindex command with the stored bits checked; an evaluation is one coordinate pair"
	c.shards(8, "morton", "plain", nil)
	var lons, lats []int64
	add := func(v int64) {
		for d := int64(-1); d <= 1; d++ {
			x := v + d
			if x >= -1800000000 && x <= 1800000000 {
				lons = append(lons, x)
			}
			if x >= -900000000 && x <= 900000000 {
				lats = append(lats, x)
			}
		}
	}
	for b := 0; b < 31; b++ {
		add(1 << b)
		add(-1 << b)
	}
	for _, v := range []int64{0, 1800000000, -1800000000, 900000000, -900000000, 1200000000, -1200000000, 0x55555555, 0x2aaaaaaa, -0x55555555} {
		add(v)
	}
	c.Each("files", c.N(12, 150), func(k *Case) {
		f := &File{}
		b0 := NewBlock()
		b0.Type = "OSMHeader"
		b0.Opaque = []byte{}
		f.Blocks = append(f.Blocks, b0)
		id := int64(k.Rng.IntN(3)) + 1
		n := 0
		for n < 9000 {
			b := NewBlock()
			var d Dense
			switch k.Rng.IntN(3) {
			case 1:
				b.Gran = 1
			case 2:
				b.LatOff, b.LonOff = int64(k.Rng.IntN(2000001)-1000000)*100, int64(k.Rng.IntN(2000001)-1000000)*100
			}
			for i := 0; i < 2000; i++ {
				lo, la := lons[k.Rng.IntN(len(lons))], lats[k.Rng.IntN(len(lats))]
				if k.Rng.IntN(3) == 0 {
					lo = k.Rng.Int64N(3600000001) - 1800000000
				}
				if k.Rng.IntN(3) == 0 {
					la = k.Rng.Int64N(1800000001) - 900000000
				}
				d.Nodes = append(d.Nodes, Node{ID: id, Lat: (la*100 - b.LatOff) / int64(b.Gran), Lon: (lo*100 - b.LonOff) / int64(b.Gran)})
				id += int64(1 + k.Rng.IntN(3)*k.Rng.IntN(2))
				n++
			}
			b.Groups = []Group{{Dense: &d}}
			f.Blocks = append(f.Blocks, b)
		}
		k.Input("in.pbf", f)
		k.OK("nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx", "-w", k.workers())
		x, err := ParseNodeIdx(k.Read("n.idx"))
		if err != nil {
			k.Violate("node-layout", fmt.Sprintf("node index does not follow ENCODING.md: %v", err))
			return
		}
		got := x.Map()
		for _, nd := range f.Nodes() {
			v, ok := got[nd.ID]
			e, o := Deinterleave(uint64(v))
			// longitude in the even bits; latitude in the odd bits, of which
			// the topmost marks a location
			if !ok || v >= 0 || int32(e) != nd.Lon || int32(o<<1)>>1 != nd.Lat {
				k.Violate("stored-location", fmt.Sprintf("node %d at (%d,%d)e-7 is stored as %#x (present %v)", nd.ID, nd.Lon, nd.Lat, uint64(v), ok))
				return
			}
			k.R.Count("stored_locations", 1)
		}
		k.R.Eval(Hash(k.Read("n.idx")))
	})
}

func p20(c *Ctx) {
	c.R.Rule = "values inside, at and beyond the field limits (and up to the full 64-bit range) packed into node-run and way index entries; each result must read back exactly or the call must be refused, and values that fit must not be refused; the index commands on data at and beyond the limits must be right or refuse; an evaluation is one packing or command run"
	c.shards(8, "pack", "plain", nil)
	c.Each("runs", c.N(4, 12), p20run)
	c.Each("lists", 1, p20lists)
}

// p20run gives nodeindex a block whose run of ids just fits or just does not
// fit the count field.
func p20run(k *Case) {
	step := int64(1 + (k.I+k.I/4)%2) // an id missing in between belongs to the run
	n := int64(1<<24) + []int64{0, -1, 1, 5}[k.I%4]
	nodes := (n + step) / step
	if n%step != 0 || step == 1 {
		nodes = (n + step - 1) / step
	}
	n = step*(nodes-1) + 1 // it ends with a node
	first := 1 + k.Rng.Int64N(1<<33)
	ids := bytes.Repeat([]byte{byte(2 * step)}, int(nodes-1))
	zeros := bytes.Repeat([]byte{0}, int(nodes-1))
	lat, lon := k.Rng.Int64N(900000000), k.Rng.Int64N(1800000000)
	var d, g, p []byte
	d = PutField(d, 1, append(PutUvarint(nil, Zig(first)), ids...))
	d = PutField(d, 8, append(PutUvarint(nil, Zig(lat)), zeros...))
	d = PutField(d, 9, append(PutUvarint(nil, Zig(lon)), zeros...))
	g = PutField(nil, 2, d)
	p = PutField(nil, 1, PutField(nil, 1, nil))
	p = PutField(p, 2, g)
	b := FrameBlob("OSMData", BlobBytes(p, Enc{Zlib: 1, RawSize: true}), false)
	if err := os.WriteFile(k.P("in.pbf"), b, 0o644); err != nil {
		k.Fail("%v", err)
	}
	r := k.Run("nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx", "-w", "1")
	k.R.Eval(Hash("run", n, step, first))
	what := fmt.Sprintf("nodeindex of one block with a run of %d ids from %d (every %d. given)", n, first, step)
	if !r.OK() {
		k.R.Count("overlong_runs_refused", 1)
		if n < 1<<24 {
			k.Violate("run-refused", what+" failed: "+r.Brief())
		}
		return
	}
	k.R.Count("long_runs_indexed", 1)
	out := k.Read("n.idx")
	if len(out) < 16 {
		k.Violate("run", what+" succeeded without an index")
		return
	}
	le := binary.LittleEndian
	elems := le.Uint64(out[8:])
	if elems > uint64(len(out))/16-1 {
		k.Violate("run", fmt.Sprintf("%s succeeded with %d entries in %d bytes", what, elems, len(out)))
		return
	}
	locs := out[16+16*elems:]
	next := uint64(first)
	for i := uint64(0); i < elems; i++ {
		e := out[16+16*i:]
		id, co := le.Uint64(e), le.Uint64(e[8:])
		cnt, off := co&(1<<24-1), co>>24
		if id != next || (off+cnt)*8 > uint64(len(locs)) || cnt == 0 {
			k.Violate("run", fmt.Sprintf("%s succeeded; entry %d holds %d ids from %d at %d, expected to go on at %d; %d locations", what, i, cnt, id, off, next, len(locs)/8))
			return
		}
		want := Loc(int32(lon), int32(lat))
		for j := uint64(0); j < cnt; j++ {
			w := want
			if (id+j-uint64(first))%uint64(step) != 0 {
				w = 0
			}
			if got := int64(le.Uint64(locs[8*(off+j):])); got != w {
				k.Violate("run", fmt.Sprintf("%s succeeded; id %d has location %#x, want %#x", what, id+j, uint64(got), uint64(w)))
				return
			}
		}
		next = id + cnt
	}
	if next != uint64(first+n) {
		k.Violate("run", fmt.Sprintf("%s succeeded with ids up to %d only, the last is %d", what, next-1, first+n-1))
	}
}

// p20lists gives wayindex more bytes of locations than way offsets can reach.
// The intermediate file is a link to /dev/null, so they are not stored.
func p20lists(k *Case) {
	const refs = 1500000
	var list []byte
	for i := 0; i < refs; i++ {
		d := int64(1 << 62)
		if i%2 == 1 {
			d = -d
		} else if i == 0 {
			d++
		}
		list = PutUvarint(list, Zig(d))
	}
	const base = 1 << 28
	way := PutField(nil, 8, list)
	way = PutVarField(way, 1, base)
	p := PutField(nil, 1, PutField(nil, 1, nil))
	p = PutField(p, 2, PutField(nil, 3, way))
	tail := len(PutUvarint(nil, base))
	head := p[:len(p)-tail]
	// all blocks share everything but the last bytes
	var z bytes.Buffer
	fw, err := flate.NewWriter(&z, 1)
	if err != nil {
		k.Fail("%v", err)
	}
	fw.Write(head)
	fw.Flush()
	common := append([]byte{0x78, 0x01}, z.Bytes()...)
	sum := adler32.New()
	sum.Write(head)
	state, err := sum.(encoding.BinaryMarshaler).MarshalBinary()
	if err != nil {
		k.Fail("%v", err)
	}
	f, err := os.Create(k.P("in.pbf"))
	if err != nil {
		k.Fail("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	blocks := 1<<33/len(list) + 3
	for i := 0; i < blocks; i++ {
		t := PutUvarint(nil, uint64(base+i))
		s := adler32.New()
		if err := s.(encoding.BinaryUnmarshaler).UnmarshalBinary(state); err != nil {
			k.Fail("%v", err)
		}
		s.Write(t)
		n := uint16(len(t))
		stream := append([]byte{}, common...)
		stream = append(stream, 1, byte(n), byte(n>>8), byte(^n), byte(^n>>8))
		stream = append(stream, t...)
		stream = binary.BigEndian.AppendUint32(stream, s.Sum32())
		b := PutVarField(nil, 2, uint64(len(head)+len(t)))
		b = PutField(b, 3, stream)
		w.Write(FrameBlob("OSMData", b, false))
	}
	if err := errors.Join(w.Flush(), f.Close(), os.Symlink("/dev/null", k.P("w.idx.loc.tmp"))); err != nil {
		k.Fail("%v", err)
	}
	x := k.Cmd("wayindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx", "-w", "6", "-a", "0")
	x.Idle = 150 * time.Second
	r := k.Go(x)
	k.R.Eval(Hash("lists", blocks))
	if r.OK() {
		k.Violate("list-offset", fmt.Sprintf("wayindex -a 0 succeeds on %d ways with %d bytes of locations together, beyond what an entry's offset can hold", blocks, blocks*len(list)))
		return
	}
	if out := k.Read("w.idx"); len(out) < 16*8 {
		k.Fail("wayindex wrote %d bytes only: %s", len(out), r.Brief())
	} else {
		le := binary.LittleEndian
		stride := le.Uint64(out[24:]) & (1<<33 - 1)
		for i := uint64(0); 16+8*i+8 <= uint64(len(out)); i++ {
			e := le.Uint64(out[16+8*i:])
			if id, off := e>>33, e&(1<<33-1); id != base+i || off != i*stride {
				k.Violate("list-entry", fmt.Sprintf("entry %d of an unfinished way index holds way %d at %d, want way %d at %d", i, id, off, base+i, i*stride))
				return
			}
		}
		k.R.Count("entries_before_refusal", int64(len(out)/8-2))
	}
	k.R.Count("overlong_sections_refused", 1)
}

func p25(c *Ctx) {
	c.R.Rule = "random register and unregister sequences against a model list, then concurrent registrations with snapshot holders and version-polling viewers, compared at every quiescent point and for legality in between; an evaluation is one sequence or concurrent round"
	c.shards(3, "tracker", "plain", nil)
	c.shards(1, "tracker", "race", noRaceExit, "race")
	c.shards(2, "tracker", "jitter", []string{"ZZJIT=2"}, "jitter")
	c.shards(2, "cmds", "plain", nil, "list", fmt.Sprint(c.N(240, 4000)))
}

func p26(c *Ctx) {
	c.R.Rule = "byte slices of every small length and capacity (aligned starts) viewed as integers, as fixed-size records and back; contents, length, capacity, write-through and refusal of other targets compared with a byte-level reference, plain and under the race build's pointer checks; an evaluation is one view"
	c.shards(4, "unsafe", "plain", nil)
	c.shards(1, "unsafe", "race", nil)
}

func p27(c *Ctx) {
	c.R.Rule = "readings of position and total taken continuously during held, cancelled and free runs of the engine and of the progress widgets, judged for monotonicity, bound and final equality with the file size; progress lines of random text, width and fraction drawn into a recorded view and compared cell by cell; an evaluation is one run or one line"
	c.shards(6, "progress", "plain", nil)
	c.shards(1, "giant", "plain", nil, "blocks", fmt.Sprint(c.N(2, 30)))
	c.shards(2, "pipeline", "plain", nil, "progress", fmt.Sprint(c.N(400, 6000)))
	c.shards(2, "pipeline", "jitter", nil, "progress", fmt.Sprint(c.N(150, 3000)), "jitter")
}

func p31(c *Ctx) {
	c.R.Rule = "random multisets of strings added in several orders; table contents, numbering, frequency order, ties, lookups and tag conversion compared with a model; an evaluation is one multiset and order, distinct by the resulting table"
	c.shards(8, "strtab", "plain", nil)
}
