package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"

	. "verif/lib"
)

func init() { register("P38", "exploration", p38) }

// The parts of a data block, by who reads them.
const (
	inBlock = 1 << iota
	inStrings
	inDense
	inWays
	inRels
)

var partOf = map[int]string{inBlock: "block", inStrings: "string table", inDense: "dense nodes", inWays: "ways", inRels: "relations"}

// packed values, by the wire tag of the list
var packedIn = map[int][]int{
	inDense: {1, 8, 9, 10},
	inWays:  {2, 3, 8},
	inRels:  {2, 3, 8, 9, 10},
}

var scalarIn = map[int][]int{
	inBlock: {17, 18, 19, 20},
	inWays:  {1},
	inRels:  {1},
}

// walkMsg goes through a message the way the format defines it. It calls sub
// for every length-delimited field and reports whether the message is cut
// (a length or integer running past its end, an integer over 64 bits) and
// whether it met something that is not in the format at all, where it stops.
func walkMsg(b []byte, scalars, bufs []int, sub func(num int, d []byte)) (cut, alien bool) {
	has := func(l []int, n int) bool {
		for _, x := range l {
			if x == n {
				return true
			}
		}
		return false
	}
	for len(b) > 0 {
		tag, n, err := Uvarint(b)
		if err != nil {
			return true, false
		}
		b = b[n:]
		num := tag >> 3
		switch {
		case tag&7 == 0 && num < 1<<20 && has(scalars, int(num)):
			_, n, err := Uvarint(b)
			if err != nil {
				return true, false
			}
			b = b[n:]
		case tag&7 == 2 && num < 1<<20 && has(bufs, int(num)):
			l, n, err := Uvarint(b)
			if err != nil {
				return true, false
			}
			b = b[n:]
			if l > uint64(len(b)) {
				return true, false
			}
			sub(int(num), b[:l])
			b = b[l:]
		default:
			return false, true
		}
	}
	return false, false
}

// faults says in which parts a data block's payload is cut.
func faults(payload []byte) int {
	bad := 0
	mark := func(part int, cut, alien bool) bool {
		if cut {
			bad |= part
		}
		return cut
	}
	packed := func(part int) func(num int, d []byte) {
		return func(num int, d []byte) {
			for _, p := range packedIn[part] {
				if p == num {
					for len(d) > 0 {
						_, n, err := Uvarint(d)
						if err != nil {
							bad |= part
							return
						}
						d = d[n:]
					}
				}
			}
		}
	}
	cut, alien := walkMsg(payload, scalarIn[inBlock], []int{1, 2}, func(num int, d []byte) {
		if num == 1 {
			cut, alien := walkMsg(d, nil, []int{1}, func(int, []byte) {})
			mark(inStrings, cut, alien)
			return
		}
		cut, alien := walkMsg(d, nil, []int{2, 3, 4, 5}, func(num int, d []byte) {
			switch num {
			case 2:
				cut, alien := walkMsg(d, nil, []int{1, 5, 8, 9, 10}, packed(inDense))
				mark(inDense, cut, alien)
			case 3:
				cut, alien := walkMsg(d, scalarIn[inWays], []int{2, 3, 4, 8}, packed(inWays))
				mark(inWays, cut, alien)
			case 4:
				cut, alien := walkMsg(d, scalarIn[inRels], []int{2, 3, 4, 8, 9, 10}, packed(inRels))
				mark(inRels, cut, alien)
			}
		})
		mark(inBlock, cut, alien)
	})
	mark(inBlock, cut, alien)
	return bad
}

func inflate(z []byte) ([]byte, error) {
	zr, err := zlib.NewReader(bytes.NewReader(z))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(zr)
}

// overrun lets the length of one length-delimited field of a message reach
// past the end of the message.
func overrun(r *Rng, msg []byte, only func(num int) bool) ([]byte, string, bool) {
	type at struct{ num, lenPos, dataPos, end int }
	var fs []at
	for i := 0; i < len(msg); {
		tag, n, err := Uvarint(msg[i:])
		if err != nil {
			return nil, "", false
		}
		i += n
		v, n, err := Uvarint(msg[i:])
		if err != nil {
			return nil, "", false
		}
		if tag&7 == 2 {
			fs = append(fs, at{int(tag >> 3), i, i + n, i + n + int(v)})
			i += n + int(v)
		} else {
			i += n
		}
	}
	var ok []at
	for _, f := range fs {
		if only == nil || only(f.num) {
			ok = append(ok, f)
		}
	}
	if len(ok) == 0 {
		return nil, "", false
	}
	f := ok[len(ok)-1]
	if r.IntN(3) == 0 {
		f = ok[r.IntN(len(ok))]
	}
	over := []int{1, 1, 2, 1 + r.IntN(10), 1 + r.IntN(300), 1 + r.IntN(100000)}[r.IntN(6)]
	l := uint64(len(msg) - f.dataPos + over)
	switch r.IntN(12) {
	case 0:
		l = []uint64{1 << 31, 1<<32 + uint64(f.end-f.dataPos), 1<<62 + 5, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - uint64(r.IntN(20))}[r.IntN(7)]
	}
	out := append([]byte{}, msg[:f.lenPos]...)
	out = PutUvarint(out, l)
	out = append(out, msg[f.dataPos:]...)
	return out, fmt.Sprintf("field %d of %d bytes said to have %d with %d left", f.num, f.end-f.dataPos, l, len(msg)-f.dataPos), true
}

// cutVarint is an integer which is cut off or does not fit 64 bits.
func cutVarint(r *Rng, last bool) ([]byte, string) {
	if last && r.IntN(4) != 0 {
		n := []int{1, 1, 1, 2, 5, 9, 1 + r.IntN(10)}[r.IntN(7)]
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, 0x80|byte(r.IntN(128)))
		}
		return b, fmt.Sprintf("an integer cut after %d bytes", n)
	}
	b := bytes.Repeat([]byte{0xff}, 9)
	switch r.IntN(3) {
	case 0:
		return append(b, byte(2+r.IntN(126))), "an integer of more than 64 bits"
	case 1:
		return append(b, 0x81, 0), "an integer of 11 bytes"
	}
	return append(bytes.Repeat([]byte{0x80}, 10+r.IntN(3)), 0), "an integer padded beyond 10 bytes"
}

func p38(c *Ctx) {
	c.R.Rule = "files in which the stored bytes of one data block are damaged: flipped bits, cut or replaced checksum in the compressed data, a stated size that is not the size, a length reaching past the message around it, an integer cut off or over 64 bits, a string number outside the table, or random edits of the block's bytes, judged by an independent reader that follows the format strictly; every command that reads the damaged part must end with a non-zero status; an evaluation is one such file given to one command"
	blob := set("entitycount", "entityfind", "decompress", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex")
	who := map[int]map[string]bool{
		inBlock:   set("entitycount", "entityfind", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex"),
		inStrings: set("entityfind", "tagfilter"),
		inDense:   set("entitycount", "entityfind", "nodeindex", "tagfilter"),
		inWays:    set("entitycount", "entityfind", "rewritenodes", "tagfilter", "wayindex"),
		inRels:    set("entitycount", "entityfind", "relindex", "tagfilter"),
	}
	kinds := []string{"flipped bits", "length in block", "stated size", "length in group", "integer", "length in entity", "checksum", "string number", "random edit", "length in string table", "length in blob", "packed integer", "random edit", "frame"}
	c.Each("files", c.N(1248, 9000), func(k *Case) {
		r := k.Rng
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 20+r.IntN(80), 10+r.IntN(40), 5+r.IntN(20)
		o.BlockMax = []int{2, 10, 100}[r.IntN(3)]
		o.MaxRefs = 8
		o.Blank = false
		kind := kinds[k.I%len(kinds)]
		big := set("flipped bits", "checksum", "stated size", "length in blob", "random edit")[kind] && r.IntN(5) == 0
		if big { // blocks of up to some megabytes
			o.Nodes = []int{8000, 8000, 30000, 200000}[r.IntN(4)]
			o.BlockMax = o.Nodes
			if o.Nodes == 8000 {
				o.Ways, o.MaxRefs = 300+r.IntN(1000), 200
			}
		}
		f := Gen(r, o)
		k.Write("n.idx", NodeIdxBytes(f.LocMap()))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		var data []int
		for i, b := range f.Blocks {
			if b.Type == "OSMData" {
				data = append(data, i)
			}
		}
		desc := ""
		bi := 0
		var blobOut, frameOut []byte
		judged := map[string]bool{}
		for try := 0; try < 80 && blobOut == nil; try++ {
			bi = data[r.IntN(len(data))]
			b := f.Blocks[bi]
			pay := b.Payload()
			if big && try < 40 && len(pay) < 50000 {
				continue
			}
			enc := b.Enc
			// a damaged payload whose blob is sound
			damaged := func(p []byte, d string) {
				bad := faults(p)
				if bad == 0 {
					return
				}
				desc = d
				for part, cmds := range who {
					if bad&part != 0 {
						for c := range cmds {
							judged[c] = true
						}
						k.R.Seen("damaged part", kind+" in "+partOf[part])
					}
				}
				if r.IntN(2) == 0 {
					enc.Zlib = 0
				}
				blobOut = BlobBytes(p, enc)
			}
			inGroup := func(num int, f func(m []byte) []byte) ([]byte, bool) {
				gn := countFields(pay, 2)
				if gn == 0 {
					return nil, false
				}
				in := false
				p, _ := within(pay, 2, r.IntN(gn), func(g []byte) []byte {
					n := countFields(g, num)
					if n == 0 {
						return g
					}
					g2, done := within(g, num, r.IntN(n), f)
					in = done
					return g2
				})
				return p, in
			}
			zenc := func() ([]byte, Enc) {
				if enc.Zlib == 0 {
					enc.Zlib = []int{1, 6, 9, 10}[r.IntN(4)]
				}
				enc.SizeAfter = r.IntN(2) == 0
				fs, _ := Fields(BlobBytes(pay, enc))
				for _, x := range fs {
					if x.Num == 3 {
						return append([]byte{}, x.Data...), enc
					}
				}
				panic("no compressed data")
			}
			zblob := func(z []byte, size int) []byte {
				var out []byte
				if !enc.SizeAfter {
					out = PutVarField(out, 2, uint64(size))
				}
				out = PutField(out, 3, z)
				if enc.SizeAfter {
					out = PutVarField(out, 2, uint64(size))
				}
				return out
			}
			switch kind {
			case "flipped bits", "checksum":
				z, _ := zenc()
				if kind == "checksum" {
					switch r.IntN(3) {
					case 0:
						n := 1 + r.IntN(4)
						z = z[:len(z)-n]
						desc = fmt.Sprintf("compressed data without its last %d bytes", n)
					case 1:
						z[len(z)-1-r.IntN(4)] ^= 1 << r.IntN(8)
						desc = "checksum with one bit flipped"
					case 2:
						p := append([]byte{}, pay...)
						e2 := enc
						if len(p) == 0 {
							continue
						}
						p[r.IntN(len(p))] ^= 1 << r.IntN(8)
						fs, _ := Fields(BlobBytes(p, e2))
						for _, x := range fs {
							if x.Num == 3 {
								z = append(append([]byte{}, x.Data[:len(x.Data)-4]...), z[len(z)-4:]...)
							}
						}
						desc = "a bit of the contents flipped under the old checksum"
					}
				} else {
					n := []int{1, 1, 1, 2, 5}[r.IntN(5)]
					desc = "compressed data with flipped bits:"
					for i := 0; i < n; i++ {
						at := r.IntN(len(z))
						bit := r.IntN(8)
						z[at] ^= 1 << bit
						desc += fmt.Sprintf(" %d.%d", at, bit)
					}
				}
				p, err := inflate(z)
				if err == nil && len(p) == len(pay) {
					k.R.Count("damage_without_effect", 1)
					continue
				}
				if err == nil && k.I%2 == 0 {
					continue
				}
				for c := range blob {
					judged[c] = true
				}
				blobOut = zblob(z, len(pay))
			case "stated size":
				z, _ := zenc()
				size := len(pay)
				switch r.IntN(5) {
				case 0:
					size += 1 + r.IntN(3)
				case 1:
					size += 1 + r.IntN(100000)
				case 2:
					size -= 1
				case 3:
					size = r.IntN(len(pay) + 1)
				case 4: // between two fields
					bs := fieldBounds(pay)
					size = bs[r.IntN(len(bs))]
				}
				if size == len(pay) || size < 0 {
					continue
				}
				desc = fmt.Sprintf("%d bytes said to be %d", len(pay), size)
				for c := range blob {
					judged[c] = true
				}
				blobOut = zblob(z, size)
			case "length in blob":
				bl, d, ok := overrun(r, BlobBytes(pay, enc), nil)
				if !ok {
					continue
				}
				desc = d
				for c := range blob {
					judged[c] = true
				}
				blobOut = bl
			case "frame":
				// the block itself reaches past the end of the file
				bl := BlobBytes(pay, enc)
				rest := 0
				for _, b := range f.Blocks[bi+1:] {
					rest += len(b.Bytes())
				}
				over := []int{1, 1 + r.IntN(4), 1 + r.IntN(1000), 1<<30 + r.IntN(1<<29)}[r.IntN(4)]
				h := PutField(nil, 1, []byte(b.Type))
				hl := 0
				switch r.IntN(4) {
				case 0: // its size is negative
					n := -1 - int64([]int{0, r.IntN(10), len(bl), len(bl) + 20, r.IntN(1 << 30)}[r.IntN(5)])
					h = PutVarField(h, 3, uint64(n))
					hl = len(h)
					desc = fmt.Sprintf("a block said to have %d bytes", n)
				case 1: // its header's length
					h = PutVarField(h, 3, uint64(len(bl)))
					hl = len(h) + len(bl) + rest + over
					desc = fmt.Sprintf("a block header said to have %d bytes, %d past the end of the file", hl, over)
				default:
					n := len(bl) + rest + over
					h = PutVarField(h, 3, uint64(n))
					hl = len(h)
					desc = fmt.Sprintf("a block said to have %d bytes, %d past the end of the file", n, over)
				}
				frameOut = binary.BigEndian.AppendUint32(nil, uint32(hl))
				frameOut = append(append(frameOut, h...), bl...)
				for _, c := range runCmds {
					judged[c] = true
				}
				blobOut = bl
			case "length in block":
				p, d, ok := overrun(r, pay, nil)
				if ok {
					damaged(p, d)
				}
			case "length in group":
				gn := countFields(pay, 2)
				if gn == 0 {
					continue
				}
				d := ""
				in := false
				p, _ := within(pay, 2, r.IntN(gn), func(g []byte) []byte {
					if r.IntN(5) == 0 {
						g = append(append([]byte{}, g...), PutField(nil, 5, []byte{1, 2, 3})...)
					}
					g2, dd, ok := overrun(r, g, nil)
					if !ok {
						return g
					}
					d, in = dd, true
					return g2
				})
				if in {
					damaged(p, d)
				}
			case "length in entity":
				d := ""
				num := 2 + r.IntN(3)
				in := false
				p, done := inGroup(num, func(m []byte) []byte {
					if r.IntN(3) == 0 { // metadata, which is passed over
						m = append(append([]byte{}, m...), PutField(nil, []int{5, 4, 4}[num-2], []byte{8, 1})...)
					}
					m2, dd, ok := overrun(r, m, nil)
					if !ok {
						return m
					}
					d, in = dd, true
					return m2
				})
				if done && in {
					damaged(p, fmt.Sprintf("in group field %d: %s", num, d))
				}
			case "length in string table":
				d := ""
				in := false
				p, done := within(pay, 1, 0, func(m []byte) []byte {
					m2, dd, ok := overrun(r, m, nil)
					if !ok {
						return m
					}
					d, in = dd, true
					return m2
				})
				if done && in {
					damaged(p, d)
				}
			case "integer":
				// at the end of a message, or as the value of a plain field
				num := r.IntN(5)
				cut, d := cutVarint(r, true)
				app := func(m []byte) []byte { return append(append([]byte{}, m...), cut...) }
				var p []byte
				done := true
				switch num {
				case 0:
					if r.IntN(2) == 0 {
						p = app(pay)
					} else {
						cut, d = cutVarint(r, false)
						n := scalarIn[inBlock][r.IntN(4)]
						p = splice(r, pay, append(PutUvarint(nil, uint64(n)<<3), cut...))
					}
				case 1:
					p, done = within(pay, 1, 0, app)
				case 2, 3, 4:
					if num != 2 && r.IntN(2) == 0 {
						cut, d = cutVarint(r, false)
						p, done = inGroup(num, func(m []byte) []byte { return splice(r, m, append(PutUvarint(nil, 8), cut...)) })
					} else {
						p, done = inGroup(num, app)
					}
				}
				if done {
					damaged(p, fmt.Sprintf("place %d: %s", num, d))
				}
			case "packed integer":
				num := 2 + r.IntN(3)
				part := []int{inDense, inWays, inRels}[num-2]
				ls := packedIn[part]
				ln := ls[r.IntN(len(ls))]
				d := ""
				in := false
				p, done := inGroup(num, func(m []byte) []byte {
					m2, ok := within(m, ln, 0, func(l []byte) []byte {
						l = append([]byte{}, l...)
						if len(l) > 0 && r.IntN(2) == 0 { // the last value goes on
							l[len(l)-1] |= 0x80
							d = "last value unfinished"
							return l
						}
						cut, dd := cutVarint(r, true)
						d = dd
						return append(l, cut...)
					})
					in = ok
					return m2
				})
				if done && in {
					damaged(p, fmt.Sprintf("group field %d, list %d: %s", num, ln, d))
				}
			case "string number":
				num := 2 + r.IntN(3)
				ln := [][]int{{10}, {2, 3}, {2, 3, 8}}[num-2]
				ls := ln[r.IntN(len(ln))]
				n := uint64(0)
				if st, err := Fields(pay); err == nil {
					for _, x := range st {
						if x.Num == 1 {
							n = uint64(countFields(x.Data, 1))
						}
					}
				}
				v := n + []uint64{0, 0, 1, uint64(r.IntN(1000)), 1<<31 - 1 - n}[r.IntN(5)]
				in := false
				p, done := inGroup(num, func(m []byte) []byte {
					m2, _ := within(m, ls, 0, func(l []byte) []byte {
						vs, err := UnpackU(l)
						if err != nil || len(vs) == 0 {
							return l
						}
						i := r.IntN(len(vs))
						if num == 2 && vs[i] == 0 {
							return l
						}
						vs[i] = v
						in = true
						return PackU(vs)
					})
					return m2
				})
				if !done || !in || v == 0 {
					continue
				}
				desc = fmt.Sprintf("group field %d, list %d names string %d of %d", num, ls, v, n)
				for c := range who[inStrings] {
					judged[c] = true
				}
				blobOut = BlobBytes(p, enc)
			case "random edit":
				p := append([]byte{}, pay...)
				d := ""
				for i := 1 + r.IntN(3); i > 0 && len(p) > 1; i-- {
					at := r.IntN(len(p))
					switch r.IntN(4) {
					case 0:
						p[at] ^= 1 << r.IntN(8)
						d += fmt.Sprintf(" flip@%d", at)
					case 1:
						p[at] = byte(r.IntN(256))
						d += fmt.Sprintf(" set@%d", at)
					case 2:
						p = append(p[:at], p[at+1:]...)
						d += fmt.Sprintf(" del@%d", at)
					case 3:
						p = append(p[:at+1], p[at:]...)
						d += fmt.Sprintf(" dup@%d", at)
					}
				}
				damaged(p, "edits:"+d)
			}
		}
		if blobOut == nil {
			k.R.Count("nothing_to_change", 1)
			return
		}
		var out []byte
		for i, b := range f.Blocks {
			if i == bi && frameOut != nil {
				out = append(out, frameOut...)
			} else if i == bi {
				out = append(out, FrameBlob(b.Type, blobOut, b.Enc.HdrSwap)...)
			} else {
				out = append(out, b.Bytes()...)
			}
		}
		k.Write("in.pbf", out)
		k.R.Max("largest_damaged_block", int64(len(f.Blocks[bi].Payload())))
		for _, cmd := range runCmds {
			if !judged[cmd] {
				continue
			}
			k.clearOut()
			o := k.Run(cmd, k.plainArgs(cmd)...)
			if o.Exit == 0 || o.Stuck || o.CPUOut {
				k.Violate("accepted:"+cmd+":"+kind, fmt.Sprintf("%s takes a file with damaged data (%s: %s, in block %d of %d): %s", k.Lines[len(k.Lines)-1], kind, desc, bi, len(f.Blocks), o.Brief()))
				return
			}
			k.R.Count("refusals", 1)
			k.R.Seen("refused", cmd+" "+kind)
			k.R.Eval(Hash(out, cmd))
		}
		if k.I < 6 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "damage": kind + ": " + desc, "block": bi})
		}
	})
}
