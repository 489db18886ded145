//go:build go1.22

// model reads generated blocks through the project's own reader with every
// combination of parts left raw, writes them back, and judges the result with
// an independent decoder.
package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"sort"

	"github.com/squizzling/osmindex/internal/t"

	. "verif/lib"
)

var (
	d          *Drv
	heavy      bool // large blocks: not all settings
	noEntities bool
)

func reader(mask int) *t.PBReader {
	return &t.PBReader{SkipStringTable: mask&1 != 0, SkipDenseNodes: mask&2 != 0, SkipWays: mask&4 != 0, SkipRelations: mask&8 != 0}
}

func diff(want, got *Block, mask int) string {
	if len(want.Strings) != len(got.Strings) {
		return fmt.Sprintf("%d strings, want %d", len(got.Strings), len(want.Strings))
	}
	for i := range want.Strings {
		if want.Strings[i] != got.Strings[i] {
			return fmt.Sprintf("string %d is %q, want %q", i, got.Strings[i], want.Strings[i])
		}
	}
	if x := DiffBlock(want, got, CmpOpts{TagOrder: true, Scalars: true}); x != "" {
		return x
	}
	for i := range want.Groups {
		a, b := &want.Groups[i], &got.Groups[i]
		if mask&2 != 0 && a.Dense != nil && (b.Dense == nil || !bytes.Equal(a.Dense.Info, b.Dense.Info)) {
			return fmt.Sprintf("group %d: dense metadata lost although read raw", i)
		}
		for j := range a.Ways {
			if mask&4 != 0 && !bytes.Equal(a.Ways[j].Info, b.Ways[j].Info) {
				return fmt.Sprintf("group %d: way metadata lost although read raw", i)
			}
		}
		for j := range a.Rels {
			if mask&8 != 0 && !bytes.Equal(a.Rels[j].Info, b.Rels[j].Info) {
				return fmt.Sprintf("group %d: relation metadata lost although read raw", i)
			}
		}
	}
	return ""
}

func block(b *Block, what string) {
	pay := b.Payload()
	want, err := DecodeBlock(pay)
	if err != nil {
		GiveUp("generated block does not decode: %v", err)
	}
	sig := Hash(pay)
	r := d.Rng
	for mask := 0; mask < 16; mask++ {
		if heavy && mask != 0 && mask != 15 && r.IntN(8) > 0 {
			continue
		}
		d.Note("%s: read and write with skip mask %d, %d bytes", what, mask, len(pay))
		in := bytes.Clone(pay)
		var p t.PrimitiveBlock
		reader(mask).ReadPrimitiveBlock(in, &p)
		pre := bytes.Repeat([]byte{0xcd}, r.IntN(9))
		out := p.Write(bytes.Clone(pre))
		if !bytes.Equal(in, pay) {
			d.Bad("input-modified", "%s: skip mask %d: reading and writing changed the input bytes", what, mask)
			return
		}
		if !bytes.HasPrefix(out, pre) {
			d.Bad("prefix", "%s: skip mask %d: writing changed what the buffer held", what, mask)
			return
		}
		got, err := DecodeBlock(out[len(pre):])
		if err != nil {
			d.Bad("malformed", "%s: skip mask %d: the written block is malformed: %v", what, mask, err)
			return
		}
		if x := diff(want, got, mask); x != "" {
			d.Bad("changed", "%s: skip mask %d: %s", what, mask, x)
			return
		}
		// and once more from what was written
		var p2 t.PrimitiveBlock
		m2 := r.IntN(16)
		d.Note("%s: second pass with skip mask %d after %d", what, m2, mask)
		reader(m2).ReadPrimitiveBlock(out[len(pre):], &p2)
		got2, err := DecodeBlock(p2.Write(nil))
		if err != nil {
			d.Bad("malformed", "%s: skip masks %d then %d: the written block is malformed: %v", what, mask, m2, err)
			return
		}
		if x := diff(want, got2, mask&m2); x != "" {
			d.Bad("changed", "%s: skip masks %d then %d: %s", what, mask, m2, x)
			return
		}
		d.Eval(fmt.Sprint(sig, mask))
	}
	if !noEntities {
		entities(b, want, what, pay)
	}
}

func tagMap(ts []Tag) map[string]string {
	m := map[string]string{}
	for _, x := range ts {
		m[x.K] = x.V
	}
	return m
}

func sameTags(a map[string]string, ts []Tag) bool {
	b := tagMap(ts)
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// entities takes the block apart into entities, and assembles them anew.
func entities(b, want *Block, what string, pay []byte) {
	d.Note("%s: entities of %d bytes", what, len(pay))
	var p t.PrimitiveBlock
	reader(0).ReadPrimitiveBlock(bytes.Clone(pay), &p)
	ns, ws, rs := p.ToNodes(), p.ToWays(), p.ToRelations()
	wf := &File{Blocks: []*Block{want}}
	fn, fw, fr := wf.Nodes(), wf.Ways(), wf.Rels()
	if len(ns) != len(fn) || len(ws) != len(fw) || len(rs) != len(fr) {
		d.Bad("entities", "%s: %d/%d/%d entities, want %d/%d/%d", what, len(ns), len(ws), len(rs), len(fn), len(fw), len(fr))
		return
	}
	for i, n := range ns {
		if int64(n.Id) != fn[i].ID || n.Lat != fn[i].NLat || n.Lon != fn[i].NLon || !sameTags(n.Tags, fn[i].Tags) {
			d.Bad("entities", "%s: node #%d is %+v, want %+v", what, i, *n, fn[i])
			return
		}
	}
	for i, w := range ws {
		refs := make([]int64, len(w.Nodes))
		for j, x := range w.Nodes {
			refs[j] = int64(x)
		}
		if int64(w.Id) != fw[i].ID || !EqI64(refs, fw[i].Refs) || !sameTags(w.Tags, fw[i].Tags) {
			d.Bad("entities", "%s: way #%d is %+v, want %+v", what, i, *w, fw[i])
			return
		}
	}
	for i, x := range rs {
		ok := int64(x.Id) == fr[i].ID && sameTags(x.Tags, fr[i].Tags) && len(x.Members) == len(fr[i].Members)
		for j := 0; ok && j < len(x.Members); j++ {
			m := fr[i].Members[j]
			ok = x.Members[j] == m.ID && x.MemberType[j] == m.Type && x.Roles[j] == m.Role
		}
		if !ok {
			d.Bad("entities", "%s: relation #%d is %+v, want %+v", what, i, *x, fr[i])
			return
		}
	}
	// Empty keys cannot be stored on dense nodes.
	var ns2 t.Nodes
	var fn2 []FlatNode
	for i, n := range ns {
		if _, bad := n.Tags[""]; !bad {
			ns2 = append(ns2, n)
			fn2 = append(fn2, fn[i])
		}
	}
	for mask := 1; mask < 8; mask++ {
		var a t.Nodes
		var bb t.Ways
		var c t.Relations
		var en []FlatNode
		var ew []Way
		var er []Rel
		if mask&1 != 0 {
			a, en = ns2, fn2
		}
		if mask&2 != 0 {
			bb, ew = ws, fw
		}
		if mask&4 != 0 {
			c, er = rs, fr
		}
		d.Note("%s: assembling entities, mask %d", what, mask)
		out := t.MakePrimitiveBlock(a, bb, c).Write(nil)
		got, err := DecodeBlock(out)
		if err != nil {
			d.Bad("assembled-malformed", "%s: the assembled block is malformed: %v", what, err)
			return
		}
		gf := &File{Blocks: []*Block{got}}
		gn := gf.Nodes()
		if len(gn) != len(en) {
			d.Bad("assembled", "%s: %d nodes, want %d", what, len(gn), len(en))
			return
		}
		for i := range gn {
			if gn[i].ID != en[i].ID || gn[i].Lat != en[i].Lat || gn[i].Lon != en[i].Lon || !sameTags(tagMap(gn[i].Tags), en[i].Tags) {
				d.Bad("assembled", "%s: assembled node #%d is %+v, want %+v", what, i, gn[i], en[i])
				return
			}
		}
		if x := DiffWays(dedup(ew), got2ways(gf), CmpOpts{}); x != "" {
			d.Bad("assembled", "%s: assembled %s", what, x)
			return
		}
		if x := DiffRels(dedupR(er), gf.Rels(), CmpOpts{}); x != "" {
			d.Bad("assembled", "%s: assembled %s", what, x)
			return
		}
		if len(got.Strings) == 0 || got.Strings[0] != "" {
			d.Bad("assembled", "%s: string 0 of the assembled block is not empty", what)
			return
		}
		d.Eval(Hash(out))
		d.Count("assembled_blocks", 1)
	}
	d.Count("nodes", int64(len(ns)))
	d.Count("ways", int64(len(ws)))
	d.Count("relations", int64(len(rs)))
	d.Max("strings_in_a_block", int64(len(want.Strings)))
}

func got2ways(f *File) []Way { return f.Ways() }

func tagList(ts []Tag) []Tag {
	m := tagMap(ts)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var o []Tag
	for _, k := range ks {
		o = append(o, Tag{K: k, V: m[k]})
	}
	return o
}

func dedup(ws []Way) []Way {
	var o []Way
	for _, w := range ws {
		w.Tags = tagList(w.Tags)
		o = append(o, w)
	}
	return o
}

func dedupR(rs []Rel) []Rel {
	var o []Rel
	for _, x := range rs {
		x.Tags = tagList(x.Tags)
		o = append(o, x)
	}
	return o
}

// blobs checks the envelope messages.
func blobs() {
	r := d.Rng
	n := []int{0, 1, 2, 100, 5000, 70000, 300000}[r.IntN(7)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(r.IntN(1 + r.IntN(256)))
	}
	e := Enc{Zlib: []int{0, 1, 6, 9, 10}[r.IntN(5)], RawSize: r.IntN(2) == 0, SizeAfter: r.IntN(2) == 0, Flush: r.IntN(3) == 0}
	raw := BlobBytes(data, e)
	d.Note("blob of %d bytes, %+v", n, e)
	var b t.Blob
	var pbr t.PBReader
	pbr.ReadBlob(bytes.Clone(raw), &b)
	got := b.GetRawData()
	if !bytes.Equal(got.Buffer, data) {
		d.Bad("blob", "blob payload of %d bytes (%+v): %s", n, e, DiffBytes(data, got.Buffer))
		return
	}
	out := b.Write([]byte{9})
	check := func(out []byte, how string) {
		rbs, err := SplitFile(FrameBlob("OSMData", out, false))
		if err != nil || len(rbs) != 1 || !bytes.Equal(rbs[0].Payload, data) {
			d.Bad("blob-write", "blob of %d bytes (%+v) written %s does not hold its payload any more: %v", n, e, how, err)
		}
	}
	check(out[1:], "back")
	nb := t.Blob{Raw: got.Buffer}
	check(nb.Write(nil), "raw")
	nf := t.Blob{RawFunc: func(x []byte) []byte { return append(x, data...) }}
	check(nf.Write(nil), "through a function")
	var z bytes.Buffer
	zw := zlib.NewWriter(&z)
	_, _ = io.Copy(zw, bytes.NewReader(data))
	_ = zw.Close()
	sz := int32(n)
	nz := t.Blob{ZLibData: z.Bytes(), RawSize: &sz}
	check(nz.Write(nil), "compressed")
	for _, typ := range []string{"OSMData", "OSMHeader"} {
		bh := t.BlobHeader{Type: typ, DataSize: int32(r.IntN(1 << r.IntN(31)))}
		d.Note("blob header %+v", bh)
		g := pbr.ReadBlobHeader(bh.Write(nil))
		if g != bh {
			d.Bad("blob-header", "blob header %+v reads back as %+v", bh, g)
		}
	}
	d.Eval(Hash(raw))
	d.Count("blobs", 1)
}

// border gives blocks in which one list or message has exactly n encoded
// bytes, at and around the lengths where a length needs one more byte.
func border(kind string, n int) *Block {
	b := NewBlock()
	r := d.Rng
	tags := make([]Tag, 0, n)
	steps := func(n int) []int64 { // n values a single byte apart
		v := make([]int64, n)
		for i := range v {
			if i > 0 {
				v[i] = v[i-1] + int64(r.IntN(9)) - 3
			} else {
				v[i] = int64(r.IntN(64))
			}
			if v[i] < 0 {
				v[i] = 0
			}
		}
		return v
	}
	members := func(n int) []Member {
		ids := steps(n)
		ms := make([]Member, n)
		for i := range ms {
			ms[i] = Member{Type: r.IntN(3), ID: ids[i], Role: []string{"", "inner", "outer"}[r.IntN(3)]}
		}
		return ms
	}
	if kind == "way tags" || kind == "relation tags" {
		for i := 0; i < n; i++ {
			tags = append(tags, Tag{K: string(rune('a' + r.IntN(26))), V: string(rune('a' + r.IntN(26)))})
		}
	}
	var g Group
	switch kind {
	case "way tags":
		g.Ways = []Way{{ID: 1, Tags: tags, Refs: steps(3)}, {ID: 2, Refs: steps(2)}}
	case "way references":
		g.Ways = []Way{{ID: 1, Refs: steps(n)}, {ID: 2, Refs: steps(2)}}
	case "way":
		g.Ways = []Way{{ID: 1, Refs: steps(n - 12)}, {ID: 2, Refs: steps(2)}}
	case "relation tags":
		g.Rels = []Rel{{ID: 1, Tags: tags, Members: members(3)}, {ID: 2, Members: members(2)}}
	case "members":
		g.Rels = []Rel{{ID: 1, Members: members(n)}, {ID: 2, Members: members(2)}}
	case "relation":
		g.Rels = []Rel{{ID: 1, Members: members((n - 20) / 3)}, {ID: 2, Members: members(2)}}
	case "nodes":
		ids := steps(n)
		dn := &Dense{}
		for i := range ids {
			dn.Nodes = append(dn.Nodes, Node{ID: int64(i) + 1, Lat: ids[i], Lon: ids[n-1-i]})
		}
		g.Dense = dn
	}
	b.Groups = []Group{g}
	return b
}

func borders() {
	r := d.Rng
	for _, kind := range []string{"way tags", "way references", "way", "relation tags", "members", "relation", "nodes"} {
		for _, n := range []int{128, 16384} {
			for x := -3; x <= 3; x++ {
				block(border(kind, n+x), fmt.Sprintf("%s of %d bytes", kind, n+x))
				d.Seen("lengths", fmt.Sprint(n+x))
			}
		}
	}
	heavy, noEntities = true, true
	for _, kind := range []string{"way references", "way", "members", "relation"} {
		for x := 0; x < 2; x++ {
			n := 2097152 + []int{0, -1, 1, r.IntN(9) - 4}[r.IntN(4)]
			block(border(kind, n), fmt.Sprintf("%s of %d bytes", kind, n))
			d.Seen("lengths", fmt.Sprint(n))
		}
	}
	for _, n := range []int{2097152, 2097151 + 3} { // exactly at the border
		block(border("way", n), fmt.Sprintf("way of %d bytes", n))
		block(border("relation", n), fmt.Sprintf("relation of %d bytes", n))
		block(border("way references", n), fmt.Sprintf("way references of %d bytes", n))
	}
	heavy, noEntities = false, false
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		r := d.Rng
		for i := 0; i < d.N(160, 4000) && d.NViol() == 0; i++ {
			o := DefaultGen()
			o.Nodes, o.Ways, o.Rels = r.IntN(120), r.IntN(60), r.IntN(40)
			o.BlockMax = []int{1, 3, 10, 40, 8000}[r.IntN(5)]
			o.MaxRefs = []int{0, 3, 12, 300}[r.IntN(4)]
			o.NegRefs = r.IntN(2) == 0
			o.Blank = r.IntN(4) == 0
			o.NodeTags = []int{0, 40, 100}[r.IntN(3)]
			if i%20 == 3 {
				o.LongWays = 2
			}
			if i%20 == 7 {
				o.BigRel = 5000
			}
			if i%40 == 11 {
				o.Nodes, o.Ways, o.BlockMax = 8000, 8000, 8000
			}
			if i%160 == 31 { // a string table of more than 2^16 entries
				o.Nodes, o.Ways, o.Rels, o.BlockMax, o.NodeTags, o.TagFlood = 3000, 4000, 3000, 8000, 100, 14+r.IntN(16)
			}
			heavy = i >= 61 && i < 65
			if heavy {
				d.Seen("heavy", o.Heavy(i))
			}
			f := Gen(r, o)
			for bi, b := range f.Blocks {
				if b.Type == "OSMData" {
					block(b, fmt.Sprintf("file %d block %d", i, bi))
				}
			}
			if i < 3 {
				d.Sample(map[string]any{"file": i, "shape": f.Desc, "nodes": len(f.Nodes()), "ways": len(f.Ways()), "relations": len(f.Rels())})
			}
		}
		borders()
		for i := 0; i < d.N(400, 8000) && d.NViol() == 0; i++ {
			blobs()
		}
	})
}
