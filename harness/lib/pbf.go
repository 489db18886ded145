package lib

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"
)

type Tag struct{ K, V string }

type Node struct {
	ID       int64
	Lat, Lon int64 // in units of the block's granularity, offset excluded
	Tags     []Tag
}

type Way struct {
	ID   int64
	Tags []Tag
	Refs []int64
	Info []byte
}

const (
	MNode = 0
	MWay  = 1
	MRel  = 2
)

type Member struct {
	Type int
	ID   int64
	Role string
}

type Rel struct {
	ID      int64
	Tags    []Tag
	Members []Member
	Info    []byte
}

type Dense struct {
	Nodes []Node
	Info  []byte
	NoKV  bool // leave KeyVals out when no node has a tag
	Perm  uint64
}

type Group struct {
	Dense      *Dense
	Ways       []Way
	Rels       []Rel
	ChangeSets [][]byte
	RelFirst   bool // relations before ways before dense on the wire
}

// Enc holds encoding choices that carry no meaning.
type Enc struct {
	Zlib       int  // 0: raw, 1..9: zlib level, 10: stored
	Flush      bool // flush zlib in the middle
	SizeAfter  bool // raw_size after the data
	RawSize    bool // raw_size also on uncompressed blobs
	Explicit   bool // write default values explicitly
	STLast     bool // string table after the groups
	STUnused   int  // unused strings in the table
	STDup      bool // duplicate strings in the table
	HdrSwap    bool // blob header fields in the other order
	PadVarints bool // non-minimal length varints
	Shuffle    uint64
}

type Block struct {
	Type            string
	Opaque          []byte // payload of a block that is not decoded (OSMHeader), or nil
	Gran, DateGran  int32
	LatOff, LonOff  int64
	Groups          []Group
	Enc             Enc
	Strings         []string // set by the decoder
	RawGroups       [][]byte // set by the decoder
	ScalarsExplicit []int
}

type File struct {
	Blocks []*Block
	Desc   string
}

func NewBlock() *Block { return &Block{Type: "OSMData", Gran: 100, DateGran: 1000} }

// stringTable assigns numbers to the block's strings.
func (b *Block) stringTable() ([]string, map[string]uint64) {
	var list []string
	seen := map[string]bool{"": true}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			list = append(list, s)
		}
	}
	tags := func(ts []Tag) {
		for _, t := range ts {
			add(t.K)
			add(t.V)
		}
	}
	for _, g := range b.Groups {
		if g.Dense != nil {
			for _, n := range g.Dense.Nodes {
				tags(n.Tags)
			}
		}
		for _, w := range g.Ways {
			tags(w.Tags)
		}
		for _, r := range g.Rels {
			tags(r.Tags)
			for _, m := range r.Members {
				add(m.Role)
			}
		}
	}
	for i := 0; i < b.Enc.STUnused; i++ {
		add(fmt.Sprintf("unused-%d", i))
	}
	rng := rand.New(rand.NewPCG(b.Enc.Shuffle, 77))
	if b.Enc.Shuffle != 0 {
		rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	}
	if b.Enc.STDup && len(list) > 0 {
		for i := 0; i < 3; i++ {
			list = append(list, list[rng.IntN(len(list))])
		}
	}
	list = append([]string{""}, list...)
	idx := map[string]uint64{}
	for i, s := range list {
		if _, ok := idx[s]; !ok || (i > 0 && b.Enc.STDup && rng.IntN(2) == 0) {
			if s != "" || i == 0 {
				idx[s] = uint64(i)
			}
		}
	}
	return list, idx
}

func (b *Block) putField(buf []byte, num int, data []byte) []byte {
	if b.Enc.PadVarints {
		buf = PutUvarint(buf, uint64(num)<<3|2)
		buf = PutUvarintPadded(buf, uint64(len(data)), 5)
		return append(buf, data...)
	}
	return PutField(buf, num, data)
}

func (b *Block) packTags(buf []byte, ts []Tag, idx map[string]uint64) []byte {
	if len(ts) == 0 && !b.Enc.Explicit {
		return buf
	}
	ks := make([]uint64, len(ts))
	vs := make([]uint64, len(ts))
	for i, t := range ts {
		ks[i], vs[i] = idx[t.K], idx[t.V]
	}
	buf = b.putField(buf, 2, PackU(ks))
	return b.putField(buf, 3, PackU(vs))
}

func (b *Block) encodeDense(d *Dense, idx map[string]uint64) []byte {
	ids := make([]int64, len(d.Nodes))
	lats := make([]int64, len(d.Nodes))
	lons := make([]int64, len(d.Nodes))
	var kv []uint64
	any := false
	for i, n := range d.Nodes {
		ids[i], lats[i], lons[i] = n.ID, n.Lat, n.Lon
		for _, t := range n.Tags {
			kv = append(kv, idx[t.K], idx[t.V])
			any = true
		}
		kv = append(kv, 0)
	}
	type fd struct {
		num  int
		data []byte
	}
	fs := []fd{{1, PackDelta(ids)}}
	if d.Info != nil {
		fs = append(fs, fd{5, d.Info})
	}
	fs = append(fs, fd{8, PackDelta(lats)}, fd{9, PackDelta(lons)})
	if any || !d.NoKV {
		fs = append(fs, fd{10, PackU(kv)})
	}
	if d.Perm != 0 {
		rng := rand.New(rand.NewPCG(d.Perm, 5))
		rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	var buf []byte
	for _, f := range fs {
		buf = b.putField(buf, f.num, f.data)
	}
	return buf
}

func (b *Block) encodeWay(w *Way, idx map[string]uint64) []byte {
	buf := PutVarField(nil, 1, uint64(w.ID))
	buf = b.packTags(buf, w.Tags, idx)
	if w.Info != nil {
		buf = b.putField(buf, 4, w.Info)
	}
	if len(w.Refs) > 0 || b.Enc.Explicit {
		buf = b.putField(buf, 8, PackDelta(w.Refs))
	}
	return buf
}

func (b *Block) encodeRel(r *Rel, idx map[string]uint64) []byte {
	buf := PutVarField(nil, 1, uint64(r.ID))
	buf = b.packTags(buf, r.Tags, idx)
	if r.Info != nil {
		buf = b.putField(buf, 4, r.Info)
	}
	if len(r.Members) > 0 || b.Enc.Explicit {
		roles := make([]uint64, len(r.Members))
		ids := make([]int64, len(r.Members))
		types := make([]uint64, len(r.Members))
		for i, m := range r.Members {
			roles[i], ids[i], types[i] = idx[m.Role], m.ID, uint64(m.Type)
		}
		buf = b.putField(buf, 8, PackU(roles))
		buf = b.putField(buf, 9, PackDelta(ids))
		buf = b.putField(buf, 10, PackU(types))
	}
	return buf
}

// Payload is the uncompressed content of the block.
func (b *Block) Payload() []byte {
	if b.Opaque != nil {
		return b.Opaque
	}
	list, idx := b.stringTable()
	var st []byte
	for _, s := range list {
		st = PutField(st, 1, []byte(s))
	}
	var groups []byte
	for gi := range b.Groups {
		g := &b.Groups[gi]
		var dense, ways, rels, out []byte
		if g.Dense != nil {
			dense = b.putField(nil, 2, b.encodeDense(g.Dense, idx))
		}
		for i := range g.Ways {
			ways = b.putField(ways, 3, b.encodeWay(&g.Ways[i], idx))
		}
		for i := range g.Rels {
			rels = b.putField(rels, 4, b.encodeRel(&g.Rels[i], idx))
		}
		if g.RelFirst {
			out = append(append(append(out, rels...), ways...), dense...)
		} else {
			out = append(append(append(out, dense...), ways...), rels...)
		}
		for _, c := range g.ChangeSets {
			out = PutField(out, 5, c)
		}
		groups = b.putField(groups, 2, out)
	}
	var scal []byte
	if b.Gran != 100 || b.Enc.Explicit {
		scal = PutUvarint(PutUvarint(scal, 17<<3), uint64(int64(b.Gran)))
	}
	if b.DateGran != 1000 || b.Enc.Explicit {
		scal = PutUvarint(PutUvarint(scal, 18<<3), uint64(int64(b.DateGran)))
	}
	if b.LatOff != 0 || b.Enc.Explicit {
		scal = PutUvarint(PutUvarint(scal, 19<<3), uint64(b.LatOff))
	}
	if b.LonOff != 0 || b.Enc.Explicit {
		scal = PutUvarint(PutUvarint(scal, 20<<3), uint64(b.LonOff))
	}
	var out []byte
	stf := b.putField(nil, 1, st)
	switch {
	case b.Enc.STLast && b.Enc.HdrSwap:
		out = append(append(append(out, scal...), groups...), stf...)
	case b.Enc.STLast:
		out = append(append(append(out, groups...), stf...), scal...)
	case b.Enc.HdrSwap:
		out = append(append(append(out, scal...), stf...), groups...)
	default:
		out = append(append(append(out, stf...), groups...), scal...)
	}
	return out
}

// BlobBytes wraps a payload in a Blob message.
func BlobBytes(payload []byte, e Enc) []byte {
	if e.Zlib == 0 {
		var b []byte
		if e.RawSize && !e.SizeAfter {
			b = PutVarField(b, 2, uint64(len(payload)))
		}
		b = PutField(b, 1, payload)
		if e.RawSize && e.SizeAfter {
			b = PutVarField(b, 2, uint64(len(payload)))
		}
		return b
	}
	lvl := e.Zlib
	if lvl == 10 {
		lvl = 0
	}
	var z bytes.Buffer
	w, err := zlib.NewWriterLevel(&z, lvl)
	if err != nil {
		panic(err)
	}
	if e.Flush {
		h := len(payload) / 2
		w.Write(payload[:h])
		w.Flush()
		w.Write(payload[h:])
	} else {
		w.Write(payload)
	}
	w.Close()
	var b []byte
	if !e.SizeAfter {
		b = PutVarField(b, 2, uint64(len(payload)))
	}
	b = PutField(b, 3, z.Bytes())
	if e.SizeAfter {
		b = PutVarField(b, 2, uint64(len(payload)))
	}
	return b
}

// FrameBlob puts the length and blob header in front of a blob.
func FrameBlob(typ string, blob []byte, swap bool) []byte {
	return append(FrameHeader(typ, len(blob), swap), blob...)
}

// FrameHeader is what stands in front of a blob of size bytes.
func FrameHeader(typ string, size int, swap bool) []byte {
	var h []byte
	if swap {
		h = PutVarField(h, 3, uint64(size))
		h = PutField(h, 1, []byte(typ))
	} else {
		h = PutField(h, 1, []byte(typ))
		h = PutVarField(h, 3, uint64(size))
	}
	out := binary.BigEndian.AppendUint32(nil, uint32(len(h)))
	return append(out, h...)
}

func (b *Block) Bytes() []byte {
	return FrameBlob(b.Type, BlobBytes(b.Payload(), b.Enc), b.Enc.HdrSwap)
}

func (f *File) Bytes() []byte {
	var out []byte
	for _, b := range f.Blocks {
		out = append(out, b.Bytes()...)
	}
	return out
}

// ---- strict decoder ----

type RawBlock struct {
	Type       string
	Off, Len   int // of the whole framed block in the file
	HeaderEnd  int // offset of the first blob byte
	Blob       []byte
	Payload    []byte
	Compressed bool
}

func SplitFile(b []byte) ([]RawBlock, error) {
	var out []RawBlock
	off := 0
	for off < len(b) {
		if len(b)-off < 4 {
			return nil, fmt.Errorf("block %d: truncated length", len(out))
		}
		hl := int(binary.BigEndian.Uint32(b[off:]))
		if hl > len(b)-off-4 {
			return nil, fmt.Errorf("block %d: truncated header", len(out))
		}
		fs, err := Fields(b[off+4 : off+4+hl])
		if err != nil {
			return nil, fmt.Errorf("block %d header: %v", len(out), err)
		}
		rb := RawBlock{Off: off}
		size := -1
		for _, f := range fs {
			switch {
			case f.Num == 1 && f.Wire == 2:
				rb.Type = string(f.Data)
			case f.Num == 3 && f.Wire == 0:
				size = int(f.Int)
			default:
				return nil, fmt.Errorf("block %d header: field %d/%d", len(out), f.Num, f.Wire)
			}
		}
		if size < 0 {
			size = 0
		}
		rb.HeaderEnd = off + 4 + hl
		if size > len(b)-rb.HeaderEnd {
			return nil, fmt.Errorf("block %d: truncated blob", len(out))
		}
		rb.Blob = b[rb.HeaderEnd : rb.HeaderEnd+size]
		rb.Len = 4 + hl + size
		off += rb.Len
		if err := rb.decodeBlob(); err != nil {
			return nil, fmt.Errorf("block %d (%s): %v", len(out), rb.Type, err)
		}
		out = append(out, rb)
	}
	return out, nil
}

func (rb *RawBlock) decodeBlob() error {
	fs, err := Fields(rb.Blob)
	if err != nil {
		return err
	}
	size := -1
	var raw, z []byte
	for _, f := range fs {
		switch {
		case f.Num == 1 && f.Wire == 2:
			raw = f.Data
			if raw == nil {
				raw = []byte{}
			}
		case f.Num == 2 && f.Wire == 0:
			size = int(f.Int)
		case f.Num == 3 && f.Wire == 2:
			z = f.Data
		default:
			return fmt.Errorf("blob field %d/%d", f.Num, f.Wire)
		}
	}
	switch {
	case raw != nil && z == nil:
		rb.Payload = raw
	case z != nil && raw == nil:
		rb.Compressed = true
		r, err := zlib.NewReader(bytes.NewReader(z))
		if err != nil {
			return err
		}
		p, err := io.ReadAll(r)
		if err != nil {
			return err
		}
		if len(p) != size {
			return fmt.Errorf("raw_size %d but %d bytes", size, len(p))
		}
		rb.Payload = p
	default:
		return fmt.Errorf("blob has neither or both of raw and zlib data")
	}
	return nil
}

func str(tab []string, i uint64) (string, error) {
	if i >= uint64(len(tab)) {
		return "", fmt.Errorf("string number %d out of %d", i, len(tab))
	}
	return tab[i], nil
}

func mkTags(tab []string, ks, vs []uint64) ([]Tag, error) {
	if len(ks) != len(vs) {
		return nil, fmt.Errorf("%d keys, %d values", len(ks), len(vs))
	}
	var ts []Tag
	for i := range ks {
		k, err := str(tab, ks[i])
		if err != nil {
			return nil, err
		}
		v, err := str(tab, vs[i])
		if err != nil {
			return nil, err
		}
		ts = append(ts, Tag{k, v})
	}
	return ts, nil
}

// DecodeBlock decodes an OSMData payload, refusing anything unknown.
func DecodeBlock(payload []byte) (*Block, error) {
	b := NewBlock()
	fs, err := Fields(payload)
	if err != nil {
		return nil, err
	}
	st := -1
	for i, f := range fs {
		switch {
		case f.Num == 1 && f.Wire == 2:
			if st >= 0 {
				return nil, fmt.Errorf("two string tables")
			}
			st = i
			ss, err := Fields(f.Data)
			if err != nil {
				return nil, err
			}
			for _, s := range ss {
				if s.Num != 1 || s.Wire != 2 {
					return nil, fmt.Errorf("string table field %d/%d", s.Num, s.Wire)
				}
				b.Strings = append(b.Strings, string(s.Data))
			}
		case f.Num == 2 && f.Wire == 2:
			b.RawGroups = append(b.RawGroups, f.Data)
		case f.Num == 17 && f.Wire == 0:
			b.Gran = int32(f.Int)
		case f.Num == 18 && f.Wire == 0:
			b.DateGran = int32(f.Int)
		case f.Num == 19 && f.Wire == 0:
			b.LatOff = int64(f.Int)
		case f.Num == 20 && f.Wire == 0:
			b.LonOff = int64(f.Int)
		default:
			return nil, fmt.Errorf("primitive block field %d/%d", f.Num, f.Wire)
		}
		if f.Num >= 17 {
			b.ScalarsExplicit = append(b.ScalarsExplicit, f.Num)
		}
	}
	sort.Ints(b.ScalarsExplicit)
	for gi, rg := range b.RawGroups {
		g, err := decodeGroup(rg, b.Strings)
		if err != nil {
			return nil, fmt.Errorf("group %d: %v", gi, err)
		}
		b.Groups = append(b.Groups, *g)
	}
	return b, nil
}

func decodeGroup(data []byte, tab []string) (*Group, error) {
	g := &Group{}
	fs, err := Fields(data)
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		if f.Wire != 2 {
			return nil, fmt.Errorf("field %d/%d", f.Num, f.Wire)
		}
		switch f.Num {
		case 2:
			if g.Dense != nil {
				return nil, fmt.Errorf("two dense sections")
			}
			if g.Dense, err = decodeDense(f.Data, tab); err != nil {
				return nil, fmt.Errorf("dense: %v", err)
			}
		case 3:
			w, err := decodeWay(f.Data, tab)
			if err != nil {
				return nil, fmt.Errorf("way #%d: %v", len(g.Ways), err)
			}
			g.Ways = append(g.Ways, *w)
		case 4:
			r, err := decodeRel(f.Data, tab)
			if err != nil {
				return nil, fmt.Errorf("relation #%d: %v", len(g.Rels), err)
			}
			g.Rels = append(g.Rels, *r)
		case 5:
			g.ChangeSets = append(g.ChangeSets, f.Data)
		default:
			return nil, fmt.Errorf("field %d", f.Num)
		}
	}
	return g, nil
}

func decodeDense(data []byte, tab []string) (*Dense, error) {
	d := &Dense{}
	fs, err := Fields(data)
	if err != nil {
		return nil, err
	}
	var ids, lats, lons []int64
	var kv []uint64
	seen := map[int]bool{}
	for _, f := range fs {
		if f.Wire != 2 || seen[f.Num] {
			return nil, fmt.Errorf("field %d/%d", f.Num, f.Wire)
		}
		seen[f.Num] = true
		switch f.Num {
		case 1:
			ids, err = UnpackDelta(f.Data)
		case 5:
			d.Info = f.Data
		case 8:
			lats, err = UnpackDelta(f.Data)
		case 9:
			lons, err = UnpackDelta(f.Data)
		case 10:
			kv, err = UnpackU(f.Data)
		default:
			err = fmt.Errorf("field %d", f.Num)
		}
		if err != nil {
			return nil, err
		}
	}
	if len(ids) != len(lats) || len(ids) != len(lons) {
		return nil, fmt.Errorf("%d ids, %d lats, %d lons", len(ids), len(lats), len(lons))
	}
	d.NoKV = len(kv) == 0
	p := 0
	for i := range ids {
		n := Node{ID: ids[i], Lat: lats[i], Lon: lons[i]}
		if len(kv) > 0 {
			for {
				if p >= len(kv) {
					return nil, fmt.Errorf("key/values end early at node #%d", i)
				}
				if kv[p] == 0 {
					p++
					break
				}
				if p+1 >= len(kv) {
					return nil, fmt.Errorf("key without value at node #%d", i)
				}
				ts, err := mkTags(tab, kv[p:p+1], kv[p+1:p+2])
				if err != nil {
					return nil, fmt.Errorf("node #%d: %v", i, err)
				}
				n.Tags = append(n.Tags, ts[0])
				p += 2
			}
		}
		d.Nodes = append(d.Nodes, n)
	}
	if p != len(kv) {
		return nil, fmt.Errorf("%d key/values left over", len(kv)-p)
	}
	return d, nil
}

func decodeWay(data []byte, tab []string) (*Way, error) {
	w := &Way{}
	fs, err := Fields(data)
	if err != nil {
		return nil, err
	}
	var ks, vs []uint64
	for _, f := range fs {
		switch {
		case f.Num == 1 && f.Wire == 0:
			w.ID = int64(f.Int)
		case f.Num == 2 && f.Wire == 2:
			ks, err = UnpackU(f.Data)
		case f.Num == 3 && f.Wire == 2:
			vs, err = UnpackU(f.Data)
		case f.Num == 4 && f.Wire == 2:
			w.Info = f.Data
		case f.Num == 8 && f.Wire == 2:
			w.Refs, err = UnpackDelta(f.Data)
		default:
			err = fmt.Errorf("field %d/%d", f.Num, f.Wire)
		}
		if err != nil {
			return nil, err
		}
	}
	w.Tags, err = mkTags(tab, ks, vs)
	return w, err
}

func decodeRel(data []byte, tab []string) (*Rel, error) {
	r := &Rel{}
	fs, err := Fields(data)
	if err != nil {
		return nil, err
	}
	var ks, vs, roles, types []uint64
	var ids []int64
	for _, f := range fs {
		switch {
		case f.Num == 1 && f.Wire == 0:
			r.ID = int64(f.Int)
		case f.Num == 2 && f.Wire == 2:
			ks, err = UnpackU(f.Data)
		case f.Num == 3 && f.Wire == 2:
			vs, err = UnpackU(f.Data)
		case f.Num == 4 && f.Wire == 2:
			r.Info = f.Data
		case f.Num == 8 && f.Wire == 2:
			roles, err = UnpackU(f.Data)
		case f.Num == 9 && f.Wire == 2:
			ids, err = UnpackDelta(f.Data)
		case f.Num == 10 && f.Wire == 2:
			types, err = UnpackU(f.Data)
		default:
			err = fmt.Errorf("field %d/%d", f.Num, f.Wire)
		}
		if err != nil {
			return nil, err
		}
	}
	if r.Tags, err = mkTags(tab, ks, vs); err != nil {
		return nil, err
	}
	if len(roles) != len(ids) || len(types) != len(ids) {
		return nil, fmt.Errorf("%d roles, %d ids, %d types", len(roles), len(ids), len(types))
	}
	for i := range ids {
		role, err := str(tab, roles[i])
		if err != nil {
			return nil, err
		}
		r.Members = append(r.Members, Member{Type: int(types[i]), ID: ids[i], Role: role})
	}
	return r, nil
}

// ParsePBF decodes a whole file.
func ParsePBF(data []byte) (*File, []RawBlock, error) {
	raw, err := SplitFile(data)
	if err != nil {
		return nil, nil, err
	}
	f := &File{}
	for i, rb := range raw {
		if rb.Type != "OSMData" {
			p := rb.Payload
			if p == nil {
				p = []byte{}
			}
			f.Blocks = append(f.Blocks, &Block{Type: rb.Type, Opaque: p})
			continue
		}
		b, err := DecodeBlock(rb.Payload)
		if err != nil {
			return nil, nil, fmt.Errorf("block %d: %v", i, err)
		}
		f.Blocks = append(f.Blocks, b)
	}
	return f, raw, nil
}
