package lib

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
)

// ---- locations ----

// Interleave puts e's bits into the even and o's bits into the odd positions,
// one bit at a time.
func Interleave(e, o uint32) uint64 {
	var x uint64
	for i := uint(0); i < 32; i++ {
		x |= uint64(e>>i&1) << (2 * i)
		x |= uint64(o>>i&1) << (2*i + 1)
	}
	return x
}

func Deinterleave(x uint64) (e, o uint32) {
	for i := uint(0); i < 32; i++ {
		e |= uint32(x>>(2*i)&1) << i
		o |= uint32(x>>(2*i+1)&1) << i
	}
	return
}

// Loc is the stored form of a position (1e-7 degrees).
func Loc(lon, lat int32) int64 {
	return int64(Interleave(uint32(lon), uint32(lat)|0x80000000))
}

// UnLoc is the position of a stored location.
func UnLoc(v int64) (lon, lat int32) {
	e, o := Deinterleave(uint64(v))
	o &= 0x7fffffff
	if o&0x40000000 != 0 {
		o |= 0x80000000
	}
	return int32(e), int32(o)
}

// Pos is the node's position in units of 1e-7 degrees, finer digits dropped
// (towards zero).
func (b *Block) Pos(n Node) (lon, lat int32) {
	la := b.LatOff + int64(b.Gran)*n.Lat
	lo := b.LonOff + int64(b.Gran)*n.Lon
	return int32(lo / 100), int32(la / 100)
}

// ---- flat views ----

type FlatNode struct {
	ID       int64
	Lon, Lat int32 // 1e-7 degrees
	NLon     int64 // nanodegrees
	NLat     int64
	Tags     []Tag
}

func (f *File) Nodes() []FlatNode {
	var out []FlatNode
	for _, b := range f.Blocks {
		for _, g := range b.Groups {
			if g.Dense == nil {
				continue
			}
			for _, n := range g.Dense.Nodes {
				lo, la := b.Pos(n)
				out = append(out, FlatNode{ID: n.ID, Lon: lo, Lat: la, Tags: n.Tags,
					NLat: b.LatOff + int64(b.Gran)*n.Lat, NLon: b.LonOff + int64(b.Gran)*n.Lon})
			}
		}
	}
	return out
}

func (f *File) Ways() []Way {
	var out []Way
	for _, b := range f.Blocks {
		for _, g := range b.Groups {
			out = append(out, g.Ways...)
		}
	}
	return out
}

func (f *File) Rels() []Rel {
	var out []Rel
	for _, b := range f.Blocks {
		for _, g := range b.Groups {
			out = append(out, g.Rels...)
		}
	}
	return out
}

// LocMap is the reference node index.
func (f *File) LocMap() map[int64]int64 {
	m := map[int64]int64{}
	for _, n := range f.Nodes() {
		m[n.ID] = Loc(n.Lon, n.Lat)
	}
	return m
}

// Collapse drops consecutive repeats.
func Collapse(refs []int64) []int64 {
	var out []int64
	for i, r := range refs {
		if i == 0 || refs[i-1] != r {
			out = append(out, r)
		}
	}
	return out
}

// WayMap is the reference way index.
func (f *File) WayMap() map[int64][]int64 {
	m := map[int64][]int64{}
	for _, w := range f.Ways() {
		m[w.ID] = Collapse(w.Refs)
	}
	return m
}

// RelIdx is the reference relation index.
func (f *File) RelIdx(ways map[int64][]int64) []byte {
	var out []byte
	put := func(v int64) { out = binary.LittleEndian.AppendUint64(out, uint64(v)) }
	for _, r := range f.Rels() {
		put(r.ID)
		n := int64(0)
		for _, m := range r.Members {
			if m.Type == MWay {
				n++
			}
		}
		put(n)
		for _, m := range r.Members {
			if m.Type != MWay {
				continue
			}
			put(m.ID)
			l := ways[m.ID]
			put(int64(len(l)))
			for _, v := range l {
				put(v)
			}
		}
	}
	return out
}

// ResolveRefs is the reference rewrite of one reference list.
func ResolveRefs(refs []int64, locs map[int64]int64) []int64 {
	out := make([]int64, len(refs))
	for i, r := range refs {
		out[i] = r
		if r >= 0 {
			if l, ok := locs[r]; ok {
				out[i] = l
			}
		}
	}
	return out
}

// Rewritten gives the file rewritenodes should produce, in content.
func (f *File) Rewritten(locs map[int64]int64) *File {
	out := &File{}
	for _, b := range f.Blocks {
		nb := *b
		nb.Groups = nil
		for _, g := range b.Groups {
			ng := g
			ng.Ways = nil
			for _, w := range g.Ways {
				nw := w
				nw.Refs = ResolveRefs(w.Refs, locs)
				ng.Ways = append(ng.Ways, nw)
			}
			nb.Groups = append(nb.Groups, ng)
		}
		out.Blocks = append(out.Blocks, &nb)
	}
	return out
}

// ---- comparisons ----

func SortTags(ts []Tag) []Tag {
	o := append([]Tag{}, ts...)
	sort.Slice(o, func(i, j int) bool {
		if o[i].K != o[j].K {
			return o[i].K < o[j].K
		}
		return o[i].V < o[j].V
	})
	return o
}

func EqTags(a, b []Tag, ordered bool) bool {
	if len(a) != len(b) {
		return false
	}
	if !ordered {
		a, b = SortTags(a), SortTags(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func EqI64(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type CmpOpts struct {
	TagOrder  bool // tag order must match
	Info      bool // node and relation metadata must match
	WayInfo   bool
	Scalars   bool // granularity and offsets must match exactly
	DenseKind bool
}

func diffWay(a, b Way, o CmpOpts) string {
	if a.ID != b.ID {
		return fmt.Sprintf("way id %d, want %d", b.ID, a.ID)
	}
	if !EqTags(a.Tags, b.Tags, o.TagOrder) {
		return fmt.Sprintf("way %d tags %v, want %v", a.ID, b.Tags, a.Tags)
	}
	if !EqI64(a.Refs, b.Refs) {
		for i := 0; i < len(a.Refs) && i < len(b.Refs); i++ {
			if a.Refs[i] != b.Refs[i] {
				return fmt.Sprintf("way %d (%d refs, want %d) ref #%d = %d, want %d", a.ID, len(b.Refs), len(a.Refs), i, b.Refs[i], a.Refs[i])
			}
		}
		return fmt.Sprintf("way %d has %d refs, want %d", a.ID, len(b.Refs), len(a.Refs))
	}
	if o.WayInfo && !bytes.Equal(a.Info, b.Info) {
		return fmt.Sprintf("way %d metadata", a.ID)
	}
	return ""
}

func diffRel(a, b Rel, o CmpOpts) string {
	if a.ID != b.ID {
		return fmt.Sprintf("relation id %d, want %d", b.ID, a.ID)
	}
	if !EqTags(a.Tags, b.Tags, o.TagOrder) {
		return fmt.Sprintf("relation %d tags %v, want %v", a.ID, b.Tags, a.Tags)
	}
	if len(a.Members) != len(b.Members) {
		return fmt.Sprintf("relation %d has %d members, want %d", a.ID, len(b.Members), len(a.Members))
	}
	for i := range a.Members {
		if a.Members[i] != b.Members[i] {
			return fmt.Sprintf("relation %d member #%d %v, want %v", a.ID, i, b.Members[i], a.Members[i])
		}
	}
	if o.Info && !bytes.Equal(a.Info, b.Info) {
		return fmt.Sprintf("relation %d metadata %x, want %x", a.ID, b.Info, a.Info)
	}
	return ""
}

func DiffWays(want, got []Way, o CmpOpts) string {
	for i := 0; i < len(want) && i < len(got); i++ {
		if d := diffWay(want[i], got[i], o); d != "" {
			return fmt.Sprintf("way #%d: %s", i, d)
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d ways, want %d", len(got), len(want))
	}
	return ""
}

func DiffRels(want, got []Rel, o CmpOpts) string {
	for i := 0; i < len(want) && i < len(got); i++ {
		if d := diffRel(want[i], got[i], o); d != "" {
			return fmt.Sprintf("relation #%d: %s", i, d)
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d relations, want %d", len(got), len(want))
	}
	return ""
}

// DiffBlock compares the content of two blocks; "" when equal.
func DiffBlock(want, got *Block, o CmpOpts) string {
	if want.Type != got.Type {
		return fmt.Sprintf("type %q, want %q", got.Type, want.Type)
	}
	if want.Opaque != nil || got.Opaque != nil {
		if want.Type != "OSMData" {
			if !bytes.Equal(want.Opaque, got.Opaque) {
				return "header payload differs"
			}
			return ""
		}
	}
	if o.Scalars && (want.Gran != got.Gran || want.LatOff != got.LatOff || want.LonOff != got.LonOff || want.DateGran != got.DateGran) {
		return fmt.Sprintf("granularity/offsets %d/%d/%d/%d, want %d/%d/%d/%d", got.Gran, got.DateGran, got.LatOff, got.LonOff,
			want.Gran, want.DateGran, want.LatOff, want.LonOff)
	}
	if len(want.Groups) != len(got.Groups) {
		return fmt.Sprintf("%d groups, want %d", len(got.Groups), len(want.Groups))
	}
	for i := range want.Groups {
		a, b := &want.Groups[i], &got.Groups[i]
		an, bn := 0, 0
		if a.Dense != nil {
			an = len(a.Dense.Nodes)
		}
		if b.Dense != nil {
			bn = len(b.Dense.Nodes)
		}
		if an != bn {
			return fmt.Sprintf("group %d: %d nodes, want %d", i, bn, an)
		}
		if an > 0 {
			for j := range a.Dense.Nodes {
				x, y := a.Dense.Nodes[j], b.Dense.Nodes[j]
				if x.ID != y.ID || x.Lat != y.Lat || x.Lon != y.Lon || !EqTags(x.Tags, y.Tags, o.TagOrder) {
					return fmt.Sprintf("group %d node #%d: %+v, want %+v", i, j, y, x)
				}
			}
			if o.Info && !bytes.Equal(a.Dense.Info, b.Dense.Info) {
				return fmt.Sprintf("group %d: dense metadata differs", i)
			}
		}
		if d := DiffWays(a.Ways, b.Ways, o); d != "" {
			return fmt.Sprintf("group %d: %s", i, d)
		}
		if d := DiffRels(a.Rels, b.Rels, o); d != "" {
			return fmt.Sprintf("group %d: %s", i, d)
		}
	}
	return ""
}

func DiffFile(want, got *File, o CmpOpts) string {
	for i := 0; i < len(want.Blocks) && i < len(got.Blocks); i++ {
		if d := DiffBlock(want.Blocks[i], got.Blocks[i], o); d != "" {
			return fmt.Sprintf("block %d: %s", i, d)
		}
	}
	if len(want.Blocks) != len(got.Blocks) {
		return fmt.Sprintf("%d blocks, want %d", len(got.Blocks), len(want.Blocks))
	}
	return ""
}

// DiffBytes describes the first difference.
func DiffBytes(want, got []byte) string {
	if bytes.Equal(want, got) {
		return ""
	}
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			return fmt.Sprintf("%d bytes, want %d; first difference at offset %d", len(got), len(want), i)
		}
	}
	return fmt.Sprintf("%d bytes, want %d; equal up to the shorter end", len(got), len(want))
}
