package lib

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
)

type Rng = rand.Rand

// NewRng gives the random stream for one case.
func NewRng(seed uint64, stream ...uint64) *Rng {
	h := seed*0x9e3779b97f4a7c15 + 0x1234567
	for _, s := range stream {
		h ^= s + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return rand.New(rand.NewPCG(seed, h))
}

// StrStream turns a name into a stream number.
func StrStream(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

const (
	IDConsecutive = iota
	IDStep2
	IDMix
	IDSparse
	IDAlternate
	IDRuns
	IDHuge
	idStyles
)

type GenOpts struct {
	Nodes, Ways, Rels int
	BlockMax          int   // at most this many entities in a group
	IDStyle           int   // -1: random
	Start             int64 // 0: random
	NegRefs           bool  // some references already are locations
	LongWays          int   // this many ways of up to 2000 references
	MaxRefs           int   // usual limit on references per way
	MaxMembers        int
	BigRel            int  // one relation with this many members
	Plain             bool // no unusual encodings
	Blank             bool // blocks and headers with empty payloads allowed
	ManyWayIDs        bool // way ids up to 2^31-1
	NoAbsent          bool // no references to missing entities
	NodeTags          int  // percentage of nodes with tags
	Zlib              int  // -1: random, otherwise fixed
	Skew              int  // pad the first data block to about this many bytes
	HugeBlock         int  // one opaque tag value of this size in some block
	IncompMB          int
	Presence          int // percentage of duplicate consecutive refs
	Gran100           bool
	NoEmptyKey        bool
	WideIDs           bool // way ids up to 2^45, relation ids up to 2^60
	Interleave        bool // blocks of nodes, ways and relations take turns
	Scramble          bool // blocks in any order, some of them repeated
	Strings           bool // many different strings, some of them long
	TagFlood          int  // this many more tags of their own on every entity with tags
	HeavyWay          int  // one way with this many references
	OneGroup          bool // all nodes, dense and far apart, in one section
}

func DefaultGen() GenOpts {
	return GenOpts{Nodes: 60, Ways: 25, Rels: 12, BlockMax: 20, IDStyle: -1, MaxRefs: 12, MaxMembers: 8, NodeTags: 40, Zlib: -1, Presence: 15}
}

// Heavy makes one thing too large for short length fields: of more than 2 MiB,
// or with more than 16 KiB of tags.
func (o *GenOpts) Heavy(which int) string {
	switch which % 4 {
	case 0:
		o.Nodes, o.OneGroup, o.Ways, o.Rels = 560000, true, 5, 5
		return "dense section"
	case 1:
		o.Nodes, o.Ways, o.HeavyWay, o.NegRefs = 3000, 5, 700000, true
		return "way"
	case 2:
		o.Ways, o.Rels, o.BigRel = 3000, 5, 900000
		return "relation"
	default:
		o.Nodes, o.Ways, o.Rels, o.TagFlood, o.NodeTags = 10, 12, 12, 9000, 60
		return "number of tags"
	}
}

// The respects in which Large makes a file large.
const (
	LargeDense = iota
	LargeWay
	LargeRel
	LargeTags
	LargeBlocks
	LargeIDs
	LargePayload
)

// Large makes a file large in one respect: what Heavy does, more than 2^16
// blocks, long runs of ids beyond 2^40, or a block of almost 32 MiB.
func (o *GenOpts) Large(kind int, r *Rng) string {
	switch kind {
	case LargeBlocks:
		o.Nodes, o.Ways, o.Rels, o.BlockMax, o.Zlib, o.TagFlood = 110000, 3000, 1000, 1, 0, 0
		return "number of blocks"
	case LargeIDs:
		o.Nodes, o.BlockMax, o.IDStyle, o.Start = 20000, 8000, IDConsecutive, 1<<(40+r.IntN(21))
		return "ids"
	case LargePayload:
		o.HugeBlock = 32<<20 - 1<<16
		if o.Nodes == 0 {
			o.Nodes = 5
		}
		return "payload"
	}
	if kind == LargeWay {
		o.Presence = 15
	}
	return o.Heavy(kind)
}

// DiscardKeys and DiscardPrefixes are the frozen lists the tag filter is
// specified with (osm2pgsql's list of tags to drop).
var DiscardKeys = []string{
	"note", "source", "source_ref", "attribution", "comment", "fixme", "created_by", "odbl", "odbl:note",
	"project:eurosha_2012", "ref:UrbIS", "accuracy:meters", "sub_sea:type", "waterway:type", "statscan:rbuid",
	"ref:ruian:addr", "ref:ruian", "building:ruian:type", "dibavod:id", "uir_adr:ADRESA_KOD", "gst:feat_id",
	"maaamet:ETAK", "ref:FR:FANTOIR", "3dshapes:ggmodelk", "AND_nosr_r", "OPPDATERIN", "addr:city:simc",
	"addr:street:sym_ul", "building:usage:pl", "building:use:pl", "teryt:simc", "raba:id", "dcgis:gis_id",
	"nycdoitt:bin", "chicago:building_id", "lojic:bgnum", "massgis:way_id", "import", "import_uuid", "OBJTYPE",
	"SK53_bulk:load",
}

var DiscardPrefixes = []string{
	"note:", "source:", "CLC:", "geobase:", "canvec:", "osak:", "kms:", "ngbe:", "it:fvg:", "KSJ2:", "yh:",
	"LINZ2OSM:", "linz2osm:", "LINZ:", "WroclawGIS:", "naptan:", "tiger:", "gnis:", "NHD:", "nhd:", "mvdgis:",
}

func Discardable(k string) bool {
	for _, d := range DiscardKeys {
		if k == d {
			return true
		}
	}
	for _, p := range DiscardPrefixes {
		if len(k) >= len(p) && k[:len(p)] == p {
			return true
		}
	}
	return false
}

var plainKeys = []string{"name", "highway", "building", "amenity", "ref", "addr:city", "addr:street", "wikidata", "surface",
	"地名", "ключ", "name:en", "a", "b", "z", "oneway", "maxspeed", "type", "boundary", "é", "x y", "k=v", "k%s", "%", "\"q\"", "line\nbreak", "tab\t"}

func (g *gen) key() string {
	r := g.r
	switch r.IntN(10) {
	case 0, 1:
		return DiscardKeys[r.IntN(len(DiscardKeys))]
	case 2:
		return DiscardPrefixes[r.IntN(len(DiscardPrefixes))] + []string{"", "x", "en", "note", ":", "date"}[r.IntN(6)]
	case 3: // near misses of whole keys
		k := DiscardKeys[r.IntN(len(DiscardKeys))]
		switch r.IntN(5) {
		case 0:
			return k + "s"
		case 1:
			return "x" + k
		case 2:
			return k[:len(k)-1]
		case 3:
			return k + "_2"
		default:
			return flipCase(k)
		}
	case 4: // near misses of prefixes
		k := DiscardPrefixes[r.IntN(len(DiscardPrefixes))]
		switch r.IntN(4) {
		case 0:
			return "old_" + k + "x"
		case 1:
			return k[:len(k)-1]
		case 2:
			return k[:len(k)-1] + "_x"
		default:
			return flipCase(k) + "y"
		}
	case 5:
		return fmt.Sprintf("key%d", r.IntN(400))
	default:
		return plainKeys[r.IntN(len(plainKeys))]
	}
}

func flipCase(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
			break
		} else if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
			break
		}
	}
	return string(b)
}

var plainVals = []string{"yes", "no", "residential", "", "1", "note", "source", "tiger:x", "name", "Straße", "日本語", "a;b;c", "%d", "\\", "\"", "{}", "}", "\n", "-1.5"}

func (g *gen) val() string {
	r := g.r
	if g.o.Strings {
		switch r.IntN(60) {
		case 0:
			return strings.Repeat("long ", 20+r.IntN(60))
		case 1:
			return strings.Repeat("é", 60+r.IntN(8))
		case 2:
			if r.IntN(20) == 0 {
				return strings.Repeat("x", 16380+r.IntN(8))
			}
		}
		if r.IntN(3) > 0 {
			return fmt.Sprintf("u%d", r.Uint32())
		}
	}
	switch r.IntN(5) {
	case 0:
		return fmt.Sprintf("v%d", r.IntN(2000))
	case 1:
		return plainKeys[r.IntN(len(plainKeys))]
	default:
		return plainVals[r.IntN(len(plainVals))]
	}
}

func (g *gen) tags(max int, emptyKey bool) []Tag {
	n := g.r.IntN(max + 1)
	var ts []Tag
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := g.key()
		if emptyKey && g.r.IntN(40) == 0 {
			k = ""
		}
		if seen[k] || (k == "" && !emptyKey) {
			continue
		}
		seen[k] = true
		ts = append(ts, Tag{k, g.val()})
	}
	for i := 0; i < g.o.TagFlood && n > 0; i++ {
		g.flood++
		ts = append(ts, Tag{fmt.Sprintf("k%d", g.flood), fmt.Sprintf("of%d", g.flood)})
	}
	return ts
}

type gen struct {
	r     *Rng
	o     GenOpts
	flood int
}

func (g *gen) idStep(style int) int64 {
	r := g.r
	switch style {
	case IDConsecutive:
		return 1
	case IDStep2:
		return 2
	case IDMix:
		return []int64{1, 1, 1, 2, 2, 3, 4, 10, 100000}[r.IntN(9)]
	case IDSparse:
		return 1 + r.Int64N(1<<24)
	case IDAlternate:
		return 1 + r.Int64N(2)
	case IDHuge:
		return []int64{1, 2, 3, 1 << 40}[r.IntN(4)]
	}
	return 1
}

// ascending makes n ascending positive ids not above limit.
func (g *gen) ascending(n int, style int, start, limit int64) []int64 {
	r := g.r
	if style < 0 {
		style = r.IntN(idStyles)
	}
	if start == 0 {
		start = []int64{1, 1, 1, 2, 3, 4, 17, 1000, 1 + r.Int64N(1<<20), 1 + r.Int64N(1<<33)}[r.IntN(10)]
		if style == IDHuge {
			start = 1 + r.Int64N(1<<61)
		}
	}
	if start > limit/2 {
		start = 1 + start%1000
	}
	out := make([]int64, 0, n)
	id := start
	runLeft := r.IntN(50)
	for len(out) < n && id <= limit {
		out = append(out, id)
		st := int64(1)
		if style == IDRuns {
			if runLeft == 0 {
				runLeft = r.IntN(50)
				st = []int64{2, 3, 3, 4, 50}[r.IntN(5)]
			}
			runLeft--
		} else {
			st = g.idStep(style)
		}
		if id > limit-st {
			break
		}
		id += st
	}
	return out
}

func (g *gen) newBlock() *Block {
	r := g.r
	b := NewBlock()
	if g.o.Zlib >= 0 {
		b.Enc.Zlib = g.o.Zlib
	} else {
		b.Enc.Zlib = []int{0, 0, 1, 6, 9, 10}[r.IntN(6)]
	}
	if g.o.Plain {
		return b
	}
	b.Enc.Flush = r.IntN(4) == 0
	b.Enc.SizeAfter = r.IntN(3) == 0
	b.Enc.RawSize = r.IntN(2) == 0
	b.Enc.Explicit = r.IntN(4) == 0
	b.Enc.STLast = r.IntN(5) == 0
	b.Enc.HdrSwap = r.IntN(5) == 0
	b.Enc.PadVarints = r.IntN(6) == 0
	b.Enc.STUnused = []int{0, 0, 1, 3, 200}[r.IntN(5)]
	b.Enc.STDup = r.IntN(5) == 0
	b.Enc.Shuffle = r.Uint64() % 1000
	if r.IntN(3) == 0 {
		b.DateGran = []int32{1, 100, 1000, 60000}[r.IntN(4)]
	}
	if !g.o.Gran100 && r.IntN(2) == 0 {
		b.Gran = []int32{1, 7, 10, 50, 99, 100, 101, 200, 1000, 12345, 100000}[r.IntN(11)]
		switch r.IntN(4) {
		case 0:
			b.LatOff = r.Int64N(2_000_000_001) - 1_000_000_000
			b.LonOff = r.Int64N(2_000_000_001) - 1_000_000_000
		case 1:
			b.LatOff = -1
			b.LonOff = 1
		case 2:
			b.LatOff = 45_000_000_000
			b.LonOff = -120_000_000_000
		}
	}
	return b
}

func clamp(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// rawRange gives the raw coordinates whose position stays within +-limit
// nanodegrees.
func rawRange(limit, off int64, gran int32) (int64, int64) {
	g := int64(gran)
	return -floorDiv(limit+off, g), floorDiv(limit-off, g)
}

type coords struct {
	style  int
	la, lo int64
}

func (g *gen) coord(b *Block, c *coords) (int64, int64) {
	r := g.r
	la0, la1 := rawRange(90_000_000_000, b.LatOff, b.Gran)
	lo0, lo1 := rawRange(180_000_000_000, b.LonOff, b.Gran)
	uni := func(a, z int64) int64 { return a + r.Int64N(z-a+1) }
	switch c.style {
	case 0:
		return uni(la0, la1), uni(lo0, lo1)
	case 1: // extremes
		e := func(a, z int64) int64 {
			switch r.IntN(6) {
			case 0:
				return a
			case 1:
				return z
			case 2:
				return clamp(a+r.Int64N(3), a, z)
			case 3:
				return clamp(z-r.Int64N(3), a, z)
			case 4:
				return clamp(0, a, z)
			default:
				return clamp(-1+r.Int64N(3), a, z)
			}
		}
		return e(la0, la1), e(lo0, lo1)
	case 2: // random walk
		c.la = clamp(c.la+r.Int64N(2001)-1000, la0, la1)
		c.lo = clamp(c.lo+r.Int64N(2001)-1000, lo0, lo1)
		return c.la, c.lo
	default: // around zero degrees
		z := func(off int64, a, b2 int64, gr int32) int64 {
			return clamp(-off/int64(gr)+r.Int64N(41)-20, a, b2)
		}
		return z(b.LatOff, la0, la1, b.Gran), z(b.LonOff, lo0, lo1, b.Gran)
	}
}

func (g *gen) info() []byte {
	if g.o.Plain || g.r.IntN(3) > 0 {
		return nil
	}
	n := g.r.IntN(20)
	b := make([]byte, 0, n)
	b = PutVarField(b, 1, uint64(g.r.IntN(500)))
	for i := 0; i < n; i++ {
		b = PutVarField(b, 2, g.r.Uint64()>>uint(g.r.IntN(64)))
	}
	return b
}

func headerBlock(r *Rng, blank bool) *Block {
	b := &Block{Type: "OSMHeader"}
	var p []byte
	p = PutField(p, 4, []byte("OsmSchema-V0.6"))
	p = PutField(p, 4, []byte("DenseNodes"))
	if r.IntN(2) == 0 {
		p = PutField(p, 16, []byte(fmt.Sprintf("generator-%d", r.IntN(1000))))
	}
	if blank && r.IntN(3) == 0 {
		p = []byte{}
	}
	b.Opaque = p
	b.Enc.Zlib = []int{0, 6}[r.IntN(2)]
	return b
}

// Gen makes a well-formed file: nodes, then ways, then relations, with
// ascending ids, split into blocks and groups at random.
func Gen(r *Rng, o GenOpts) *File {
	g := &gen{r: r, o: o}
	f := &File{}
	if o.BlockMax <= 0 {
		o.BlockMax = 1
		g.o = o
	}
	f.Blocks = append(f.Blocks, headerBlock(r, o.Blank))

	nodeIDs := g.ascending(o.Nodes, o.IDStyle, o.Start, 1<<62)
	wlimit := int64(1)<<31 - 1
	if o.WideIDs {
		wlimit = 1 << 45
	}
	var wayIDs []int64
	if o.ManyWayIDs && o.Ways > 1 {
		set := map[int64]bool{wlimit: true, 1<<31 - 1: true}
		for len(set) < o.Ways {
			set[1+r.Int64N(wlimit)] = true
		}
		for id := range set {
			wayIDs = append(wayIDs, id)
		}
		sort.Slice(wayIDs, func(i, j int) bool { return wayIDs[i] < wayIDs[j] })
	} else {
		st := o.IDStyle
		if st == IDHuge || st == IDSparse {
			st = IDMix
		}
		start := int64(0)
		if o.WideIDs {
			start = []int64{1<<31 - 5, 1<<32 - 5, 1<<33 - 5, 1 << 40}[r.IntN(4)]
		}
		wayIDs = g.ascending(o.Ways, st, start, wlimit)
	}
	relStart := int64(0)
	if o.WideIDs {
		relStart = []int64{1<<31 - 5, 1<<32 - 5, 1 << 40, 1 << 59}[r.IntN(4)]
	}
	relIDs := g.ascending(o.Rels, IDMix, relStart, 1<<61)

	present := map[int64]bool{}
	for _, id := range nodeIDs {
		present[id] = true
	}
	wayPresent := map[int64]bool{}
	for _, id := range wayIDs {
		wayPresent[id] = true
	}
	absentNode := func() int64 {
		for i := 0; ; i++ {
			var id int64
			switch {
			case len(nodeIDs) > 0 && i < 20 && r.IntN(3) > 0:
				id = nodeIDs[r.IntN(len(nodeIDs))] + r.Int64N(7) - 3
			case r.IntN(2) == 0:
				id = 1 + r.Int64N(1<<20)
			default:
				id = 1 + r.Int64N(1<<62)
			}
			if id > 0 && !present[id] {
				return id
			}
		}
	}
	absentWay := func() int64 {
		for i := 0; ; i++ {
			var id int64
			if len(wayIDs) > 0 && i < 20 && r.IntN(3) > 0 {
				id = wayIDs[r.IntN(len(wayIDs))] + r.Int64N(5) - 2
			} else {
				id = 1 + r.Int64N(wlimit)
			}
			if id > 0 && !wayPresent[id] {
				return id
			}
		}
	}

	// nodes
	var blocks []*Block
	cur := g.newBlock()
	c := &coords{style: r.IntN(4)}
	flushBlock := func() {
		blocks = append(blocks, cur)
		cur = g.newBlock()
		c = &coords{style: r.IntN(4)}
	}
	for i := 0; i < len(nodeIDs); {
		n := 1 + r.IntN(o.BlockMax)
		if n > len(nodeIDs)-i || o.OneGroup {
			n = len(nodeIDs) - i
		}
		if o.OneGroup {
			c.style = 0
		}
		d := &Dense{NoKV: r.IntN(2) == 0, Info: g.info()}
		if !o.Plain && r.IntN(4) == 0 {
			d.Perm = 1 + r.Uint64N(100)
		}
		tagless := r.IntN(4) == 0
		for _, id := range nodeIDs[i : i+n] {
			nd := Node{ID: id}
			nd.Lat, nd.Lon = g.coord(cur, c)
			switch {
			case o.OneGroup:
				nd.Tags = []Tag{{"ref", "1"}}
			case !tagless && r.IntN(100) < o.NodeTags:
				nd.Tags = g.tags(4, false)
			}
			d.Nodes = append(d.Nodes, nd)
		}
		i += n
		cur.Groups = append(cur.Groups, Group{Dense: d})
		if r.IntN(3) > 0 {
			flushBlock()
		}
		if !o.Plain && r.IntN(12) == 0 { // empty dense section or empty group
			if r.IntN(2) == 0 {
				cur.Groups = append(cur.Groups, Group{Dense: &Dense{NoKV: true}})
			} else {
				cur.Groups = append(cur.Groups, Group{})
			}
		}
	}
	mixed := !o.Plain && r.IntN(3) == 0
	if !mixed && len(cur.Groups) > 0 {
		flushBlock()
	}

	// ways
	pos := 0
	ref := func() int64 {
		x := r.IntN(100)
		switch {
		case o.NegRefs && x < 15:
			la := r.Int64N(1_800_000_001) - 900_000_000
			lo := r.Int64N(3_600_000_001) - 1_800_000_000
			return Loc(int32(lo), int32(la))
		case (x < 30 && !o.NoAbsent) || len(nodeIDs) == 0:
			return absentNode()
		case x < 70:
			pos += r.IntN(5) - 1
			if pos < 0 {
				pos = 0
			}
			return nodeIDs[pos%len(nodeIDs)]
		default:
			pos = r.IntN(len(nodeIDs))
			return nodeIDs[pos]
		}
	}
	for i := 0; i < len(wayIDs); {
		n := 1 + r.IntN(o.BlockMax)
		if n > len(wayIDs)-i {
			n = len(wayIDs) - i
		}
		gr := Group{RelFirst: !o.Plain && r.IntN(4) == 0}
		for j, id := range wayIDs[i : i+n] {
			w := Way{ID: id, Tags: g.tags(4, !o.NoEmptyKey), Info: g.info()}
			nr := r.IntN(o.MaxRefs + 1)
			if i+j < o.LongWays {
				nr = []int{2000, 1999, 2000 - r.IntN(500), 1500}[(i+j)%4]
			}
			if i+j == 0 && o.HeavyWay > 0 {
				nr = o.HeavyWay
			}
			alt := i+j < o.LongWays && (i+j)%2 == 0
			for k := 0; k < nr; k++ {
				if alt && !o.NoAbsent && k%2 == 1 {
					w.Refs = append(w.Refs, absentNode())
					continue
				}
				v := ref()
				w.Refs = append(w.Refs, v)
				if r.IntN(100) < o.Presence && k+1 < nr {
					w.Refs = append(w.Refs, v)
					k++
				}
			}
			gr.Ways = append(gr.Ways, w)
		}
		i += n
		cur.Groups = append(cur.Groups, gr)
		if r.IntN(3) > 0 {
			flushBlock()
		}
	}
	if !mixed && len(cur.Groups) > 0 {
		flushBlock()
	}

	// relations
	roles := []string{"", "outer", "inner", "stop", "forward", "name", "外", "via"}
	for i := 0; i < len(relIDs); {
		n := 1 + r.IntN(o.BlockMax)
		if n > len(relIDs)-i {
			n = len(relIDs) - i
		}
		gr := Group{RelFirst: !o.Plain && r.IntN(4) == 0}
		for j, id := range relIDs[i : i+n] {
			rl := Rel{ID: id, Tags: g.tags(4, !o.NoEmptyKey), Info: g.info()}
			nm := r.IntN(o.MaxMembers + 1)
			if i+j == 0 && o.BigRel > 0 {
				nm = o.BigRel
			}
			for k := 0; k < nm; k++ {
				m := Member{Type: []int{1, 1, 1, 1, 0, 2}[r.IntN(6)], Role: roles[r.IntN(len(roles))]}
				if o.TagFlood > 0 && k == nm-1 { // strings that come last in the table
					g.flood++
					m.Role = fmt.Sprintf("role%d", g.flood)
				}
				switch m.Type {
				case MWay:
					if len(wayIDs) == 0 || (r.IntN(6) == 0 && !o.NoAbsent) {
						m.ID = absentWay()
					} else {
						m.ID = wayIDs[r.IntN(len(wayIDs))]
					}
				case MNode:
					if len(nodeIDs) == 0 || r.IntN(4) == 0 {
						m.ID = absentNode()
					} else {
						m.ID = nodeIDs[r.IntN(len(nodeIDs))]
					}
				default:
					m.ID = 1 + r.Int64N(1<<34)
				}
				rl.Members = append(rl.Members, m)
				if r.IntN(10) == 0 && k+1 < nm { // repeated member
					rl.Members = append(rl.Members, m)
					k++
				}
			}
			gr.Rels = append(gr.Rels, rl)
		}
		i += n
		cur.Groups = append(cur.Groups, gr)
		if r.IntN(3) > 0 {
			flushBlock()
		}
	}
	if len(cur.Groups) > 0 {
		flushBlock()
	}
	if o.Interleave && !mixed {
		blocks = interleave(r, blocks)
	}
	if o.Scramble {
		for i := 0; i < len(blocks) && i < 40; i++ {
			if r.IntN(15) == 0 {
				blocks = append(blocks, blocks[i])
			}
		}
		r.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	}
	if o.Skew > 0 && len(blocks) > 0 {
		blocks[0].Enc.STUnused = o.Skew / 12
	}
	if o.HugeBlock > 0 && len(blocks) > 0 {
		b := blocks[r.IntN(len(blocks))]
		b.Enc.STUnused = o.HugeBlock / 12
	}
	if o.Blank {
		var out []*Block
		for _, b := range blocks {
			if r.IntN(6) == 0 {
				e := NewBlock()
				e.Enc = g.newBlock().Enc
				e.Opaque = []byte{}
				out = append(out, e)
			}
			out = append(out, b)
		}
		blocks = out
	}
	f.Blocks = append(f.Blocks, blocks...)
	if !o.Plain && r.IntN(5) == 0 { // a second header somewhere
		p := 1 + r.IntN(len(f.Blocks))
		f.Blocks = append(f.Blocks[:p:p], append([]*Block{headerBlock(r, o.Blank)}, f.Blocks[p:]...)...)
	}
	f.Desc = fmt.Sprintf("nodes=%d ways=%d rels=%d blocks=%d", len(nodeIDs), len(wayIDs), len(relIDs), len(f.Blocks))
	return f
}

// interleave mixes the blocks of different kinds, keeping the order within
// each kind.
func interleave(r *Rng, in []*Block) []*Block {
	var q [3][]*Block
	for _, b := range in {
		k := 0
		for _, g := range b.Groups {
			if len(g.Ways) > 0 {
				k = 1
			} else if len(g.Rels) > 0 {
				k = 2
			}
		}
		q[k] = append(q[k], b)
	}
	var out []*Block
	k, left := 0, 0
	for len(out) < len(in) {
		if left == 0 || len(q[k]) == 0 {
			k, left = r.IntN(3), 1+r.IntN(4)
			continue
		}
		out = append(out, q[k][0])
		q[k] = q[k][1:]
		left--
	}
	return out
}
