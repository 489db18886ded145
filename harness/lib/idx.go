package lib

import (
	"encoding/binary"
	"fmt"
	"sort"
)

type NodeRun struct {
	First, Count, Offset uint64
}

type NodeIdx struct {
	Runs []NodeRun
	Locs []int64
}

func i64at(b []byte, i int) int64 { return int64(binary.LittleEndian.Uint64(b[8*i:])) }

// ParseNodeIdx reads a .nodeidx by ENCODING.md, checking every layout rule.
func ParseNodeIdx(b []byte) (*NodeIdx, error) {
	if len(b) < 16 || len(b)%8 != 0 {
		return nil, fmt.Errorf("%d bytes long", len(b))
	}
	if v := i64at(b, 0); v != 1 {
		return nil, fmt.Errorf("version %d", v)
	}
	n := i64at(b, 1)
	if n < 0 || n > int64(len(b)-16)/16 {
		return nil, fmt.Errorf("element count %d in %d bytes", n, len(b))
	}
	x := &NodeIdx{}
	off := uint64(0)
	for i := 0; i < int(n); i++ {
		r := NodeRun{First: binary.LittleEndian.Uint64(b[16+16*i:])}
		co := binary.LittleEndian.Uint64(b[24+16*i:])
		r.Count = co & 0xffffff
		r.Offset = co >> 24
		if r.Count == 0 {
			return nil, fmt.Errorf("run %d is empty", i)
		}
		if r.Offset != off {
			return nil, fmt.Errorf("run %d starts at location %d, previous runs end at %d", i, r.Offset, off)
		}
		off += r.Count
		if i > 0 {
			p := x.Runs[i-1]
			if r.First < p.First+p.Count {
				return nil, fmt.Errorf("run %d (first id %d) overlaps run of %d ids from %d", i, r.First, p.Count, p.First)
			}
		}
		x.Runs = append(x.Runs, r)
	}
	body := b[16+16*n:]
	if uint64(len(body)) != off*8 {
		return nil, fmt.Errorf("%d location bytes, runs need %d", len(body), off*8)
	}
	for i := 0; i < len(body)/8; i++ {
		l := i64at(body, i)
		if l > 0 {
			return nil, fmt.Errorf("location %d is positive (%#x)", i, uint64(l))
		}
		x.Locs = append(x.Locs, l)
	}
	return x, nil
}

func (x *NodeIdx) Map() map[int64]int64 {
	m := map[int64]int64{}
	for _, r := range x.Runs {
		for i := uint64(0); i < r.Count; i++ {
			if l := x.Locs[r.Offset+i]; l != 0 {
				m[int64(r.First+i)] = l
			}
		}
	}
	return m
}

type WayEnt struct {
	ID    int64
	Off   uint64 // in bytes
	Locs  []int64
	End   uint64 // first byte after the terminator
	Bytes uint64
}

type WayIdx struct {
	Shift   int
	Ways    []WayEnt
	LocSize int
}

// ParseWayIdx reads a .wayidx by ENCODING.md.
func ParseWayIdx(b []byte) (*WayIdx, error) {
	if len(b) < 16 {
		return nil, fmt.Errorf("%d bytes long", len(b))
	}
	n := i64at(b, 0)
	sh := i64at(b, 1)
	if sh < 0 || sh > 30 {
		return nil, fmt.Errorf("alignment shift %d", sh)
	}
	if n < 0 || n > int64(len(b)-16)/8 {
		return nil, fmt.Errorf("element count %d in %d bytes", n, len(b))
	}
	loc := b[16+8*n:]
	x := &WayIdx{Shift: int(sh), LocSize: len(loc)}
	prevEnd := uint64(0)
	for i := 0; i < int(n); i++ {
		v := binary.LittleEndian.Uint64(b[16+8*i:])
		e := WayEnt{ID: int64(v >> 33), Off: (v & (1<<33 - 1)) << uint(sh)}
		if i > 0 && e.ID <= x.Ways[i-1].ID {
			return nil, fmt.Errorf("way #%d id %d after id %d", i, e.ID, x.Ways[i-1].ID)
		}
		if e.Off < prevEnd {
			return nil, fmt.Errorf("way %d's list at %d overlaps the previous one ending at %d", e.ID, e.Off, prevEnd)
		}
		if e.Off >= uint64(len(loc)) {
			return nil, fmt.Errorf("way %d's list at %d is outside %d location bytes", e.ID, e.Off, len(loc))
		}
		p := e.Off
		last := int64(0)
		for {
			d, k, err := Uvarint(loc[p:])
			if err != nil {
				return nil, fmt.Errorf("way %d's list: %v", e.ID, err)
			}
			p += uint64(k)
			if d == 0 {
				break
			}
			last += Unzig(d)
			e.Locs = append(e.Locs, last)
		}
		e.End = p
		for q := prevEnd; q < e.Off; q++ {
			if loc[q] != 0 {
				return nil, fmt.Errorf("padding byte %d before way %d is %d", q, e.ID, loc[q])
			}
		}
		prevEnd = e.End
		x.Ways = append(x.Ways, e)
	}
	for q := prevEnd; q < uint64(len(loc)); q++ {
		if loc[q] != 0 {
			return nil, fmt.Errorf("stray byte %d after the last list is %d", q, loc[q])
		}
	}
	for i := range x.Ways {
		end := uint64(len(loc))
		if i+1 < len(x.Ways) {
			end = x.Ways[i+1].Off
		}
		x.Ways[i].Bytes = end - x.Ways[i].Off
	}
	return x, nil
}

func (x *WayIdx) Map() map[int64][]int64 {
	m := map[int64][]int64{}
	for _, w := range x.Ways {
		m[w.ID] = w.Locs
	}
	return m
}

type RelEnt struct {
	ID   int64
	Ways []WayEnt
}

// ParseRelIdx reads the .relidx records relindex writes (with way ids).
func ParseRelIdx(b []byte) ([]RelEnt, error) {
	if len(b)%8 != 0 {
		return nil, fmt.Errorf("%d bytes long", len(b))
	}
	n := len(b) / 8
	p := 0
	next := func() (int64, error) {
		if p >= n {
			return 0, fmt.Errorf("record runs past the end")
		}
		p++
		return i64at(b, p-1), nil
	}
	var out []RelEnt
	for p < n {
		var r RelEnt
		var err error
		if r.ID, err = next(); err != nil {
			return nil, err
		}
		wc, err := next()
		if err != nil {
			return nil, err
		}
		if wc < 0 || wc > int64(n) {
			return nil, fmt.Errorf("relation %d: way count %d", r.ID, wc)
		}
		for i := int64(0); i < wc; i++ {
			var w WayEnt
			if w.ID, err = next(); err != nil {
				return nil, err
			}
			lc, err := next()
			if err != nil {
				return nil, err
			}
			if lc < 0 || lc > int64(n-p) {
				return nil, fmt.Errorf("relation %d way %d: location count %d", r.ID, w.ID, lc)
			}
			for j := int64(0); j < lc; j++ {
				v, _ := next()
				w.Locs = append(w.Locs, v)
			}
			r.Ways = append(r.Ways, w)
		}
		out = append(out, r)
	}
	return out, nil
}

// NodeIdxBytes writes a node index by ENCODING.md: runs of consecutive ids,
// single gaps filled.
func NodeIdxBytes(m map[int64]int64) []byte {
	ids := make([]int64, 0, len(m))
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var runs []NodeRun
	var locs []int64
	for i, id := range ids {
		if i > 0 && id == ids[i-1]+1 && runs[len(runs)-1].Count < 1<<20 {
			runs[len(runs)-1].Count++
		} else if i > 0 && id == ids[i-1]+2 && runs[len(runs)-1].Count < 1<<20 {
			runs[len(runs)-1].Count += 2
			locs = append(locs, 0)
		} else {
			runs = append(runs, NodeRun{First: uint64(id), Count: 1, Offset: uint64(len(locs))})
		}
		locs = append(locs, m[id])
	}
	b := binary.LittleEndian.AppendUint64(nil, 1)
	b = binary.LittleEndian.AppendUint64(b, uint64(len(runs)))
	for _, r := range runs {
		b = binary.LittleEndian.AppendUint64(b, r.First)
		b = binary.LittleEndian.AppendUint64(b, r.Offset<<24|r.Count)
	}
	for _, l := range locs {
		b = binary.LittleEndian.AppendUint64(b, uint64(l))
	}
	return b
}

// WayIdxBytes writes a way index by ENCODING.md; lists must be collapsed.
func WayIdxBytes(m map[int64][]int64, shift int) []byte {
	ids := make([]int64, 0, len(m))
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	b := binary.LittleEndian.AppendUint64(nil, uint64(len(ids)))
	b = binary.LittleEndian.AppendUint64(b, uint64(shift))
	var loc []byte
	a := 1 << shift
	for _, id := range ids {
		b = binary.LittleEndian.AppendUint64(b, uint64(id)<<33|uint64(len(loc)>>shift))
		last := int64(0)
		for _, v := range m[id] {
			loc = PutUvarint(loc, Zig(v-last))
			last = v
		}
		loc = append(loc, 0)
		for len(loc)%a != 0 {
			loc = append(loc, 0)
		}
	}
	return append(b, loc...)
}
