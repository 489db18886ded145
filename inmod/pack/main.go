//go:build go1.22

// pack drives the packed index entries with values inside, at and beyond
// their field limits.
package main

import (
	"encoding/binary"
	"fmt"

	"github.com/squizzling/osmindex/internal/iunsafe"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"

	. "verif/lib"
)

var d *Drv

func run(count, offset uint64) {
	var co nodeindex.CountOffset
	d.Note("NewCountOffset(%d,%d)", count, offset)
	ref, _ := Refused(func() { co = nodeindex.NewCountOffset(count, offset) })
	d.Eval(fmt.Sprint("n", count, ",", offset))
	fits := count < 1<<24 && offset < 1<<40
	if ref {
		d.Count("runs_refused", 1)
		if fits {
			d.Bad("run-refused", "NewCountOffset(%d,%d) is refused although both fit", count, offset)
		}
		return
	}
	d.Count("runs_accepted", 1)
	if co.Count() != count || co.Offset() != offset {
		d.Bad("run", "NewCountOffset(%d,%d) reads back as (%d,%d)", count, offset, co.Count(), co.Offset())
		return
	}
	// as an index element, the way the readers see it
	base := Interesting(d.Rng) >> 8
	if count == 0 {
		return
	}
	b := binary.LittleEndian.AppendUint64(nil, base)
	b = binary.LittleEndian.AppendUint64(b, uint64(co))
	var es []nodeindex.IndexElement
	iunsafe.ByteSliceAsArbSlice(b, &es)
	e := es[0]
	if e.FirstID() != base || e.LastID() != base+count-1 || e.Offset() != offset || e.Count() != count {
		d.Bad("element", "element (%d,%d,%d) reads back as first %d last %d offset %d count %d", base, count, offset, e.FirstID(), e.LastID(), e.Offset(), e.Count())
		return
	}
	for _, k := range []uint64{0, count - 1, d.Rng.Uint64N(count)} {
		if g := e.OffsetForID(base + k); g != offset+k {
			d.Bad("element", "element (%d,%d,%d): OffsetForID(%d) = %d", base, count, offset, base+k, g)
		}
	}
	for _, id := range []uint64{base - 1, base + count} {
		if id == base-1 && base == 0 {
			continue
		}
		if ref, _ := Refused(func() { e.OffsetForID(id) }); !ref {
			d.Bad("element", "element (%d,%d,%d) gives an offset for id %d", base, count, offset, id)
		}
	}
}

func way(id, offset int64) {
	var w wayindex.WayIndexData
	d.Note("MakeIndexData(%d,%d)", id, offset)
	ref, _ := Refused(func() { w = wayindex.MakeIndexData(id, offset) })
	d.Eval(fmt.Sprint("w", id, ",", offset))
	fits := id >= 0 && id < 1<<31 && offset >= 0 && offset < 1<<33
	if ref {
		d.Count("ways_refused", 1)
		if fits {
			d.Bad("way-refused", "MakeIndexData(%d,%d) is refused although both fit", id, offset)
		}
		return
	}
	d.Count("ways_accepted", 1)
	if w.WayID() != id || w.Offset() != offset {
		d.Bad("way", "MakeIndexData(%d,%d) reads back as (%d,%d)", id, offset, w.WayID(), w.Offset())
	}
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		r := d.Rng
		var vs []uint64
		for k := 0; k < 64; k++ {
			for x := -1; x <= 1; x++ {
				vs = append(vs, uint64(1)<<k+uint64(x))
			}
		}
		for _, a := range vs {
			for _, b := range vs {
				run(a, b)
				way(int64(a), int64(b))
				way(-int64(a), int64(b))
				way(int64(a), -int64(b))
			}
		}
		for i := 0; i < d.N(150000, 5000000) && d.NViol() == 0; i++ {
			switch i % 3 {
			case 0:
				run(r.Uint64N(1<<24), r.Uint64N(1<<40))
				way(r.Int64N(1<<31), r.Int64N(1<<33))
			case 1:
				run(Interesting(r), Interesting(r))
				way(int64(Interesting(r)), int64(Interesting(r)))
			default:
				run(1<<24-2+r.Uint64N(4), 1<<40-2+r.Uint64N(4))
				run(r.Uint64N(1<<24), Interesting(r))
				way(1<<31-2+r.Int64N(4), 1<<33-2+r.Int64N(4))
				way(r.Int64N(1<<31), int64(Interesting(r)))
			}
		}
		d.Sample(map[string]any{"run": []uint64{1<<24 - 1, 1<<40 - 1}, "packed": fmt.Sprintf("%#x", uint64(nodeindex.NewCountOffset(1<<24-1, 1<<40-1)))})
		d.Sample(map[string]any{"way": []int64{1<<31 - 1, 1<<33 - 1}, "packed": fmt.Sprintf("%#x", uint64(wayindex.MakeIndexData(1<<31-1, 1<<33-1)))})
	})
}
