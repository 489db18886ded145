//go:build go1.22

// morton drives the location code with boundary, systematic and random
// coordinates against a bit-by-bit reference.
package main

import (
	"fmt"
	"math"

	"github.com/squizzling/osmindex/internal/morton"

	. "verif/lib"
)

var d *Drv

func pair(e, o int32) {
	d.Note("Encode(%d,%d)", e, o)
	g := morton.Encode(e, o)
	if w := Interleave(uint32(e), uint32(o)); g != w {
		d.Bad("encode", "Encode(%d,%d) = %#x, want %#x", e, o, g, w)
		return
	}
	if a, b := morton.Decode(g); a != uint32(e) || b != uint32(o) {
		d.Bad("decode", "Decode(Encode(%d,%d)) = (%d,%d)", e, o, int32(a), int32(b))
	}
}

func code(x uint64) {
	d.Note("Decode(%#x)", x)
	a, b := morton.Decode(x)
	if wa, wb := Deinterleave(x); a != wa || b != wb {
		d.Bad("decode", "Decode(%#x) = (%#x,%#x), want (%#x,%#x)", x, a, b, wa, wb)
		return
	}
	if g := morton.Encode(int32(a), int32(b)); g != x {
		d.Bad("encode", "Encode(Decode(%#x)) = %#x", x, g)
	}
}

// loc checks a stored location: the latitude's top bit is the marker.
func loc(lon, lat int32) {
	v := int64(morton.Encode(lon, lat|math.MinInt32))
	if v >= 0 {
		d.Bad("sign", "location of (%d,%d) is %d", lon, lat, v)
		return
	}
	if w := Loc(lon, lat); v != w {
		d.Bad("location", "location of (%d,%d) is %#x, want %#x", lon, lat, uint64(v), uint64(w))
		return
	}
	a, b := morton.DecodeLocation(uint64(v))
	if a != lon || b != lat {
		d.Bad("location", "location of (%d,%d) decodes to (%d,%d)", lon, lat, a, b)
	}
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		r := d.Rng
		const mlon, mlat = 1800000000, 900000000
		var edges []int32
		for _, x := range []int64{0, 1, 2, 255, 256, 65535, 65536, mlat, mlon, math.MaxInt32, math.MinInt32} {
			for k := int64(-2); k <= 2; k++ {
				edges = append(edges, int32(x+k), int32(-x+k))
			}
		}
		for k := 0; k < 32; k++ {
			edges = append(edges, int32(uint32(1)<<k), int32(uint32(1)<<k-1), int32(^(uint32(1) << k)))
		}
		n := int64(0)
		for _, a := range edges {
			for _, b := range edges {
				pair(a, b)
				code(uint64(uint32(a))<<32 | uint64(uint32(b)))
				if a >= -mlon && a <= mlon && b >= -mlat && b <= mlat {
					loc(a, b)
				}
				n += 2
			}
		}
		// every 16-bit half in each place
		for h := uint32(0); h < 1<<16; h++ {
			pair(int32(h), int32(h<<16))
			pair(int32(h<<16), int32(h))
			pair(int32(^h), int32(^(h << 16)))
			code(uint64(h) << (16 * (h & 3)))
			n += 4
		}
		for i := 0; i < d.N(1500000, 60000000) && d.NViol() == 0; i++ {
			lon, lat := int32(r.Int64N(2*mlon+1)-mlon), int32(r.Int64N(2*mlat+1)-mlat)
			loc(lon, lat)
			if i%4 == 0 {
				pair(int32(r.Uint32()), int32(r.Uint32()))
				code(r.Uint64())
				n += 2
			}
			n++
			if i < 3 {
				d.Sample(map[string]any{"lon": lon, "lat": lat, "stored": fmt.Sprintf("%#x", morton.Encode(lon, lat|math.MinInt32))})
			}
		}
		// one whole line of latitude and one of longitude, in steps
		step := int64(d.N(997, 13))
		for x := int64(-mlat); x <= mlat && d.NViol() == 0; x += step {
			loc(int32(x*2), int32(x))
			n++
		}
		d.EvalN(n)
		d.DistinctAdd(n)
		d.Count("pairs", n)
	})
}
