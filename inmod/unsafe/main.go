//go:build go1.22

// unsafe drives the slice reinterpretation helpers.
package main

import (
	"encoding/binary"
	"fmt"
	"unsafe"

	"github.com/squizzling/osmindex/internal/iunsafe"

	. "verif/lib"
)

var d *Drv

type rec16 struct{ A, B uint64 }
type rec24 struct {
	A uint64
	B int64
	C [2]uint32
}
type rec4 struct{ A uint32 }

// back gives an aligned byte slice of the given shape inside a larger block.
func back(n, spare int) (whole, s []byte) {
	w := make([]uint64, (n+spare)/8+6)
	whole = unsafe.Slice((*byte)(unsafe.Pointer(&w[0])), len(w)*8)
	for i := range whole {
		whole[i] = byte(d.Rng.IntN(256))
	}
	o := 8 * d.Rng.IntN(3)
	return whole, whole[o : o+n : o+n+spare]
}

func within(key string, ptr unsafe.Pointer, ln, cp int, s []byte, size int) bool {
	if ln != len(s)/size {
		d.Bad("length:"+key, "%s of %d bytes has %d elements of %d bytes", key, len(s), ln, size)
		return false
	}
	if cp < ln || cp*size > cap(s) {
		d.Bad("capacity:"+key, "%s of %d bytes (capacity %d) has capacity for %d elements of %d bytes", key, len(s), cap(s), cp, size)
		return false
	}
	if ln > 0 && ptr != unsafe.Pointer(unsafe.SliceData(s)) {
		d.Bad("address:"+key, "%s does not start where the bytes start", key)
		return false
	}
	return true
}

func arb[T any](key string, s []byte, get func(x T) []byte, set func(x *T, v uint64)) {
	size := int(unsafe.Sizeof(*new(T)))
	var v []T
	d.Note("ByteSliceAsArbSlice to %s, %d bytes", key, len(s))
	iunsafe.ByteSliceAsArbSlice(s, &v)
	d.EvalN(1)
	if !within("ByteSliceAsArbSlice:"+key, unsafe.Pointer(unsafe.SliceData(v)), len(v), cap(v), s, size) {
		return
	}
	for i := range v {
		if g := get(v[i]); string(g) != string(s[i*size:(i+1)*size]) {
			d.Bad("value:"+key, "element %d of %s is % x, the bytes are % x", i, key, g, s[i*size:(i+1)*size])
			return
		}
	}
	if len(v) > 0 {
		i := d.Rng.IntN(len(v))
		x := d.Rng.Uint64()
		set(&v[i], x)
		if string(get(v[i])) != string(s[i*size:(i+1)*size]) {
			d.Bad("shared:"+key, "writing element %d through %s is not seen in the bytes", i, key)
		}
		s[i*size] ^= 0xff
		if string(get(v[i])) != string(s[i*size:(i+1)*size]) {
			d.Bad("shared:"+key, "writing byte %d is not seen through %s", i*size, key)
		}
	}
}

func le(vs ...uint64) []byte {
	var b []byte
	for _, v := range vs {
		b = binary.LittleEndian.AppendUint64(b, v)
	}
	return b
}

func one() {
	r := d.Rng
	n := []int{0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 100, 4096, r.IntN(300)}[r.IntN(13)]
	spare := []int{0, 0, 1, 7, 8, 20}[r.IntN(6)]
	whole, s := back(n, spare)
	if n == 0 && spare == 0 && r.IntN(2) == 0 {
		s = nil
	}
	keep := string(whole)
	d.Note("ByteSliceAsInt64Slice of %d bytes", n)
	v := iunsafe.ByteSliceAsInt64Slice(s)
	d.EvalN(1)
	if !within("ByteSliceAsInt64Slice", unsafe.Pointer(unsafe.SliceData(v)), len(v), cap(v), s, 8) {
		return
	}
	for i := range v {
		if uint64(v[i]) != binary.LittleEndian.Uint64(s[8*i:]) {
			d.Bad("value:int64", "element %d is %#x, the bytes are % x", i, v[i], s[8*i:8*i+8])
			return
		}
	}
	if string(whole) != keep {
		d.Bad("modified", "viewing bytes changed them")
	}
	if len(v) > 0 {
		i := r.IntN(len(v))
		v[i] = int64(r.Uint64())
		if uint64(v[i]) != binary.LittleEndian.Uint64(s[8*i:]) {
			d.Bad("shared:int64", "writing element %d is not seen in the bytes", i)
		}
		s[8*i+3] ^= 0x55
		if uint64(v[i]) != binary.LittleEndian.Uint64(s[8*i:]) {
			d.Bad("shared:int64", "writing byte %d is not seen in the integers", 8*i+3)
		}
	}
	arb("rec16", s, func(x rec16) []byte { return le(x.A, x.B) }, func(x *rec16, v uint64) { x.B = v })
	arb("rec24", s, func(x rec24) []byte {
		return le(x.A, uint64(x.B), uint64(x.C[0])|uint64(x.C[1])<<32)
	}, func(x *rec24, v uint64) { x.C[1] = uint32(v) })
	arb("uint64", s, func(x uint64) []byte { return le(x) }, func(x *uint64, v uint64) { *x = v })
	arb("rec4", s, func(x rec4) []byte { return le(uint64(x.A))[:4] }, func(x *rec4, v uint64) { x.A = uint32(v) })
	arb("byte", s, func(x byte) []byte { return []byte{x} }, func(x *byte, v uint64) { *x = byte(v) })
	// the other way
	m, sp := r.IntN(40), r.IntN(4)
	is := make([]int64, m, m+sp)
	us := make([]uint64, m, m+sp)
	for i := range is {
		is[i], us[i] = int64(r.Uint64()), r.Uint64()
	}
	if m == 0 && r.IntN(2) == 0 {
		is, us = nil, nil
	}
	d.Note("integers as bytes, %d", m)
	ib, ub := iunsafe.Int64SliceAsByteSlice(is), iunsafe.Uint64SliceAsByteSlice(us)
	d.EvalN(2)
	for k, b := range map[string][]byte{"Int64SliceAsByteSlice": ib, "Uint64SliceAsByteSlice": ub} {
		if len(b) != m*8 || cap(b) > cap(is)*8 || cap(b) < len(b) {
			d.Bad("length:"+k, "%s of %d integers (capacity %d) has %d bytes, capacity %d", k, m, cap(is), len(b), cap(b))
			return
		}
	}
	for i := 0; i < m; i++ {
		if binary.LittleEndian.Uint64(ib[8*i:]) != uint64(is[i]) || binary.LittleEndian.Uint64(ub[8*i:]) != us[i] {
			d.Bad("value:bytes", "bytes of integer %d do not match", i)
			return
		}
	}
	if m > 0 {
		i := r.IntN(m)
		ib[8*i+2] ^= 0x77
		us[i] ^= 0x1234567890
		if binary.LittleEndian.Uint64(ib[8*i:]) != uint64(is[i]) || binary.LittleEndian.Uint64(ub[8*i:]) != us[i] {
			d.Bad("shared:bytes", "writes through one view are not seen in the other")
		}
	}
	d.DistinctAdd(1)
	d.Seen("byte_lengths", fmt.Sprint(n, "+", spare))
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		for i := 0; i < d.N(20000, 400000) && d.NViol() == 0; i++ {
			one()
		}
		var sl []uint64
		var ar [3]uint64
		var in int
		var st rec16
		bad := map[string]any{"slice, not a pointer": sl, "pointer to array": &ar, "pointer to int": &in, "pointer to struct": &st, "int": 5, "string": "x",
			"pointer to pointer": func() any { p := &sl; return &p }(), "map": map[int]int{}, "func": func() {}, "pointer to map": &map[int]int{}}
		for k, v := range bad {
			d.Note("target: %s", k)
			if ref, _ := Refused(func() { iunsafe.ByteSliceAsArbSlice(make([]byte, 32), v) }); !ref {
				d.Bad("target", "ByteSliceAsArbSlice accepts a target that is a %s", k)
			}
			d.Eval("target " + k)
			d.Count("refused_targets", 1)
		}
		if in != 0 || ar != [3]uint64{} || st != (rec16{}) {
			d.Bad("target", "a refused target was modified")
		}
		d.Sample(map[string]any{"bytes": "01 00 00 00 00 00 00 80 ff", "as integers": fmt.Sprint(iunsafe.ByteSliceAsInt64Slice([]byte{1, 0, 0, 0, 0, 0, 0, 128, 255, 9, 9, 9, 9, 9, 9, 9}[:9]))})
	})
}
