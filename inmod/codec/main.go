//go:build go1.22

// codec drives the wire codec with generated values and judges every result
// against an independent encoder and decoder.
package main

import (
	"bytes"
	"fmt"

	"github.com/squizzling/osmindex/internal/pb"

	. "verif/lib"
)

var d *Drv

// frame checks one encoder: prefix kept, exactly want appended.
func enc(key string, what any, want []byte, f func(b []byte) []byte) {
	p := d.Rng.IntN(40)
	pre := make([]byte, p, p+d.Rng.IntN(60))
	for i := range pre {
		pre[i] = byte(d.Rng.IntN(256))
	}
	keep := bytes.Clone(pre)
	if d.Rng.IntN(10) == 0 {
		pre, keep = nil, nil
	}
	d.Note("%s encode %v", key, what)
	out := f(pre)
	d.EvalN(1)
	if !bytes.HasPrefix(out, keep) {
		d.Bad("prefix:"+key, "encoding %v with %s changed what the buffer already held", what, key)
		return
	}
	if !bytes.Equal(out[len(keep):], want) {
		d.Bad("encode:"+key, "%s of %v gives % x, want % x", key, Trunc(fmt.Sprint(what), 200), clip(out[len(keep):]), clip(want))
	}
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// dec checks one decoder: the value, and that exactly the bytes were consumed.
func dec(key string, what any, enc []byte, f func(b []byte, next *int) string) {
	p := d.Rng.IntN(20)
	buf := make([]byte, 0, p+len(enc)+20)
	for i := 0; i < p; i++ {
		buf = append(buf, byte(d.Rng.IntN(256)))
	}
	buf = append(buf, enc...)
	if d.Rng.IntN(3) > 0 { // something behind it, or the very end of the buffer
		for i := d.Rng.IntN(20); i >= 0; i-- {
			buf = append(buf, byte(d.Rng.IntN(256)))
		}
	}
	buf = buf[:len(buf):len(buf)]
	keep := bytes.Clone(buf)
	next := p
	d.Note("%s decode %v from % x", key, what, clip(enc))
	diff := f(buf, &next)
	d.EvalN(1)
	if diff != "" {
		d.Bad("decode:"+key, "%s of % x: %s", key, clip(enc), diff)
		return
	}
	if next != p+len(enc) {
		d.Bad("consumed:"+key, "%s of % x (%d bytes) consumed %d bytes", key, clip(enc), len(enc), next-p)
	}
	if !bytes.Equal(keep, buf) {
		d.Bad("modified:"+key, "%s changed the buffer it reads", key)
	}
}

func one[T comparable](want T, f func([]byte, *int) T) func([]byte, *int) string {
	return func(b []byte, n *int) string {
		if g := f(b, n); g != want {
			return fmt.Sprintf("got %v, want %v", g, want)
		}
		return ""
	}
}

func opt[T comparable](want T, f func([]byte, *int) *T) func([]byte, *int) string {
	return func(b []byte, n *int) string {
		if g := f(b, n); g == nil || *g != want {
			return fmt.Sprintf("got %v, want %v", g, want)
		}
		return ""
	}
}

func many[T comparable](want []T, f func([]byte, *int) []T) func([]byte, *int) string {
	return func(b []byte, n *int) string {
		return eq(want, f(b, n))
	}
}

func eq[T comparable](want, g []T) string {
	if len(g) != len(want) {
		return fmt.Sprintf("%d values, want %d", len(g), len(want))
	}
	for i := range g {
		if g[i] != want[i] {
			return fmt.Sprintf("value %d is %v, want %v", i, g[i], want[i])
		}
	}
	return ""
}

func varints(vs []uint64) []byte {
	var b []byte
	for _, v := range vs {
		b = PutUvarint(b, v)
	}
	return b
}

func conv[T any](vs []T, f func(T) uint64) []byte {
	var b []byte
	for _, v := range vs {
		b = PutUvarint(b, f(v))
	}
	return b
}

func withLen(b []byte) []byte { return append(PutUvarint(nil, uint64(len(b))), b...) }

func single(v uint64) {
	min := PutUvarint(nil, v)
	enc("EncodeVarInt", v, min, func(b []byte) []byte { return pb.EncodeVarInt(b, v) })
	id := Interesting(d.Rng) >> 4
	if d.Rng.IntN(2) == 0 {
		id = uint64(d.Rng.IntN(30))
	}
	enc("EncodeIdVarInt", [2]uint64{id, v}, append(PutUvarint(nil, id<<3), min...), func(b []byte) []byte { return pb.EncodeIdVarInt(b, id, v) })
	if pb.MakeIdType(id, pb.PbVarInt) != id<<3 || pb.MakeIdType(id, pb.PbFixedBytes) != id<<3|2 {
		d.Bad("idtype", "MakeIdType(%d) is wrong", id)
	}
	forms := [][]byte{min}
	for n := len(min) + 1; n <= 10; n++ {
		forms = append(forms, PutUvarintPadded(nil, v, n))
	}
	for _, e := range forms {
		dec("DecodeVarInt", v, e, one(v, pb.DecodeVarInt))
		dec("DecodeU64", v, e, one(v, pb.DecodeU64))
		dec("DecodeI64", v, e, one(int64(v), pb.DecodeI64))
		dec("DecodeS64", v, e, one(Unzig(v), pb.DecodeS64))
		dec("DecodeU64Opt", v, e, opt(v, pb.DecodeU64Opt))
		dec("DecodeI64Opt", v, e, opt(int64(v), pb.DecodeI64Opt))
		dec("DecodeS64Opt", v, e, opt(Unzig(v), pb.DecodeS64Opt))
		if v>>32 == 0 {
			dec("DecodeU32", v, e, one(uint32(v), pb.DecodeU32))
			dec("DecodeU32Opt", v, e, opt(uint32(v), pb.DecodeU32Opt))
			dec("DecodeS32", v, e, one(int32(Unzig(v)), pb.DecodeS32))
			dec("DecodeS32Opt", v, e, opt(int32(Unzig(v)), pb.DecodeS32Opt))
		}
		if s := int64(v); s == int64(int32(s)) {
			dec("DecodeI32", s, e, one(int32(s), pb.DecodeI32))
			dec("DecodeI32Opt", s, e, opt(int32(s), pb.DecodeI32Opt))
		}
	}
	d.Note("zigzag %d", v)
	if g := pb.EncodeZigZag(int64(v)); g != Zig(int64(v)) {
		d.Bad("zigzag", "EncodeZigZag(%d) = %d, want %d", int64(v), g, Zig(int64(v)))
	}
	if g := pb.DecodeZigZag(v); g != Unzig(v) {
		d.Bad("zigzag", "DecodeZigZag(%d) = %d, want %d", v, g, Unzig(v))
	}
	d.EvalN(2)
	d.Seen("varint_lengths", fmt.Sprint(len(min)))
}

func lists() {
	r := d.Rng
	n := []int{0, 1, 2, 3, 5, 20, 100, 400}[r.IntN(8)]
	small := r.IntN(2) == 0
	u64 := make([]uint64, n)
	i64 := make([]int64, n)
	u32 := make([]uint32, n)
	i32 := make([]int32, n)
	prev := int64(0)
	for i := range u64 {
		u64[i] = Interesting(r)
		u32[i] = uint32(Interesting(r))
		i32[i] = int32(Interesting(r))
		i64[i] = int64(Interesting(r))
		if small {
			i64[i] = prev + int64(r.IntN(9)) - 3
			prev = i64[i]
			u64[i] &= 0xfff
			u32[i] &= 0xff
			i32[i] &= 0x3f
		}
	}
	delta := PackDelta(i64)
	enc("EncodeS64PackedDelta", i64, withLen(delta), func(b []byte) []byte { return pb.EncodeS64PackedDelta(b, i64) })
	enc("EncodeS64PackedDeltaFunc", i64, delta, func(b []byte) []byte { return pb.EncodeS64PackedDeltaFunc(i64)(b) })
	dec("DecodeS64PackedDelta", i64, withLen(delta), many(i64, pb.DecodeS64PackedDelta))
	s64 := conv(i64, Zig)
	dec("DecodeS64Packed", i64, withLen(s64), many(i64, pb.DecodeS64Packed))
	enc("EncodeU64Packed", u64, varints(u64), func(b []byte) []byte { return pb.EncodeU64Packed(u64)(b) })
	dec("DecodeU64Packed", u64, withLen(varints(u64)), many(u64, pb.DecodeU64Packed))
	u32b := conv(u32, func(v uint32) uint64 { return uint64(v) })
	enc("EncodeU32PackedFunc", u32, u32b, func(b []byte) []byte { return pb.EncodeU32PackedFunc(u32)(b) })
	dec("DecodeU32Packed", u32, withLen(u32b), many(u32, pb.DecodeU32Packed))
	i32b := conv(i32, func(v int32) uint64 { return uint64(int64(v)) })
	enc("EncodeI32Packed", i32, withLen(i32b), func(b []byte) []byte { return pb.EncodeI32Packed(b, i32) })
	enc("EncodeI32PackedFunc", i32, i32b, func(b []byte) []byte { return pb.EncodeI32PackedFunc(i32)(b) })
	dec("DecodeI32Packed", i32, withLen(i32b), many(i32, pb.DecodeI32Packed))
	s32b := conv(i32, func(v int32) uint64 { return Zig(int64(v)) })
	enc("EncodeS32Packed", i32, withLen(s32b), func(b []byte) []byte { return pb.EncodeS32Packed(b, i32) })
	dec("DecodeS32Packed", i32, withLen(s32b), many(i32, pb.DecodeS32Packed))
	// delta in 32 bits: no decoder of its own, summed up independently
	d.Note("EncodeS32PackedDelta %v", i32)
	out := pb.EncodeS32PackedDelta(nil, i32)
	if l, k, err := Uvarint(out); err != nil || int(l) != len(out)-k {
		d.Bad("encode:EncodeS32PackedDelta", "%v: wrong length prefix in % x", i32, clip(out))
	} else if us, err := UnpackU(out[k:]); err != nil {
		d.Bad("encode:EncodeS32PackedDelta", "%v: %v", i32, err)
	} else {
		var got []int32
		last := int32(0)
		for _, u := range us {
			last += int32(Unzig(u))
			got = append(got, last)
		}
		if x := eq(i32, got); x != "" {
			d.Bad("encode:EncodeS32PackedDelta", "%v: sums to %s", i32, x)
		}
	}
	// non-minimal varints inside a packed list
	var padded []byte
	for _, v := range u64 {
		l := len(PutUvarint(nil, v))
		padded = append(padded, PutUvarintPadded(nil, v, l+r.IntN(11-l))...)
	}
	dec("DecodeU64Packed", u64, withLen(padded), many(u64, pb.DecodeU64Packed))
	padded = nil
	last := int64(0)
	for _, v := range i64 {
		z := Zig(v - last)
		last = v
		l := len(PutUvarint(nil, z))
		padded = append(padded, PutUvarintPadded(nil, z, l+r.IntN(11-l))...)
	}
	dec("DecodeS64PackedDelta", i64, withLen(padded), many(i64, pb.DecodeS64PackedDelta))
	// zero-terminated: no leading zero, no repeats
	var z64 []int64
	last = 0
	for _, v := range i64 {
		if v != last {
			z64 = append(z64, v)
			last = v
		}
	}
	zb := append(PackDelta(z64), 0)
	enc("EncodeS64PackedDeltaZero", z64, zb, func(b []byte) []byte { return pb.EncodeS64PackedDeltaZero(b, z64) })
	tail := append(bytes.Clone(zb), []byte{5, 0, 9}[:r.IntN(4)]...)
	d.Note("DecodeS64PackedDeltaZero %v", z64)
	if x := eq(z64, pb.DecodeS64PackedDeltaZero(tail)); x != "" {
		d.Bad("decode:DecodeS64PackedDeltaZero", "% x: %s", clip(tail), x)
	}
	// byte strings
	bs := make([]byte, []int{0, 1, 5, 127, 128, 129, 300, 16383, 16384, 20000}[r.IntN(10)])
	for i := range bs {
		bs[i] = byte(r.IntN(256))
	}
	id := uint64(1 + r.IntN(40))
	wb := withLen(bs)
	ib := append(PutUvarint(nil, id<<3|2), wb...)
	enc("EncodeBuffer", len(bs), wb, func(b []byte) []byte { return pb.EncodeBuffer(b, bs) })
	enc("EncodeString", len(bs), wb, func(b []byte) []byte { return pb.EncodeString(b, string(bs)) })
	enc("EncodeIdBuffer", len(bs), ib, func(b []byte) []byte { return pb.EncodeIdBuffer(b, id, bs) })
	bsf := func(f func([]byte, *int) []byte) func([]byte, *int) string {
		return func(b []byte, n *int) string {
			if !bytes.Equal(f(b, n), bs) {
				return "wrong bytes"
			}
			return ""
		}
	}
	dec("DecodeBytes", len(bs), wb, bsf(pb.DecodeBytes))
	dec("ReadBytes", len(bs), wb, bsf(pb.ReadBytes))
	dec("DecodeString", len(bs), wb, one(string(bs), pb.DecodeString))
	dec("DecodeStringOpt", len(bs), wb, opt(string(bs), pb.DecodeStringOpt))
	dec("SkipBytes", len(bs), wb, func(b []byte, n *int) string { pb.SkipBytes(b, n); return "" })
	d.DistinctAdd(1)
	d.Seen("list_lengths", fmt.Sprint(n))
}

type emb struct {
	name  string
	limit int
	width int
	f     func(uint64, pb.Embedder, []byte) []byte
	res   func([]byte) []byte
	put   func([]byte, int)
}

var embs = []emb{
	{"Embed128", 1 << 7, 1, pb.Embed128, pb.Reserve128, pb.EmbedInt128},
	{"Embed16384", 1 << 14, 2, pb.Embed16384, pb.Reserve16384, pb.EmbedInt16384},
	{"Embed2097152", 1 << 21, 3, pb.Embed2097152, pb.Reserve2097152, pb.EmbedInt2097152},
	{"Embed268435456", 1 << 28, 4, pb.Embed268435456, pb.Reserve268435456, pb.EmbedInt268435456},
}

func embed(e emb, n int, pre []byte) {
	id := uint64(1 + d.Rng.IntN(30))
	keep := bytes.Clone(pre)
	d.Note("%s with a body of %d bytes", e.name, n)
	var out []byte
	body := make([]byte, n)
	for i := 0; i < n; i += 1 + n/1000 {
		body[i] = byte(i*7 + 1)
	}
	refused, why := Refused(func() {
		out = e.f(id, func(b []byte) []byte { return append(b, body...) }, pre)
	})
	d.EvalN(1)
	d.DistinctAdd(1)
	if n >= e.limit {
		if refused {
			d.Count("oversized_refused", 1)
			return
		}
		next := len(keep)
		if !bytes.HasPrefix(out, keep) || pb.DecodeVarInt(out, &next) != pb.MakeIdType(id, pb.PbFixedBytes) || !bytes.Equal(pb.DecodeBytes(out, &next), body) || next != len(out) {
			d.Bad("truncated:"+e.name, "%s accepted a body of %d bytes, which does not decode back", e.name, n)
		}
		d.Count("oversized_widened", 1)
		return
	}
	if refused {
		d.Bad("refused:"+e.name, "%s refused a body of %d bytes, which fits: %v", e.name, n, why)
		return
	}
	want := append(bytes.Clone(keep), PutUvarint(nil, id<<3|2)...)
	want = append(want, PutUvarintPadded(nil, uint64(n), e.width)...)
	if !bytes.HasPrefix(out, want) || !bytes.Equal(out[len(want):], body) {
		d.Bad("embed:"+e.name, "%s of %d bytes is not the tag, a %d-byte length and the body: starts % x", e.name, n, e.width, clip(out))
		return
	}
	next := len(keep)
	if pb.DecodeVarInt(out, &next) != pb.MakeIdType(id, pb.PbFixedBytes) || !bytes.Equal(pb.DecodeBytes(out, &next), body) || next != len(out) {
		d.Bad("embed:"+e.name, "%s of %d bytes does not decode back", e.name, n)
	}
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		r := d.Rng
		seen := map[uint64]bool{}
		do := func(v uint64) {
			if !seen[v] {
				seen[v] = true
				single(v)
			}
		}
		for k := 0; k < 64; k++ {
			for x := -3; x <= 3; x++ {
				do(uint64(1)<<k + uint64(x))
				do(-(uint64(1) << k) + uint64(x))
			}
		}
		for v := uint64(0); v < 70000; v += 1 + v/2000 {
			do(v)
		}
		for i := 0; i < d.N(60000, 1500000); i++ {
			do(Interesting(r))
		}
		d.DistinctAdd(int64(len(seen)))
		d.Count("distinct_values", int64(len(seen)))
		for i := 0; i < d.N(3000, 80000); i++ {
			lists()
		}
		for i, e := range embs {
			sizes := []int{0, 1, 2, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 2097153}
			for _, n := range sizes {
				if n <= e.limit*4 {
					embed(e, n, bytes.Repeat([]byte{0xee}, r.IntN(10)))
				}
			}
			for j := 0; j < 60; j++ {
				n := r.IntN(e.limit)
				if i > 1 {
					n = r.IntN(70000)
				}
				embed(e, n, bytes.Repeat([]byte{0xee}, r.IntN(10)))
			}
			if i == 3 {
				embed(e, 1<<28-1, nil)
				embed(e, 1<<28, nil)
				embed(e, 1<<22+5, nil)
			}
			// the length field by itself
			for _, v := range []int{0, 1, 127, 128, e.limit - 1, e.limit, e.limit + 1, 1 << 30, 1 << 35, r.IntN(e.limit), r.IntN(e.limit)} {
				b := e.res([]byte{1, 2})
				d.Note("%s length field %d", e.name, v)
				refused, _ := Refused(func() { e.put(b[2:], v) })
				d.EvalN(1)
				if refused != (v >= e.limit) {
					d.Bad("lengthfield:"+e.name, "%s length field %d: refused=%v", e.name, v, refused)
					continue
				}
				if !refused && !bytes.Equal(b, append([]byte{1, 2}, PutUvarintPadded(nil, uint64(v), e.width)...)) {
					d.Bad("lengthfield:"+e.name, "%s length field %d is % x", e.name, v, b)
				}
			}
		}
		for i := 0; i < 4; i++ {
			v := Interesting(r)
			d.Sample(map[string]any{"value": fmt.Sprint(v), "encoded": fmt.Sprintf("% x", pb.EncodeVarInt(nil, v))})
		}
	})
}
