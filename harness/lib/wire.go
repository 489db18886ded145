// Package lib holds everything the checks share: an independent OSM PBF
// encoder and strict decoder, workload generators, reference models, index
// file parsers, process control and result reporting.  It imports nothing from
// the project under test.
package lib

import (
	"errors"
	"fmt"
)

// ---- protobuf wire primitives, written from the protobuf specification ----

func PutUvarint(b []byte, v uint64) []byte {
	for v > 0x7f {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// PutUvarintPadded writes v with extra continuation bytes, n bytes in total
// (or the minimal number when that is larger).
func PutUvarintPadded(b []byte, v uint64, n int) []byte {
	m := PutUvarint(nil, v)
	if len(m) >= n || n > 10 {
		return append(b, m...)
	}
	m[len(m)-1] |= 0x80
	for len(m) < n-1 {
		m = append(m, 0x80)
	}
	m = append(m, 0)
	return append(b, m...)
}

func Zig(v int64) uint64 {
	if v < 0 {
		return ^(uint64(v) << 1)
	}
	return uint64(v) << 1
}

func Unzig(u uint64) int64 {
	if u&1 == 1 {
		return int64(^(u >> 1))
	}
	return int64(u >> 1)
}

var ErrTrunc = errors.New("truncated")

// Uvarint reads one varint; it rejects values over 64 bits.
func Uvarint(b []byte) (v uint64, n int, err error) {
	for i := 0; i < len(b); i++ {
		if i == 10 || (i == 9 && b[i] > 1) {
			return 0, 0, errors.New("varint overflows 64 bits")
		}
		v |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return v, i + 1, nil
		}
	}
	return 0, 0, ErrTrunc
}

// Field is one decoded field of a message.
type Field struct {
	Num  int
	Wire int
	Int  uint64
	Data []byte
}

// Fields splits a message; only wire types 0 and 2 are accepted.
func Fields(b []byte) ([]Field, error) {
	var out []Field
	for len(b) > 0 {
		tag, n, err := Uvarint(b)
		if err != nil {
			return nil, err
		}
		b = b[n:]
		f := Field{Num: int(tag >> 3), Wire: int(tag & 7)}
		switch f.Wire {
		case 0:
			v, n, err := Uvarint(b)
			if err != nil {
				return nil, err
			}
			f.Int = v
			b = b[n:]
		case 2:
			l, n, err := Uvarint(b)
			if err != nil {
				return nil, err
			}
			b = b[n:]
			if l > uint64(len(b)) {
				return nil, ErrTrunc
			}
			f.Data = b[:l:l]
			b = b[l:]
		default:
			return nil, fmt.Errorf("field %d has wire type %d", f.Num, f.Wire)
		}
		out = append(out, f)
	}
	return out, nil
}

func PutField(b []byte, num int, data []byte) []byte {
	b = PutUvarint(b, uint64(num)<<3|2)
	b = PutUvarint(b, uint64(len(data)))
	return append(b, data...)
}

func PutVarField(b []byte, num int, v uint64) []byte {
	b = PutUvarint(b, uint64(num)<<3)
	return PutUvarint(b, v)
}

func PackU(vs []uint64) []byte {
	var b []byte
	for _, v := range vs {
		b = PutUvarint(b, v)
	}
	return b
}

func PackDelta(vs []int64) []byte {
	var b []byte
	last := int64(0)
	for _, v := range vs {
		b = PutUvarint(b, Zig(v-last))
		last = v
	}
	return b
}

func UnpackU(b []byte) ([]uint64, error) {
	out := []uint64{}
	for len(b) > 0 {
		v, n, err := Uvarint(b)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
		b = b[n:]
	}
	return out, nil
}

func UnpackDelta(b []byte) ([]int64, error) {
	us, err := UnpackU(b)
	if err != nil {
		return nil, err
	}
	out := make([]int64, len(us))
	last := int64(0)
	for i, u := range us {
		last += Unzig(u)
		out[i] = last
	}
	return out, nil
}
