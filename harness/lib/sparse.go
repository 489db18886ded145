package lib

import (
	"encoding/binary"
	"os"
	"sort"
)

// Index and block files of planet size, written as sparse files: only a few
// places hold data, so that offsets beyond 4 GiB and 2^32 cost nothing.

type sparse struct {
	f   *os.File
	err error
}

func (s *sparse) at(off int64, b []byte) {
	if s.err == nil {
		_, s.err = s.f.WriteAt(b, off)
	}
}

func newSparse(path string) *sparse {
	f, err := os.Create(path)
	return &sparse{f, err}
}

func (s *sparse) close(size int64) error {
	if s.f == nil {
		return s.err
	}
	if s.err == nil {
		s.err = s.f.Truncate(size)
	}
	if err := s.f.Close(); s.err == nil {
		s.err = err
	}
	return s.err
}

// SparseRun is one run of a sparse node index and the ids in it that have a
// location; all others are fillers.
type SparseRun struct {
	First, Count, Offset uint64
	IDs                  []uint64
}

// SparseNodeIdx writes a node index with nruns runs of up to maxRun (below
// 2^24) ids each.
func SparseNodeIdx(path string, r *Rng, nruns int, maxRun uint64) (runs []SparseRun, want map[int64]int64, total uint64, err error) {
	s := newSparse(path)
	want = map[int64]int64{}
	id := uint64(1 + r.IntN(5))
	for i := 0; i < nruns; i++ {
		n := maxRun
		switch r.IntN(4) {
		case 0:
			n = 1 + uint64(r.IntN(3))
		case 1:
			n = 1 + r.Uint64()%maxRun
		}
		run := SparseRun{First: id, Count: n, Offset: total}
		set := map[uint64]bool{0: true, n - 1: true}
		for len(set) < 5 && uint64(len(set)) < n {
			set[r.Uint64()%n] = true
		}
		for o := range set {
			run.IDs = append(run.IDs, id+o)
			want[int64(id+o)] = -1 - r.Int64N(1<<62)
		}
		sort.Slice(run.IDs, func(a, b int) bool { return run.IDs[a] < run.IDs[b] })
		runs = append(runs, run)
		total += n
		id += n + 2 + r.Uint64()%(1<<uint(r.IntN(30)))
	}
	head := make([]byte, 0, 16+16*nruns)
	head = binary.LittleEndian.AppendUint64(head, 1)
	head = binary.LittleEndian.AppendUint64(head, uint64(nruns))
	for _, x := range runs {
		head = binary.LittleEndian.AppendUint64(head, x.First)
		head = binary.LittleEndian.AppendUint64(head, x.Offset<<24|x.Count)
	}
	if s.err == nil {
		s.at(0, head)
		for _, x := range runs {
			for _, id := range x.IDs {
				s.at(int64(len(head))+8*int64(x.Offset+id-x.First), binary.LittleEndian.AppendUint64(nil, uint64(want[int64(id)])))
			}
		}
	}
	return runs, want, total, s.close(int64(len(head)) + 8*int64(total))
}

// SparseWayIdx writes a way index of n ways whose lists lie anywhere up to the
// end of the offset field, or limit bytes.
func SparseWayIdx(path string, r *Rng, n, shift int, limit uint64) (ids []int64, want map[int64][]int64, size map[int64]uint64, total uint64, err error) {
	s := newSparse(path)
	want, size = map[int64][]int64{}, map[int64]uint64{}
	if m := uint64(1<<33-1) << uint(shift); m < limit {
		limit = m
	}
	step := limit / uint64(n+1)
	head := binary.LittleEndian.AppendUint64(nil, uint64(n))
	head = binary.LittleEndian.AppendUint64(head, uint64(shift))
	base := int64(16 + 8*n)
	id, pos := int64(0), uint64(0)
	for i := 0; i < n; i++ {
		id += 1 + r.Int64N(int64(1<<30/n))
		l := make([]int64, r.IntN(40))
		for j := range l {
			l[j] = -1 - r.Int64N(1<<62)
		}
		l = Collapse(l)
		var b []byte
		last := int64(0)
		for _, v := range l {
			b = PutUvarint(b, Zig(v-last))
			last = v
		}
		b = append(b, 0)
		head = binary.LittleEndian.AppendUint64(head, uint64(id)<<33|pos>>uint(shift))
		if s.err == nil {
			s.at(base+int64(pos), b)
		}
		ids = append(ids, id)
		want[id] = l
		next := pos + uint64(len(b)) + r.Uint64()%(2*step)
		if next > limit-4096 {
			next = pos + uint64(len(b))
		}
		next = (next + 1<<uint(shift) - 1) >> uint(shift) << uint(shift)
		size[id] = next - pos
		pos = next
	}
	if s.err == nil {
		s.at(0, head)
	}
	return ids, want, size, pos, s.close(base + int64(pos))
}

// SparseBlocks writes a block file of n blobs of size bytes (below 32 MiB),
// each with a mark at both ends, and gives the marks.
func SparseBlocks(path string, r *Rng, n, size int) (marks [][2]uint64, total int64, err error) {
	s := newSparse(path)
	pos := int64(0)
	for i := 0; i < n && s.err == nil; i++ {
		m := [2]uint64{r.Uint64(), r.Uint64()}
		marks = append(marks, m)
		h := FrameHeader("OSMData", size, false)
		s.at(pos, h)
		pos += int64(len(h))
		s.at(pos, binary.LittleEndian.AppendUint64(nil, m[0]))
		s.at(pos+int64(size)-8, binary.LittleEndian.AppendUint64(nil, m[1]))
		pos += int64(size)
	}
	return marks, pos, s.close(pos)
}
