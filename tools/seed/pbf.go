package zzdemo

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"testing"
)

// A small PBF writer and command runner for the demonstrations.

func uv(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func zz(v int64) uint64 { return uint64(v<<1) ^ uint64(v>>63) }

func fb(b []byte, id int, v []byte) []byte {
	b = uv(b, uint64(id)<<3|2)
	b = uv(b, uint64(len(v)))
	return append(b, v...)
}

func fi(b []byte, id int, v uint64) []byte { return uv(uv(b, uint64(id)<<3), v) }

func delta(vs []int64) []byte {
	var b []byte
	last := int64(0)
	for _, v := range vs {
		b = uv(b, zz(v-last))
		last = v
	}
	return b
}

func packed(vs []uint64) []byte {
	var b []byte
	for _, v := range vs {
		b = uv(b, v)
	}
	return b
}

type node struct {
	id, lat, lon int64 // raw coordinates
	tags         map[string]string
}

type way struct {
	id   int64
	refs []int64
	tags map[string]string
}

type member struct {
	typ  int
	id   int64
	role string
}

type rel struct {
	id      int64
	members []member
	tags    map[string]string
	extra   []byte
}

type block struct {
	nodes          []node
	ways           []way
	rels           []rel
	gran           int64
	latOff, lonOff int64
	raw            bool
	typ            string
	payload        []byte // instead of the above
}

type strs struct {
	m map[string]uint64
	s []string
}

func (s *strs) ix(v string) uint64 {
	if i, ok := s.m[v]; ok {
		return i
	}
	s.m[v] = uint64(len(s.s))
	s.s = append(s.s, v)
	return s.m[v]
}

func (s *strs) tags(m map[string]string) (ks, vs []uint64) {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ks, vs = append(ks, s.ix(k)), append(vs, s.ix(m[k]))
	}
	return
}

func (bl block) encode() []byte {
	if bl.payload != nil {
		return bl.payload
	}
	st := &strs{m: map[string]uint64{"": 0}, s: []string{""}}
	var groups [][]byte
	if len(bl.nodes) > 0 {
		var ids, lats, lons []int64
		var kv []uint64
		for _, n := range bl.nodes {
			ids, lats, lons = append(ids, n.id), append(lats, n.lat), append(lons, n.lon)
			ks, vs := st.tags(n.tags)
			for i := range ks {
				kv = append(kv, ks[i], vs[i])
			}
			kv = append(kv, 0)
		}
		var d []byte
		d = fb(d, 1, delta(ids))
		d = fb(d, 8, delta(lats))
		d = fb(d, 9, delta(lons))
		d = fb(d, 10, packed(kv))
		groups = append(groups, fb(nil, 2, d))
	}
	if len(bl.ways) > 0 {
		var g []byte
		for _, w := range bl.ways {
			b := fi(nil, 1, uint64(w.id))
			ks, vs := st.tags(w.tags)
			b = fb(b, 2, packed(ks))
			b = fb(b, 3, packed(vs))
			b = fb(b, 8, delta(w.refs))
			g = fb(g, 3, b)
		}
		groups = append(groups, g)
	}
	if len(bl.rels) > 0 {
		var g []byte
		for _, r := range bl.rels {
			b := fi(nil, 1, uint64(r.id))
			ks, vs := st.tags(r.tags)
			b = fb(b, 2, packed(ks))
			b = fb(b, 3, packed(vs))
			var roles, types []uint64
			var ids []int64
			for _, m := range r.members {
				roles, types, ids = append(roles, st.ix(m.role)), append(types, uint64(m.typ)), append(ids, m.id)
			}
			b = fb(b, 8, packed(roles))
			b = fb(b, 9, delta(ids))
			b = fb(b, 10, packed(types))
			b = append(b, r.extra...)
			g = fb(g, 4, b)
		}
		groups = append(groups, g)
	}
	var sb []byte
	for _, s := range st.s {
		sb = fb(sb, 1, []byte(s))
	}
	p := fb(nil, 1, sb)
	for _, g := range groups {
		p = fb(p, 2, g)
	}
	if bl.gran != 0 {
		p = fi(p, 17, uint64(bl.gran))
	}
	if bl.latOff != 0 {
		p = fi(p, 19, uint64(bl.latOff))
	}
	if bl.lonOff != 0 {
		p = fi(p, 20, uint64(bl.lonOff))
	}
	return p
}

func blob(typ string, payload []byte, raw bool) []byte {
	var b []byte
	if raw {
		b = fb(nil, 1, payload)
	} else {
		var z bytes.Buffer
		w := zlib.NewWriter(&z)
		_, _ = w.Write(payload)
		_ = w.Close()
		b = fi(nil, 2, uint64(len(payload)))
		b = fb(b, 3, z.Bytes())
	}
	h := fb(nil, 1, []byte(typ))
	h = fi(h, 3, uint64(len(b)))
	out := make([]byte, 4)
	binary.BigEndian.PutUint32(out, uint32(len(h)))
	return append(append(out, h...), b...)
}

func pbfFile(blocks ...block) []byte {
	out := blob("OSMHeader", fb(nil, 4, []byte("OsmSchema-V0.6")), false)
	for _, b := range blocks {
		typ := b.typ
		if typ == "" {
			typ = "OSMData"
		}
		out = append(out, blob(typ, b.encode(), b.raw)...)
	}
	return out
}

func scratch(t *testing.T) string {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	return d
}

func put(t *testing.T, dir, name string, data []byte) string {
	fn := filepath.Join(dir, name)
	if err := ioutil.WriteFile(fn, data, 0644); err != nil {
		t.Fatal(err)
	}
	return fn
}

func get(t *testing.T, dir, name string) []byte {
	b, err := ioutil.ReadFile(filepath.Join(dir, name))
	if err != nil {
		t.Fatal(err)
	}
	return b
}

// run runs a command of the project in dir and gives its standard output, all its output and its exit status.
func run(dir, name string, args ...string) (string, string, int) {
	cmd := exec.Command(filepath.Join(os.Getenv("BIN"), name), args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	code := 0
	if err != nil {
		code = 1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return so.String(), so.String() + se.String(), code
}

func mustRun(t *testing.T, dir, name string, args ...string) string {
	so, all, code := run(dir, name, args...)
	if code != 0 {
		t.Fatalf("%s %v: exit %d: %s", name, args, code, all)
	}
	return so
}

func i64s(b []byte) []int64 {
	out := make([]int64, len(b)/8)
	for i := range out {
		out[i] = int64(binary.LittleEndian.Uint64(b[8*i:]))
	}
	return out
}
