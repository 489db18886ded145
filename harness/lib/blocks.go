package lib

import "fmt"

// OpaqueFile frames n blocks of arbitrary bytes, for parts of the program
// that look at nothing but the framing.  Gives the blob bytes and types too.
func OpaqueFile(r *Rng, n, maxSize int) (file []byte, blobs [][]byte, types []string) {
	for i := 0; i < n; i++ {
		sz := r.IntN(maxSize + 1)
		if r.IntN(10) == 0 {
			sz = 0
		}
		b := make([]byte, sz)
		for j := range b {
			b[j] = byte(r.IntN(256))
		}
		typ := "OSMData"
		if i == 0 && r.IntN(3) > 0 || r.IntN(20) == 0 {
			typ = "OSMHeader"
		}
		extra := r.IntN(2) == 0
		if i == n-1 && r.IntN(6) == 0 { // a whole number of pages
			for b = b[:0]; (len(file)+len(FrameBlob(typ, b, extra)))%4096 != 0 && len(b) < 9000; {
				b = append(b, byte(r.IntN(256)))
			}
		}
		file = append(file, FrameBlob(typ, b, extra)...)
		blobs = append(blobs, b)
		types = append(types, typ)
	}
	return
}

// FDs lists what the process's descriptors refer to.
func FDs() []string {
	return procLinks("/proc/self/fd")
}

// FileMaps lists the file-backed mappings under a directory.
func FileMaps(dir string) []string {
	var out []string
	for _, l := range lines("/proc/self/maps") {
		var a, p, o, dv, in, path string
		if n, _ := fmt.Sscan(l, &a, &p, &o, &dv, &in, &path); n == 6 && len(path) > len(dir) && path[:len(dir)] == dir {
			out = append(out, l)
		}
	}
	return out
}
