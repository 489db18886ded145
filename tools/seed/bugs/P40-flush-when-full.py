B=dict(property="P40",
needs="a relation file whose resolved lists are much larger than a few megabytes",
breaks="relindex writes only when its buffer is exactly full, but appending makes the buffer larger instead, so the whole relation index is held in memory; the output is right",
edits=[("cmd/relindex/relindex.go","""		if len(outputData) > 1000000 { // Try to keep it under 1MB
""","""		if len(outputData) == cap(outputData) { // Never needs to be reallocated
""")],
demo='''
package zzdemo

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	w := way{id: 7}
	for i := int64(0); i < 1500; i++ {
		w.refs = append(w.refs, i+1)
	}
	rels := func(blk, n int) block {
		r := rel{}
		for i := 0; i < 20; i++ {
			r.members = append(r.members, member{1, 7, ""})
		}
		var b block
		for i := 0; i < n; i++ {
			r.id = int64(1 + blk*n + i)
			b.rels = append(b.rels, r)
		}
		return b
	}
	put(t, d, "ways.pbf", pbfFile(block{ways: []way{w}}))
	mustRun(t, d, "wayindex", "-r", "0", "-i", "ways.pbf", "-o", "w.idx")
	var bs []block
	for i := 0; i < 20; i++ {
		bs = append(bs, rels(i, 100))
	}
	put(t, d, "in.pbf", pbfFile(bs...)) // 480 MB of locations
	c := exec.Command(filepath.Join(os.Getenv("BIN"), "relindex"), "-r", "0", "-i", "in.pbf", "-o", "out", "-x", "w.idx", "-p", "1")
	c.Dir = d
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	peak := 0
	for {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
			if st, err := os.Stat(filepath.Join(d, "out")); err != nil || st.Size() != 2000*(16+20*(16+1500*8)) {
				t.Fatalf("unexpected output: %v %v", st, err)
			}
			if peak > 200000 {
				t.Fatalf("%d kB of memory", peak)
			}
			return
		case <-time.After(2 * time.Millisecond):
			b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", c.Process.Pid))
			for _, l := range strings.Split(string(b), "\\n") {
				n := 0
				if k, _ := fmt.Sscanf(l, "RssAnon: %d kB", &n); k == 1 && n > peak {
					peak = n
				}
			}
		}
	}
}
''')
