B=dict(property="P34",
needs="a heap profile taken of a run, and a look at what it describes",
breaks="the heap profile is written before the work begins",
edits=[("internal/system/setup.go","""			runtime.MemProfileRate = *opts.MemProfileRate
		}
	}
""","""			runtime.MemProfileRate = *opts.MemProfileRate
		}
		profMem := iio.OsCreate(*opts.MemProfile)
		_ = pprof.WriteHeapProfile(profMem)
		iio.FClose(profMem)
	}
"""),("internal/system/setup.go","""		if opts.MemProfile != nil {
			profMem := iio.OsCreate(*opts.MemProfile)
			_ = pprof.WriteHeapProfile(profMem)
			iio.FClose(profMem)
		}

		if opts.CpuProfile""","""		if opts.CpuProfile""")],
demo='''
package zzdemo

import (
	"bytes"
	"compress/gzip"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	var ns []node
	for i := int64(1); i < 2000; i++ {
		ns = append(ns, node{id: i})
	}
	put(t, d, "in.pbf", pbfFile(block{nodes: ns}))
	mustRun(t, d, "nodeindex", "-i", "in.pbf", "-o", "out", "-r", "0", "--mem-profile", "mem", "--mem-profile-rate=1")
	z, err := gzip.NewReader(bytes.NewReader(get(t, d, "mem")))
	if err != nil {
		t.Fatal(err)
	}
	b, err := io.ReadAll(z)
	if err != nil {
		t.Fatal(err)
	}
	// the names of functions are in the profile
	if !bytes.Contains(b, []byte("osmindex/internal/pbf")) && !bytes.Contains(b, []byte("osmindex/cmd/nodeindex/indexer")) {
		t.Fatalf("nothing the command worked on is in its heap profile")
	}
}
''')
