B=dict(property="P37",
needs="two nodeindex runs at the same time whose outputs differ only in their extension",
breaks="the intermediate file is named after the output without its extension, so the two runs write the same one",
edits=[("cmd/nodeindex/indexer/nodeindexer_writer.go","""		outputFileLoc := iio.OsCreate(outputFileName + ".loc.tmp")
""","""		outputFileLoc := iio.OsCreate(strings.TrimSuffix(outputFileName, filepath.Ext(outputFileName)) + ".loc.tmp")
"""),("cmd/nodeindex/indexer/nodeindexer_writer.go","""		iio.OsRemove(outputFileName + ".loc.tmp")
""","""		iio.OsRemove(outputFileLoc.Name())
"""),("cmd/nodeindex/indexer/nodeindexer_writer.go","""	"io"
""","""	"io"
	"path/filepath"
	"strings"
""")],
demo='''
package zzdemo

import (
	"bytes"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	for _, n := range []string{"a", "b"} {
		var bls []block
		for j := int64(0); j < 40; j++ {
			bl := block{}
			for i := int64(1); i <= 8000; i++ {
				bl.nodes = append(bl.nodes, node{id: i + j*8000, lat: int64(n[0]), lon: i})
			}
			bls = append(bls, bl)
		}
		put(t, d, n+".pbf", pbfFile(bls...))
		mustRun(t, d, "nodeindex", "-r", "0", "-i", n+".pbf", "-o", n+".alone")
	}
	for try := 0; try < 8; try++ {
		done := make(chan int, 2)
		for _, n := range []string{"a", "b"} {
			n := n
			go func() {
				_, _, rc := run(d, "nodeindex", "-r", "0", "-i", n+".pbf", "-o", "x."+n)
				done <- rc
			}()
		}
		for i := 0; i < 2; i++ {
			select {
			case rc := <-done:
				if rc != 0 {
					t.Fatal("a run failed beside the other")
				}
			case <-time.After(30 * time.Second):
				t.Fatal("no end")
			}
		}
		for _, n := range []string{"a", "b"} {
			if !bytes.Equal(get(t, d, "x."+n), get(t, d, n+".alone")) {
				t.Fatalf("x.%s differs from what it is alone", n)
			}
		}
	}
}
''')
