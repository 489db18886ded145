B=dict(property="P29",
needs="nodeindex dying or cancelled at any point before its last write",
breaks="the version is part of the reserved header from the start, so an index that was never finished is accepted as an index without nodes",
edits=[("cmd/nodeindex/indexer/nodeindexer_writer.go","""		// Reserve 16 bytes, to be filled in at the end
		iio.FWriteSliceI64(outputFileIdx, []int64{0, 0})
""","""		// Reserve 16 bytes, the element count is filled in at the end
		iio.FWriteSliceI64(outputFileIdx, []int64{nodeindex.Version, 0})
""")],
demo='''
package zzdemo

import (
	"fmt"
	"os"
	"os/exec"
	"testing"
)

// A file size limit makes the copy of the locations fail.
func TestDemo(t *testing.T) {
	d := scratch(t)
	b := block{}
	for i := int64(1); i < 4000; i++ {
		b.nodes = append(b.nodes, node{id: 5 * i, lat: i, lon: i})
	}
	put(t, d, "in.pbf", pbfFile(b))
	// the shell's limit counts KiB: the location file has 31, the index 94
	for limit := 95; limit > 0; limit -= 5 {
		cmd := exec.Command("bash", "-c", `ulimit -f $1; trap '' XFSZ; "$2" -r 0 -i in.pbf -o out`, "-", fmt.Sprint(limit), os.Getenv("BIN")+"/nodeindex")
		cmd.Dir = d
		if cmd.Run() == nil {
			continue
		}
		if so, _, code := run(d, "dumpnodeindex", "-i", "out"); code == 0 {
			t.Fatalf("limit %d: the unfinished index is accepted: %.100s", limit, so)
		}
	}
}
''')
