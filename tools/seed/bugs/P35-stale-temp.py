B=dict(property="P35",
needs="a location file left by a killed run of wayindex that is longer than the one now written",
breaks="the intermediate location file is opened without emptying it, so what a killed run left in it ends up in the index",
edits=[("cmd/wayindex/wayindexer/wayindexer_writer.go","""		outputFileLoc := iio.OsCreate(outputFileName + ".loc.tmp")
""","""		outputFileLoc, err := os.OpenFile(outputFileName+".loc.tmp", os.O_RDWR|os.O_CREATE, 0o600)
		if err != nil {
			panic(err)
		}
"""),("cmd/wayindex/wayindexer/wayindexer_writer.go","""	"io"
""","""	"io"
	"os"
""")],
demo='''
package zzdemo

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{ways: []way{{id: 1, refs: []int64{5, 6, 7}}, {id: 4, refs: []int64{8, 9}}}}))
	mustRun(t, d, "wayindex", "-r", "0", "-i", "in.pbf", "-o", "fresh")
	put(t, d, "again", bytes.Repeat([]byte{0}, 32))
	put(t, d, "again.loc.tmp", bytes.Repeat([]byte{7}, 5000))
	mustRun(t, d, "wayindex", "-r", "0", "-i", "in.pbf", "-o", "again")
	if !bytes.Equal(get(t, d, "fresh"), get(t, d, "again")) {
		t.Fatalf("%d bytes, want %d", len(get(t, d, "again")), len(get(t, d, "fresh")))
	}
}
''')
