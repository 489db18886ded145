B=dict(property="P37",
needs="two commands using the same node index at the same time",
breaks="an index is locked by the first command that opens it, so a second one fails while the first is at work",
edits=[("internal/nodeindex/nodeindex.go","""	f := iio.OsOpen(fn)
""","""	f := openLocked(fn)
"""),("internal/nodeindex/nodeindex.go","""func NewNodeIndex(""","""// openLocked keeps others from replacing an index in use.
func openLocked(fn string) *os.File {
	f := iio.OsOpen(fn)
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
		panic("index is in use")
	}
	return f
}

func NewNodeIndex("""),("internal/nodeindex/nodeindex.go","""	"os"
""","""	"os"
	"syscall"
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/nodeindex"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{{id: 1, lat: 10, lon: 20}}}))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	ix := nodeindex.NewNodeIndex(d+"/n.idx", nil)
	mustRun(t, d, "dumpnodeindex", "-i", "n.idx")
	ix.Close()
}
''')
