B=dict(property="P32",
needs="dumpnodeindex asked for a sub-index whose number equals the number of sub-indexes",
breaks="the selection of sub-index n of n is accepted",
edits=[("cmd/dumpnodeindex/args.go","""*opts.SubIndexIndex >= *opts.SubIndexCount {
""","""*opts.SubIndexIndex > *opts.SubIndexCount {
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{{id: 1}, {id: 2}, {id: 70}, {id: 900}}}))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx")
	if _, _, code := run(d, "dumpnodeindex", "-i", "w.idx", "-s", "--sub-index-index", "3", "--sub-index-count", "3"); code == 0 {
		t.Fatal("sub-index 3 of 3 accepted")
	}
	mustRun(t, d, "dumpnodeindex", "-i", "w.idx", "-s", "--sub-index-index", "2", "--sub-index-count", "3")
}
''')
