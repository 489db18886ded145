B=dict(property="P23",
needs="a sub-index and an end element given together",
breaks="dumpnodeindex drops the end element once a sub-index is chosen",
edits=[("cmd/dumpnodeindex/dumpnodeindex.go","""	if opts.EndElement != nil && *opts.EndElement < endElement {
""","""	if opts.EndElement != nil && opts.SubIndexIndex == nil && *opts.EndElement < endElement {
""")],
demo='''
package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	b := block{}
	for i := int64(1); i <= 20; i++ {
		b.nodes = append(b.nodes, node{id: i * 100, lat: 10, lon: 20})
	}
	put(t, d, "in.pbf", pbfFile(b))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	part := []string{"-i", "n.idx", "-p", "--sub-index-index", "1", "--sub-index-count", "2"}
	all := mustRun(t, d, "dumpnodeindex", part...)
	three := mustRun(t, d, "dumpnodeindex", append(part, "--end-element", "3")...)
	if na, nt := strings.Count(all, "\\n"), strings.Count(three, "\\n"); nt >= na || nt == 0 {
		t.Fatalf("the first three elements take %d lines, all take %d", nt, na)
	}
}
''')
