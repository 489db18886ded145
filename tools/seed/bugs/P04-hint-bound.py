B=dict(property="P04",
needs="a lookup whose hint is exactly one run above the run that holds the node",
breaks="either site alone is harmless; together the upper end of the search excludes the run just below the hint, so the node is reported absent",
edits=[("internal/nodeindex/nodesubindex.go","""			upperPoint = hint
""","""			upperPoint = hint - 1 // the hinted element has just been ruled out
"""),("internal/nodeindex/nodesubindex.go","""	if lowerPoint >= len(si.element) || !si.element[lowerPoint].contains(id) {
""","""	if lowerPoint >= upperPoint || !si.element[lowerPoint].contains(id) {
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/nodeindex"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	b := block{}
	for i := int64(0); i < 40; i++ {
		b.nodes = append(b.nodes, node{id: 10 + 5*i, lat: i + 1, lon: i + 2})
	}
	put(t, d, "in.pbf", pbfFile(b))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "out")
	si := nodeindex.NewNodeIndex(d+"/out", nil).SubIndex(0, 1)
	for _, n := range b.nodes {
		want, _, ok := si.FindNode(uint64(n.id), len(b.nodes))
		for hint := 0; hint <= len(b.nodes); hint++ {
			got, _, ok2 := si.FindNode(uint64(n.id), hint)
			if !ok || !ok2 || got != want {
				t.Fatalf("node %d with hint %d: %d %v, without %d %v", n.id, hint, got, ok2, want, ok)
			}
		}
	}
}
''')
