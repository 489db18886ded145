B=dict(property="P05",
needs="a way that names a node missing from the index twice in a row",
breaks="the repeated reference reuses the previous lookup's location even when it was a miss, so it becomes 0",
edits=[("cmd/rewritenodes/rewriter/noderewriter_worker.go","""					var mortonLocation int64
					for _, ref := range w.Refs {
""","""					var mortonLocation int64
					lastRef := int64(0)
					for refIndex, ref := range w.Refs {
						if refIndex > 0 && ref == lastRef { // Same as the previous one, no need to look it up again
							w.Refs[outIndex] = w.Refs[outIndex-1]
							if ref > 0 {
								w.Refs[outIndex] = mortonLocation
							}
							outIndex++
							continue
						}
						lastRef = ref
"""),("cmd/rewritenodes/rewriter/noderewriter_worker.go","""						} else if mortonLocation, hint, found = ix.FindNode(uint64(ref), hint); found { // Found ref
""","""						} else if mortonLocation, hint, found = ix.FindNode(uint64(ref), hint); found {
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/wayindex"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	b := block{nodes: []node{{id: 5, lat: 10, lon: 20}, {id: 9, lat: 30, lon: 40}}}
	w := block{ways: []way{{id: 7, refs: []int64{5, 77, 77, 9}}}}
	put(t, d, "in.pbf", pbfFile(b, w))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	mustRun(t, d, "rewritenodes", "-r", "0", "-i", "in.pbf", "-o", "out.pbf", "-x", "n.idx")
	mustRun(t, d, "wayindex", "-r", "0", "-i", "out.pbf", "-o", "w.idx")
	refs, _, ok := wayindex.NewWayIndex(d+"/w.idx", nil).SubIndexWithScaledPass(0, 1).FindLocations(7, 0)
	// consecutive repeats are collapsed by the way index
	if !ok || len(refs) != 3 || refs[0] >= 0 || refs[1] != 77 || refs[2] >= 0 {
		t.Fatalf("way 7 has %v", refs)
	}
}
''')
