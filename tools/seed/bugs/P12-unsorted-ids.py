B=dict(property="P12",
needs="requested ids that are not given in ascending order",
breaks="the requested ids are searched as if sorted, so some requested entities are not printed",
edits=[("cmd/entityfind/entityfind.go","""	for _, id2 := range ids {
		if id2 == id {
			return true
		}
	}
	return false
""","""	idx := sort.Search(len(ids), func(i int) bool {
		return ids[i] >= id
	})
	return idx < len(ids) && ids[idx] == id
"""),("cmd/entityfind/entityfind.go","""	"os"
""","""	"os"
	"sort"
""")],
demo='''
package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{{id: 1}, {id: 2}, {id: 3}, {id: 9}}}))
	so := mustRun(t, d, "entityfind", "-i", "in.pbf", "-e", "9", "-e", "2", "-e", "1")
	if n := strings.Count(so, "HLNode"); n != 3 {
		t.Fatalf("%d of 3 nodes printed: %s", n, so)
	}
}
''')
