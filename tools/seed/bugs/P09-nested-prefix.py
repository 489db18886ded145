B=dict(property="P09",
needs="a node tag under the one discard prefix that has two parts (it:fvg:)",
breaks="prefixes are looked up by the text up to the first colon, so it:fvg: tags are kept",
edits=[("cmd/tagfilter/tagfilterer/tagfilterer_worker.go","""	for _, p := range deletePrefixes {
		if strings.HasPrefix(s, p) {
			return false
		}
	}
	return true
""","""	if idx := strings.IndexByte(s, ':'); idx >= 0 {
		_, drop := deletePrefixSet[s[:idx+1]]
		return !drop
	}
	return true
"""),("cmd/tagfilter/tagfilterer/tagfilterer_worker.go","""const nodesToBuffer = 0
""","""// deletePrefixSet allows a prefix to be tested with a single lookup
var deletePrefixSet = func() map[string]struct{} {
	m := make(map[string]struct{})
	for _, p := range deletePrefixes {
		m[p] = struct{}{}
	}
	return m
}()

const nodesToBuffer = 0
""")],
demo='''
package zzdemo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{
		{id: 1, lat: 1, lon: 1, tags: map[string]string{"it:fvg:ctrn:code": "x"}},
		{id: 2, lat: 1, lon: 1, tags: map[string]string{"name": "n", "it:fvg:ctrn:code": "x", "source:a": "b"}},
	}}))
	mustRun(t, d, "tagfilter", "-r", "0", "-i", "in.pbf", "-o", "out.pbf")
	so := mustRun(t, d, "entityfind", "-i", "out.pbf", "-e", "1", "-e", "2")
	if strings.Contains(so, "it:fvg") || strings.Contains(so, "Id:0x1,") || !strings.Contains(so, "name") {
		t.Fatalf("kept: %s", so)
	}
}
''')
