B=dict(property="P22",
needs="a node index whose version number is below the current one, or negative",
breaks="only versions above the current one are refused",
edits=[("internal/nodeindex/nodeindex.go","""	if version != Version {
""","""	if version > Version {
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{{id: 1, lat: 10, lon: 20}}}))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	mustRun(t, d, "dumpnodeindex", "-i", "n.idx", "-p")
	for _, v := range []byte{0, 2, 255} {
		b := append([]byte{}, get(t, d, "n.idx")...)
		b[0] = v
		if v == 255 {
			for i := range b[:8] {
				b[i] = v
			}
		}
		put(t, d, "bad.idx", b)
		if so, _, code := run(d, "dumpnodeindex", "-i", "bad.idx", "-p"); code == 0 {
			t.Fatalf("version byte %d accepted: %s", v, so)
		}
	}
}
''')
