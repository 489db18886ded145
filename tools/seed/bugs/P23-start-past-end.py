B=dict(property="P23",
needs="a selected first element at or past the end of the (sub-)index",
breaks="dumpnodeindex ignores a start element that is out of range and prints everything",
edits=[("cmd/dumpnodeindex/dumpnodeindex.go","""	startElement := 0
	if opts.StartElement != nil {
		startElement = *opts.StartElement
	}

	endElement := si.ElementCount()
""","""	endElement := si.ElementCount()

	startElement := 0
	if opts.StartElement != nil && *opts.StartElement < endElement {
		startElement = *opts.StartElement
	}

""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{{id: 1, lat: 10, lon: 20}, {id: 50, lat: 10, lon: 20}}}))
	mustRun(t, d, "nodeindex", "-r", "0", "-i", "in.pbf", "-o", "n.idx")
	if so := mustRun(t, d, "dumpnodeindex", "-i", "n.idx", "-p", "--start-element", "2"); so != "" {
		t.Fatalf("elements from 2 of 2: %s", so)
	}
}
''')
