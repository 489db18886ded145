B=dict(property="P08",
needs="a relation that lists the same way twice in a row",
breaks="consecutive repeats of a way member are left out of the relation index",
edits=[("cmd/relindex/relindexerinit/relindexer_worker.go","""					for _, mt := range r.MemberType {
						if mt == t.RelationMemberTypeWay {
							wayCount++
						}
					}
					outputData = append(outputData, wayCount)
""","""					countAt := len(outputData)
					outputData = append(outputData, 0)
					lastWayId := int64(0)
"""),("cmd/relindex/relindexerinit/relindexer_worker.go","""							continue
						}

						outputData = append(outputData, -wayId)
					}
""","""							continue
						}
						if wayId == lastWayId {
							continue
						}

						outputData = append(outputData, -wayId)
						lastWayId = wayId
						wayCount++
					}
					outputData[countAt] = wayCount
""")],
demo='''
package zzdemo

import (
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(
		block{ways: []way{{id: 7, refs: []int64{1, 2}}}},
		block{rels: []rel{{id: 3, members: []member{{1, 7, ""}, {1, 7, "x"}, {1, 9, ""}}}}}))
	mustRun(t, d, "wayindex", "-r", "0", "-i", "in.pbf", "-o", "w.idx")
	mustRun(t, d, "relindex", "-r", "0", "-i", "in.pbf", "-o", "out", "-x", "w.idx", "-p", "2")
	want := []int64{3, 3, 7, 2, 1, 2, 7, 2, 1, 2, 9, 0}
	got := i64s(get(t, d, "out"))
	if len(got) != len(want) {
		t.Fatalf("got %v, want %v", got, want)
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fatalf("got %v, want %v", got, want)
		}
	}
}
''')
