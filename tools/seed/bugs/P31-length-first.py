B=dict(property="P31", cli=False, pbf=False,
needs="equally frequent strings of different lengths whose order by length is not their order by text",
breaks="ties are ordered by length before text",
edits=[("internal/t/string_table_builder.go","""		return strings.Compare(stb.stringList[i], stb.stringList[j]) < 0
""","""		if len(stb.stringList[i]) != len(stb.stringList[j]) {
			return len(stb.stringList[i]) < len(stb.stringList[j])
		}
		return strings.Compare(stb.stringList[i], stb.stringList[j]) < 0
"""),("internal/t/string_table_builder.go","""		// Tie breaker to make sort deterministic
""","""		// Tie breaker to make sort deterministic, by length as that is cheapest
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/t"
)

func TestDemo(tt *testing.T) {
	stb := t.NewStringTableBuilder()
	for _, s := range []string{"b", "aa", "ccc"} {
		stb.AddString(s)
	}
	stb.Finalize()
	if a, b, c := stb.GetIndex("aa"), stb.GetIndex("b"), stb.GetIndex("ccc"); a != 1 || b != 2 || c != 3 {
		tt.Fatal(a, b, c)
	}
}
''')
