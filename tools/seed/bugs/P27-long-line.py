B=dict(property="P27", cli=False, pbf=False,
needs="a message longer than the line is wide",
breaks="the highlight is proportional to the message, not the line, so it is too long and can cover the whole line early",
edits=[("internal/ui/format.go","""	pre := int(float64(w) * pct)
	if pre < 0 {
""","""	pre := int(float64(len(text)) * pct)
	if pre < 0 {
""")],
demo='''
package zzdemo

import (
	"strings"
	"testing"

	"github.com/squizzling/osmindex/internal/ui"
)

func TestDemo(t *testing.T) {
	got := ui.MarkupAsProgress(strings.Repeat("x", 200), 80, 0.5)
	if i := strings.Index(got, "%N") - 2; i != 40 {
		t.Fatalf("%d of 80 cells are highlighted at one half", i)
	}
}
''')
