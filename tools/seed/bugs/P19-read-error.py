B=dict(property="P19", pbf=False, cli=False,
needs="an I/O error while reading back the temporary location file",
breaks="a failed read counts as the end of the file, so the copy ends early and the run succeeds",
edits=[("internal/iio/wrappers.go","""	if n, err := f.Read(buf); err != nil && err != io.EOF {
		panic(err)
	} else {
		return n
	}
""","""	n, err := f.Read(buf)
	if n == 0 { // end of file
		return 0
	}
	if err != nil && err != io.EOF {
		panic(err)
	}
	return n
""")],
demo='''
package zzdemo

import (
	"os"
	"testing"

	"github.com/squizzling/osmindex/internal/iio"
)

func TestDemo(t *testing.T) {
	d, err := os.Open(os.TempDir()) // reading a directory fails with EISDIR
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.TempDir() + "/out")
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		if recover() == nil {
			t.Fatal("a failing read was taken for the end of the file")
		}
	}()
	iio.FCopy(out, d, make([]byte, 100))
}
''')
