B=dict(property="P28", cli=False,
needs="a run that is cancelled before it reaches the end of its input",
breaks="a cancelled run leaves its input mapped and open",
edits=[("internal/pbf/process.go","""	iio.MMapUnmap(inputBuffer)
	iio.FClose(inputFile)
	close(pfs.done)
""","""	if pfs.at == pfs.max {
		iio.MMapUnmap(inputBuffer)
		iio.FClose(inputFile)
	}
	close(pfs.done)
""")],
demo='''
package zzdemo

import (
	"context"
	"io/ioutil"
	"testing"

	"github.com/squizzling/osmindex/internal/pbf"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	fn := put(t, d, "in.pbf", pbfFile(block{}, block{}, block{}))
	count := func() int {
		fs, err := ioutil.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(fs)
	}
	before := count()
	for i := 0; i < 20; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		pbf.ProcessFileAsync(ctx, fn, func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
			<-in
			cancel()
			for range in {
				<-ctx.Done()
			}
		}, nil, 1).Wait()
		cancel()
	}
	if after := count(); after > before+2 {
		t.Fatalf("%d descriptors before, %d after", before, after)
	}
}
''')
