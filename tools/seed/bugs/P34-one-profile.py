B=dict(property="P34",
needs="a processor profile and a heap profile requested for the same run",
breaks="the processor profile is never finished when a heap profile is written, and stays empty",
edits=[("internal/system/setup.go","""			iio.FClose(profMem)
		}

		if opts.CpuProfile != nil {
""","""			iio.FClose(profMem)
		} else if opts.CpuProfile != nil {
""")],
demo='''
package zzdemo

import (
	"bytes"
	"compress/gzip"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	d := scratch(t)
	put(t, d, "in.pbf", pbfFile(block{nodes: []node{{id: 1}, {id: 2}}}))
	for _, args := range [][]string{{"--cpu-profile", "cpu"}, {"--mem-profile", "mem"}, {"--mem-profile", "mem", "--cpu-profile", "cpu"}} {
		mustRun(t, d, "entitycount", append([]string{"-i", "in.pbf"}, args...)...)
		for i := 1; i < len(args); i += 2 {
			z, err := gzip.NewReader(bytes.NewReader(get(t, d, args[i])))
			if err == nil {
				_, err = io.ReadAll(z)
			}
			if err != nil {
				t.Fatalf("%q: profile %s: %v", args, args[i], err)
			}
		}
	}
}
''')
