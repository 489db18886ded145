package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	. "verif/lib"
)

func init() {
	register("P02", "exploration", p02)
	register("P24", "exploration", p24)
	register("P32", "exploration", p32)
}

// variant is one way of running a command that must not matter.
type variant struct {
	Args []string
	Env  []string
	Pty  bool
	Bin  string
}

func (v variant) String() string {
	s := strings.Join(v.Args, " ")
	if len(v.Env) > 0 {
		s += " env " + strings.Join(v.Env, " ")
	}
	if v.Pty {
		s += " (terminal)"
	}
	if v.Bin != "" {
		s += " (" + v.Bin + ")"
	}
	return s
}

func (k *Case) runVariant(cmd string, v variant, args ...string) *Out {
	a := append(append([]string{}, args...), v.Args...)
	x := k.Cmd(cmd, a...)
	if v.Bin != "" {
		x.Path = filepath.Join(k.CLI(v.Bin), cmd)
	}
	x.Env = append(x.Env, v.Env...)
	x.Pty = v.Pty
	return k.Go(x)
}

func p02(c *Ctx) {
	c.R.Rule = "each writing command run on the same input with one worker and no display, then with 2 to 64 workers, thread limits, GOMAXPROCS settings, repeated, with random delays before every statement, and with the display refreshing every millisecond on a terminal; output bytes must be identical; an evaluation is one run compared with its baseline"
	c.Par = 4
	c.Each("files", c.N(26, 500), func(k *Case) {
		o := k.scen()
		o.Nodes = []int{300, 1000, 3000}[k.Rng.IntN(3)]
		o.Ways = []int{100, 400, 1500}[k.Rng.IntN(3)]
		o.Rels = []int{30, 100, 400}[k.Rng.IntN(3)]
		o.BlockMax = []int{1, 3, 10, 60}[k.Rng.IntN(4)]
		if k.Rng.IntN(2) == 0 {
			o.Skew = 1 << (18 + k.Rng.IntN(3)) // the first block takes far longer
		}
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		k.Write("n.idx", NodeIdxBytes(k.subsetLocs(f, 80)))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		steps := []struct {
			cmd  string
			args []string
		}{
			{"decompress", nil}, {"nodeindex", nil}, {"tagfilter", nil}, {"wayindex", []string{"-a", fmt.Sprint(k.Rng.IntN(5))}},
			{"rewritenodes", []string{"-x", "n.idx"}}, {"relindex", []string{"-x", "w.idx", "-p", fmt.Sprint(1 + k.Rng.IntN(3))}},
		}
		for _, s := range steps {
			base := append([]string{"-i", "in.pbf", "-o", "out"}, s.args...)
			run := func(v variant) []byte {
				r := k.runVariant(s.cmd, v, base...)
				if !r.OK() {
					k.Violate("fails:"+s.cmd, fmt.Sprintf("%s %v [%s] failed: %s", s.cmd, base, v, r.Brief()))
					k.Stop()
				}
				b := k.Read("out")
				if b == nil {
					k.Violate("missing:"+s.cmd, fmt.Sprintf("%s %v [%s] left no output", s.cmd, base, v))
					k.Stop()
				}
				_ = os.Remove(k.P("out"))
				return b
			}
			want := run(variant{Args: []string{"-r", "0", "-w", "1"}})
			vs := []variant{
				{Args: []string{"-r", "0", "-w", "2"}},
				{Args: []string{"-r", "0", "-w", "8"}},
				{Args: []string{"-r", "0", "-w", "8"}},
				{Args: []string{"-r", "0", "-w", fmt.Sprint(3 + k.Rng.IntN(60))}, Env: []string{fmt.Sprintf("GOMAXPROCS=%d", 1+k.Rng.IntN(16))}},
				{Args: []string{"-r", "0", "-w", fmt.Sprint(2 + k.Rng.IntN(10)), "--max-threads", fmt.Sprint([]int{1, 2, 3, 16}[k.Rng.IntN(4)])}},
				{Args: []string{"-r", "0", "-w", "32"}, Env: []string{"GOGC=1"}},
				{Args: []string{"-r", "0"}},
				{Args: []string{"-r", "0", "-w", fmt.Sprint(2 + k.Rng.IntN(14))}, Bin: "jitter"},
				{Args: []string{"-r", "0", "-w", "6"}, Bin: "jitter", Env: []string{"ZZJIT=1"}},
			}
			if k.I%2 == 0 {
				vs = append(vs, variant{Args: []string{"-r", "1ms", "-w", fmt.Sprint(1 + k.Rng.IntN(12))}, Pty: true})
			}
			for _, v := range vs {
				got := run(v)
				if d := DiffBytes(want, got); d != "" {
					k.files["output-with-one-worker"], k.files["output-of-this-run"] = want, got
					k.Violate("differs:"+s.cmd, fmt.Sprintf("%s %v [%s] writes other bytes than with one worker: %s", s.cmd, s.args, v, d))
					return
				}
				k.R.Eval(Hash(want, s.cmd, v.String()))
				if v.Pty {
					k.R.Count("runs_with_display", 1)
				}
			}
			k.R.Count("output_bytes_compared", int64(len(want)*len(vs)))
		}
		if k.I < 2 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "skewed_first_block": o.Skew})
		}
	})
}

type fileState struct {
	Sum   string
	Size  int64
	Mode  os.FileMode
	MTime time.Time
	Ino   uint64
	Link  string
}

// snap records every file below dir.
func snap(dir string) map[string]fileState {
	m := map[string]fileState{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		st := fileState{Size: fi.Size(), Mode: fi.Mode(), MTime: fi.ModTime()}
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			h := sha256.Sum256(b)
			st.Sum = fmt.Sprintf("%x", h[:8])
		} else if fi.Mode()&os.ModeSymlink != 0 {
			st.Link, _ = os.Readlink(p)
		} else if fi.IsDir() {
			st.Size, st.MTime = 0, time.Time{}
		}
		m[rel] = st
		return nil
	})
	return m
}

// diffSnap lists the differences outside the allowed names.
func diffSnap(a, b map[string]fileState, allow map[string]bool) []string {
	var out []string
	for n, s := range a {
		if allow[n] {
			continue
		}
		t, ok := b[n]
		switch {
		case !ok:
			out = append(out, n+" was removed")
		case t != s:
			out = append(out, fmt.Sprintf("%s was changed (%d to %d bytes)", n, s.Size, t.Size))
		}
	}
	for n := range b {
		if _, ok := a[n]; !ok && !allow[n] {
			out = append(out, n+" was created")
		}
	}
	sort.Strings(out)
	return out
}

func p24(c *Ctx) {
	c.R.Rule = "every command run in a directory full of other files (including look-alikes of its output and intermediate names) under system call supervision; content, size, mode and modification time of everything else must be unchanged, the only new file must be the output, an existing longer output must be replaced completely, and every path opened for writing, truncated, renamed or removed must be the output or start with its name; an evaluation is one command run"
	c.R.Assumptions = append(c.R.Assumptions, "intermediate files are named after the output file and are free to use those names")
	c.Each("runs", c.N(600, 2500), func(k *Case) {
		o := k.scen()
		if k.Rng.IntN(3) > 0 && o.Nodes < 5 {
			o.Nodes = 50
		}
		f := Gen(k.Rng, o)
		_ = os.Mkdir(k.P("sub"), 0o755)
		k.Input("in.pbf", f)
		big := k.I%16 == 9 || k.I%16 == 12
		locs := k.subsetLocs(f, 90)
		if big {
			k.fillLocs(locs, f, 131072*(1+k.Rng.IntN(4))+10)
		}
		k.Write("n.idx", NodeIdxBytes(locs))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		junk := bytes.Repeat([]byte("other data "), 3000)
		out := []string{"out", "sub/out.x", "./out.pbf", "out dir", "output.nodeidx"}[k.Rng.IntN(5)]
		if big && k.I%32 < 16 {
			out = "sub/out.x"
		}
		abs := k.Rng.IntN(3) == 0
		clean := filepath.Clean(out)
		for _, n := range []string{"in.pbf.loc.tmp", "in.pbf.pass_000_001", "in.pbf.pass_001_002", "in.pbf.tmp", "n.idx.loc.tmp", "w.idx.pass_000_001", "pass_000_001", ".loc.tmp",
			"loc.tmp", "a", "sub/in.pbf", "o", "ou", "core", "osmindex.tmp"} {
			k.Write(n, junk[:1+k.Rng.IntN(len(junk)-1)])
		}
		existed := k.Rng.IntN(2) == 0
		if existed {
			k.Write(clean, append(junk, junk...))
		}
		// half of the time the inputs are links to files elsewhere
		if k.Rng.IntN(4) == 0 {
			_ = os.Rename(k.P("in.pbf"), k.P("sub/real.pbf"))
			_ = os.Symlink("sub/real.pbf", k.P("in.pbf"))
		}
		cmds := []string{"blockcount", "entitycount", "entityfind", "dumpnodeindex", "dumpwayindex", "decompress", "nodeindex", "tagfilter", "wayindex", "rewritenodes", "relindex"}
		cmd := cmds[k.I%len(cmds)]
		if big {
			cmd = "rewritenodes"
		}
		in := "in.pbf"
		var a []string
		writes := false
		switch cmd {
		case "dumpnodeindex":
			in, a = "n.idx", []string{"-p", "-s"}
		case "dumpwayindex":
			in, a = "w.idx", []string{"-p", "-s"}
		case "entityfind":
			a = []string{"-e", "1", "-e", "2", "-w", k.workers()}
		case "blockcount", "entitycount":
			a = []string{"-w", k.workers()}
		default:
			writes = true
			o := out
			if abs {
				o = k.P(out)
			}
			a = []string{"-r", "0", "-o", o, "-w", k.workers()}
			if cmd == "rewritenodes" {
				a = append(a, "-x", "n.idx")
				if big {
					a = append(a, "-m", "1")
				}
			}
			if cmd == "relindex" {
				a = append(a, "-x", "w.idx", "-p", fmt.Sprint(1+k.Rng.IntN(6)))
			}
		}
		before := snap(k.Dir)
		x := k.Cmd(cmd, append([]string{"-i", in}, a...)...)
		if k.I%2 == 0 {
			x.Sup = &Supervise{}
		}
		r := k.Go(x)
		if !r.OK() {
			k.Violate("fails:"+cmd, fmt.Sprintf("%s failed: %s", k.Lines[len(k.Lines)-1], r.Brief()))
			return
		}
		allow := map[string]bool{}
		if writes {
			allow[clean] = true
		}
		if d := diffSnap(before, snap(k.Dir), allow); len(d) > 0 {
			k.Violate("touched:"+cmd, fmt.Sprintf("%s: %s", k.Lines[len(k.Lines)-1], strings.Join(d, "; ")))
			return
		}
		if writes {
			got := k.Read(clean)
			if got == nil {
				k.Violate("missing:"+cmd, k.Lines[len(k.Lines)-1]+" left no output")
				return
			}
			if existed { // the same run into a fresh name gives the bytes to expect
				y := k.Cmd(cmd, append([]string{"-i", in}, a...)...)
				for i := range y.Args {
					if y.Args[i] == "-o" {
						y.Args[i+1] = "fresh"
					}
				}
				r2 := k.Go(y)
				if d := DiffBytes(k.Read("fresh"), got); !r2.OK() || d != "" {
					k.Violate("not-replaced:"+cmd, fmt.Sprintf("%s over an existing file: %s (%s)", k.Lines[0], d, r2.Brief()))
					return
				}
				k.R.Count("existing_outputs_replaced", 1)
			}
		}
		if x.Sup != nil {
			full := k.P(clean)
			for _, ev := range x.Sup.Events {
				mod := false
				switch ev.Name {
				case "openat", "open":
					mod = ev.Flags&3 != 0 || ev.Flags&0x40 != 0 || ev.Flags&0x200 != 0
				case "creat", "truncate", "unlink", "unlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir", "link", "linkat", "symlink", "symlinkat", "fchmodat":
					mod = true
				}
				if !mod {
					continue
				}
				k.R.Count("modifying_calls_seen", 1)
				for _, p := range []string{ev.Path, ev.Path2} {
					if p == "" {
						continue
					}
					p = filepath.Clean(p)
					if p == "/dev/null" || p == "/dev/tty" || strings.HasPrefix(p, "/sys/") || strings.HasPrefix(p, "/proc/") {
						continue
					}
					if !writes || !strings.HasPrefix(p, full) {
						k.Violate("path:"+cmd, fmt.Sprintf("%s: %s on %s (flags %#x)", k.Lines[len(k.Lines)-1], ev.Name, p, ev.Flags))
						return
					}
				}
			}
			k.R.Count("system_calls_seen", int64(len(x.Sup.Events)))
			if len(x.Sup.Events) == 0 {
				k.Fail("supervision saw no system call")
			}
		}
		k.R.Eval(Hash(strings.Join(k.Lines, "\n"), k.I))
		k.R.Seen("commands", cmd)
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "command": k.Lines[0], "existing_output": existed, "files_watched": len(before)})
		}
	})
}

func p32(c *Ctx) {
	c.R.Rule = "every command started with missing, unknown, malformed, positional, inconsistent and help arguments (alone and combined with otherwise valid ones, in different positions) in a watched directory; exit status, message and the untouched directory are checked; an evaluation is one command line"
	type bad struct {
		why  string
		args []string
		help bool
	}
	c.Each("commands", len(commands), func(k *Case) {
		cmd := commands[k.I]
		o := DefaultGen()
		o.Nodes = 20
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		k.Write("n.idx", NodeIdxBytes(f.LocMap()))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		k.Write("out", []byte("earlier contents"))
		k.Write("prof", []byte("earlier profile"))
		valid := [][]string{{"-i", "in.pbf"}}
		ui := false
		switch cmd {
		case "dumpnodeindex":
			valid = [][]string{{"-i", "n.idx"}}
		case "dumpwayindex":
			valid = [][]string{{"-i", "w.idx"}}
		case "entityfind":
			valid = append(valid, []string{"-e", "5"})
		case "decompress", "nodeindex", "tagfilter", "wayindex":
			valid, ui = append(valid, []string{"-o", "out"}), true
		case "rewritenodes":
			valid, ui = append(valid, []string{"-o", "out"}, []string{"-x", "n.idx"}), true
		case "relindex":
			valid, ui = append(valid, []string{"-o", "out"}, []string{"-x", "w.idx"}), true
		}
		flat := func(skip int) []string {
			var a []string
			for i, v := range valid {
				if i != skip {
					a = append(a, v...)
				}
			}
			if ui {
				a = append(a, "-r", "0")
			}
			return a
		}
		var bads []bad
		add := func(why string, extra ...string) {
			bads = append(bads, bad{why: why, args: append(flat(-1), extra...)}, bad{why: why, args: append(append([]string{}, extra...), flat(-1)...)})
			if len(valid) > 1 { // in the middle
				a := append([]string{}, valid[0]...)
				a = append(a, extra...)
				for _, v := range valid[1:] {
					a = append(a, v...)
				}
				if ui {
					a = append(a, "-r", "0")
				}
				bads = append(bads, bad{why: why, args: a})
			}
		}
		for i := range valid {
			bads = append(bads, bad{why: "missing " + valid[i][0], args: flat(i)})
			a := flat(i)
			bads = append(bads, bad{why: "no value for " + valid[i][0], args: append(a, valid[i][0])})
		}
		bads = append(bads, bad{why: "nothing at all"})
		for _, u := range []string{"--nonsense", "-Z", "--input-fil", "--nonsense=5", "--output"} {
			add("unknown option", u)
		}
		bads = append(bads, bad{why: "positional", args: append(flat(-1), "extra")}, bad{why: "positional", args: append([]string{"extra"}, flat(-1)...)},
			bad{why: "positional after --", args: append(flat(-1), "--", "-r")}, bad{why: "positional", args: append(flat(-1), "")})
		for _, v := range []string{"x", "1.5", "", "99999999999999999999", "0x", "--"} {
			add("malformed max-threads", "--max-threads="+v)
			add("malformed rate", "--mem-profile=prof", "--mem-profile-rate="+v)
			if cmd != "dumpnodeindex" && cmd != "dumpwayindex" {
				add("malformed workers", "--workers="+v)
			}
		}
		for _, v := range []string{"0", "-1", "-100", "-9223372036854775808"} {
			add("impossible number of threads", "--max-threads="+v)
		}
		if cmd != "dumpnodeindex" && cmd != "dumpwayindex" {
			for _, v := range []string{"0", "-1", "-4", "-9223372036854775808"} {
				add("impossible number of workers", "--workers="+v)
			}
		}
		for _, v := range []string{"1", "0", "512", "-1"} {
			add("profiling rate without profile", "--mem-profile-rate="+v)
		}
		if ui {
			for _, v := range []string{"x", "10", "", "1h1", "5 seconds"} {
				add("malformed refresh", "--refresh="+v)
			}
			for _, v := range []string{"-1ns", "-100ms", "-1h"} {
				// without the display being switched off as well
				a := []string{"--refresh=" + v}
				for _, w := range valid {
					a = append(a, w...)
				}
				bads = append(bads, bad{why: "negative refresh", args: a}, bad{why: "negative refresh", args: append(flat(-1), "-r", v)})
			}
		}
		switch cmd {
		case "wayindex":
			for _, v := range []string{"x", "", "1e1", "2.0"} {
				add("malformed alignment", "--alignment="+v)
			}
			for _, v := range []string{"-1", "-3", "63", "64", "65", "1000", "9223372036854775807"} {
				add("impossible alignment", "--alignment="+v)
			}
		case "relindex":
			for _, v := range []string{"x", "", "2.0"} {
				add("malformed passes", "--passes="+v)
			}
			for _, v := range []string{"0", "-1", "-100"} {
				add("impossible pass count", "--passes="+v)
			}
		case "rewritenodes":
			for _, v := range []string{"x", "", "-1", "1.5", "1G"} {
				add("malformed memory", "--memory="+v)
			}
			for _, v := range []string{"x", "", "1..2"} {
				add("malformed timing", "--timing="+v)
			}
			add("impossible memory", "--memory=0")
			for _, v := range []string{"1", "0.999", "0", "-0", "-2", "nan", "-inf", "0.5"} {
				add("impossible timing", "--timing="+v)
			}
		case "entityfind":
			for _, v := range []string{"x", "", "-1", "1.5", "99999999999999999999"} {
				add("malformed id", "--entity-id="+v)
			}
		case "dumpnodeindex", "dumpwayindex":
			for _, v := range [][]string{{"--sub-index-index=0"}, {"--sub-index-count=2"}, {"--sub-index-index=2", "--sub-index-count=2"}, {"--sub-index-index=5", "--sub-index-count=2"},
				{"--sub-index-index=0", "--sub-index-count=0"}, {"--sub-index-index=x", "--sub-index-count=2"}, {"--sub-index-index=0", "--sub-index-count=x"}, {"--sub-index-index=1", "--sub-index-count=1"},
				{"--sub-index-index=-1", "--sub-index-count=1"}, {"--sub-index-index=-1", "--sub-index-count=3"}, {"--sub-index-index=-3", "--sub-index-count=-2"}, {"--sub-index-index=0", "--sub-index-count=-1"}} {
				add("sub-index selection", v...)
			}
			if cmd == "dumpnodeindex" {
				for _, v := range []string{"x", "", "1.0"} {
					add("malformed element", "--start-element="+v)
					add("malformed element", "--end-element="+v)
				}
			}
		}
		// several mistakes at once, profiling requested besides
		for i := 0; i < 12; i++ {
			b := bads[k.Rng.IntN(len(bads))]
			if b.why == "profiling rate without profile" { // would be made valid
				continue
			}
			bads = append(bads, bad{why: b.why + " with profiling", args: append([]string{"--cpu-profile=prof", "--mem-profile=prof2"}, b.args...)})
		}
		for _, h := range []string{"-h", "--help"} {
			bads = append(bads, bad{"help", []string{h}, true}, bad{"help", append(flat(-1), h), true}, bad{"help", append([]string{h}, flat(-1)...), true},
				bad{"help", append([]string{h, "--cpu-profile=prof"}, flat(-1)...), true})
		}
		before := snap(k.Dir)
		for _, b := range bads {
			k.Lines = nil
			r := k.Run(cmd, b.args...)
			line := fmt.Sprintf("%s %q", cmd, b.args)
			if b.help {
				if r.Exit != 0 || !bytes.Contains(r.Stdout, []byte("Usage")) || !bytes.Contains(r.Stdout, []byte("input-file")) {
					k.Violate("help:"+cmd, fmt.Sprintf("%s: %s; prints %q", line, r.Brief(), Trunc(string(r.Stdout), 200)))
					return
				}
				k.R.Count("help_requests", 1)
			} else {
				if r.Exit <= 0 {
					k.Violate("accepted:"+cmd+":"+b.why, fmt.Sprintf("%s (%s): %s", line, b.why, r.Brief()))
					return
				}
				if len(bytes.TrimSpace(r.Stderr)) == 0 {
					k.Violate("silent:"+cmd, fmt.Sprintf("%s (%s) fails without a message", line, b.why))
					return
				}
				k.R.Count("rejected", 1)
			}
			if d := diffSnap(before, snap(k.Dir), nil); len(d) > 0 {
				k.Violate("touched:"+cmd, fmt.Sprintf("%s (%s): %s", line, b.why, strings.Join(d, "; ")))
				return
			}
			k.R.Seen("mistakes", b.why)
			k.R.Eval(Hash(line))
		}
		if k.I < 3 {
			k.R.Sample(map[string]any{"command": cmd, "lines": len(bads), "example": bads[k.Rng.IntN(len(bads))].args})
		}
	})
}
