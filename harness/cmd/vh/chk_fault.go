package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	. "verif/lib"
)

func init() {
	register("P19", "fault_enumeration", p19)
	register("P29", "fault_enumeration", p29)
	register("P30", "exploration", p30)
}

// point is one supervised call on an output or intermediate file.
type point struct {
	Name, Path string
	K          int
}

func (p point) String() string {
	return fmt.Sprintf("%s #%d on %s", p.Name, p.K, filepath.Base(p.Path))
}

func (p point) at(ev *SysEvent) bool {
	return ev.Name == p.Name && ev.K == p.K && ev.Path == p.Path
}

// points runs a command undisturbed and lists its calls on out and out.*.
func (k *Case) points(cmd string, args ...string) (pts []point, full []byte) {
	x := k.Cmd(cmd, append([]string{"-r", "0"}, args...)...)
	x.Sup = &Supervise{Reads: true}
	if r := k.Go(x); !r.OK() {
		k.Violate("fails:"+cmd, fmt.Sprintf("%s failed: %s", k.Lines[len(k.Lines)-1], r.Brief()))
		k.Stop()
	}
	for _, ev := range x.Sup.Events {
		if strings.HasPrefix(ev.Path, k.P("out")) {
			pts = append(pts, point{ev.Name, ev.Path, ev.K})
		}
	}
	if len(pts) < 3 {
		k.Fail("%s made only %d calls on its outputs", cmd, len(pts))
	}
	return pts, k.Read("out")
}

func (k *Case) clearOut() {
	es, _ := os.ReadDir(k.Dir)
	for _, e := range es {
		if strings.HasPrefix(e.Name(), "out") {
			_ = os.Remove(k.P(e.Name()))
		}
	}
}

// pick gives all of n things, or m of them with the ends and the rest random.
func (k *Case) pick(n, m int) []int {
	var out []int
	if n <= m {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	set := map[int]bool{}
	for i := 0; i < m/4; i++ {
		set[i], set[n-1-i] = true, true
	}
	for len(set) < m {
		set[k.Rng.IntN(n)] = true
	}
	for i := range set {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

var errnos = map[string][]syscall.Errno{
	"write":           {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG},
	"pwrite64":        {syscall.ENOSPC, syscall.EIO},
	"writev":          {syscall.ENOSPC, syscall.EIO},
	"close":           {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	"lseek":           {syscall.EIO, syscall.EINVAL, syscall.ESPIPE},
	"read":            {syscall.EIO},
	"copy_file_range": {syscall.ENOSPC, syscall.EIO},
	"sendfile":        {syscall.EIO, syscall.ENOSPC},
	"openat":          {syscall.ENOSPC, syscall.EMFILE, syscall.EACCES, syscall.EROFS},
	"ftruncate":       {syscall.EIO},
	"fsync":           {syscall.EIO},
	"rename":          {syscall.EIO},
	"renameat":        {syscall.EIO},
	"renameat2":       {syscall.EIO},
}

// faultCase generates the inputs of one writing command.
func (k *Case) faultCase(cmd string, multi bool) (args []string, f *File) {
	o := k.scen()
	o.Nodes = []int{20, 60, 200}[k.Rng.IntN(3)]
	o.Ways = []int{8, 30, 80}[k.Rng.IntN(3)]
	o.Rels = []int{4, 12, 30}[k.Rng.IntN(3)]
	o.BlockMax = []int{10, 40, 100}[k.Rng.IntN(3)]
	o.MaxRefs = 12
	o.Blank = false
	if multi {
		o.IDStyle = IDSparse
	}
	f = Gen(k.Rng, o)
	k.Input("in.pbf", f)
	locs := f.LocMap()
	if multi {
		k.fillLocs(locs, f, 131072*(1+k.Rng.IntN(2))+1000)
	}
	k.Write("n.idx", NodeIdxBytes(locs))
	k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
	args = k.uiArgs(cmd)
	if multi {
		args = append(args, "-m", "1")
	}
	return
}

func p19(c *Ctx) {
	c.R.Rule = "every writing command run undisturbed under supervision to list its open, read, write, seek, close and copy calls on its output and intermediate files, then run again once per such call with that call failing (disk full, I/O error, quota and others), with file size limits at chosen offsets (short writes), with the input cut at every kind of offset inside blocks, with inputs missing, and the printing commands with too little room for what they print; exit status 0 is a violation unless the output is complete and the call had an alternative; an evaluation is one faulty run"
	c.Each("faults", c.N(60, 420), func(k *Case) {
		cmd := uiCmds[k.I%len(uiCmds)]
		multi := cmd == "rewritenodes" && (k.I/len(uiCmds))%2 == 0
		a, f := k.faultCase(cmd, multi)
		pts, full := k.points(cmd, a...)
		judge := func(r *Out, what string, strict bool) bool {
			got := k.Read("out")
			if r.Stuck || r.CPUOut {
				k.Violate("hang:"+cmd, fmt.Sprintf("%s with %s: %s", k.Lines[len(k.Lines)-1], what, r.Brief()))
				return false
			}
			if r.Exit == 0 {
				complete := bytes.Equal(got, full)
				if strict || !complete {
					k.files["complete"] = full
					k.Violate("status:"+cmd, fmt.Sprintf("%s with %s ends with status 0 (output %d of %d bytes, complete: %v)", k.Lines[len(k.Lines)-1], what, len(got), len(full), complete))
					return false
				}
				k.R.Count("faults_survived", 1)
			}
			k.R.Eval(Hash(k.I, what, k.Lines[0]))
			return true
		}
		for _, i := range k.pick(len(pts), c.N(30, 400)) {
			p := pts[i]
			es := errnos[p.Name]
			if es == nil {
				continue
			}
			k.clearOut()
			e := es[k.Rng.IntN(len(es))]
			args := append([]string{"-r", "0"}, a...)
			pty := i%9 == 4
			if pty {
				args[1] = "1h"
			}
			x := k.Cmd(cmd, args...)
			x.Pty = pty
			hit := false
			x.Sup = &Supervise{Reads: true, Handle: func(ev *SysEvent) Action {
				if !hit && p.at(ev) {
					hit = true
					return Action{Errno: int(e)}
				}
				return Action{}
			}}
			r := k.Go(x)
			if !hit {
				k.R.Count("points_not_reached", 1)
				continue
			}
			k.R.Count("faults_injected_"+p.Name, 1)
			k.R.Seen("fault_kinds", cmd+" "+p.Name+" "+e.Error())
			// a failing write or close is a failure of the run whatever it left
			strict := p.Name == "write" || p.Name == "close" || p.Name == "openat"
			if !judge(r, fmt.Sprintf("%v failing with %v", p, e), strict) {
				return
			}
		}
		var lims []int64
		for _, l := range []int64{-2, 1, 7, 8, 15, 16, 17, int64(len(full)) - 1, int64(len(full)) / 2} {
			if l == -2 || l > 0 && l < int64(len(full)) {
				lims = append(lims, l)
			}
		}
		for i := 0; i < c.N(5, 40) && len(full) > 1; i++ {
			lims = append(lims, 1+k.Rng.Int64N(int64(len(full))-1))
		}
		for _, l := range lims {
			if len(full) == 0 {
				break
			}
			k.clearOut()
			x := k.Cmd(cmd, append([]string{"-r", "0"}, a...)...)
			x.FSize = l
			r := k.Go(x)
			if !judge(r, fmt.Sprintf("a file size limit of %d bytes", max(l, 0)), true) {
				return
			}
			k.R.Count("size_limits", 1)
		}
		if k.I < 2 {
			k.R.Sample(map[string]any{"case": k.I, "command": k.Lines[0], "file": f.Desc, "calls_on_outputs": len(pts), "some": fmt.Sprint(pts[:min(len(pts), 6)])})
		}
	})
	c.Each("cut", c.N(70, 400), func(k *Case) {
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 30, 20, 10
		o.BlockMax = []int{5, 20, 100}[k.Rng.IntN(3)]
		o.MaxRefs = 12
		f := Gen(k.Rng, o)
		whole := f.Bytes()
		k.Write("n.idx", NodeIdxBytes(f.LocMap()))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		rbs, err := SplitFile(whole)
		if err != nil {
			k.Fail("own file: %v", err)
		}
		bound := map[int]bool{0: true, len(whole): true}
		var cand []int
		for _, b := range rbs {
			bound[b.Off] = true
			cand = append(cand, b.Off+1, b.Off+3, b.Off+4, b.Off+5, b.HeaderEnd-1, b.HeaderEnd, b.HeaderEnd+1, b.Off+b.Len-1)
		}
		for i := 0; i < 20; i++ {
			cand = append(cand, k.Rng.IntN(len(whole)))
		}
		for _, cmd := range runCmds {
			for i := 0; i < c.N(7, 30); i++ {
				cut := cand[k.Rng.IntN(len(cand))]
				if bound[cut] || cut > len(whole) {
					continue
				}
				k.clearOut()
				k.Write("in.pbf", whole[:cut])
				r := k.Run(cmd, k.plainArgs(cmd)...)
				if r.Exit == 0 || r.Stuck || r.CPUOut {
					k.Violate("cut:"+cmd, fmt.Sprintf("%s on an input of %d bytes cut at %d, inside a block: %s", k.Lines[len(k.Lines)-1], len(whole), cut, r.Brief()))
					return
				}
				k.R.Count("cut_inputs", 1)
				k.R.Eval(Hash(k.I, cmd, cut))
			}
		}
		// missing inputs
		if k.I%5 == 0 {
			k.Write("in.pbf", whole)
			for _, cmd := range commands {
				for _, gone := range []string{"in.pbf", "n.idx", "w.idx"} {
					a := k.plainArgs(cmd)
					used := false
					for j := range a {
						if a[j] == gone {
							a[j] = "missing"
							used = true
						}
					}
					if !used {
						continue
					}
					k.clearOut()
					r := k.Run(cmd, a...)
					if r.Exit == 0 || r.Stuck || r.CPUOut {
						k.Violate("missing:"+cmd, fmt.Sprintf("%s: %s", k.Lines[len(k.Lines)-1], r.Brief()))
						return
					}
					k.R.Count("missing_inputs", 1)
				}
			}
		}
	})
	p19Print(c)
}

// shown is what a printing command says, less the time it took and the order of lines.
func shown(b []byte) string {
	var ls []string
	for _, l := range strings.SplitAfter(string(b), "\n") {
		if !strings.HasPrefix(l, "Total run time: ") {
			ls = append(ls, l)
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "")
}

// p19Print has results printed to where there is no room for them.
func p19Print(c *Ctx) {
	c.Each("print", c.N(16, 80), func(k *Case) {
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 20+k.Rng.IntN(300), 1+k.Rng.IntN(60), 1+k.Rng.IntN(20)
		f := Gen(k.Rng, o)
		k.Write("in.pbf", f.Bytes())
		k.Write("n.idx", NodeIdxBytes(f.LocMap()))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		for _, cmd := range []string{"blockcount", "entitycount", "entityfind", "dumpnodeindex", "dumpwayindex"} {
			a := k.plainArgs(cmd)
			switch cmd {
			case "entityfind":
				if ns := f.Nodes(); len(ns) > 0 {
					a = append(a, "-e", fmt.Sprint(ns[k.Rng.IntN(len(ns))].ID))
				}
				if ws := f.Ways(); len(ws) > 0 {
					a = append(a, "-e", fmt.Sprint(ws[k.Rng.IntN(len(ws))].ID))
				}
			case "dumpnodeindex", "dumpwayindex":
				a = append(a, [][]string{{"-p"}, {"-s"}, {"-p", "-s"}}[k.Rng.IntN(3)]...)
			}
			run := func(to string, limit int64) *Out {
				x := k.Cmd(cmd, a...)
				x.Stdout, x.FSize = to, limit
				return k.Go(x)
			}
			path := filepath.Join(k.Dir, "printed")
			if r := run(path, -1); !r.OK() {
				k.Violate("failed:"+cmd, fmt.Sprintf("%s: %s", k.Lines[len(k.Lines)-1], r.Brief()))
				return
			}
			full, want := k.Read("printed"), shown(k.Read("printed"))
			if want == "" {
				continue
			}
			k.R.Count("printed_bytes", int64(len(full)))
			var lims []int64
			for i := 0; i < c.N(6, 20); i++ {
				l := []int64{-2, 1, int64(len(want)) - 1, 1 + k.Rng.Int64N(int64(len(want)))}[min(i, 3)]
				if l == -2 || l > 0 {
					lims = append(lims, l)
				}
			}
			for _, l := range lims {
				r := run(path, l)
				what := fmt.Sprintf("%s with room for %d of the %d bytes it prints", k.Lines[len(k.Lines)-1], max(l, 0), len(full))
				if r.Stuck || r.CPUOut || r.Exit == 0 && shown(k.Read("printed")) != want {
					k.Violate("print:"+cmd, what+": "+r.Brief())
					return
				}
				k.R.Count("prints_cut", 1)
				k.R.Eval(Hash(k.I, cmd, l))
			}
			if r := run("/dev/full", -1); r.Stuck || r.CPUOut || r.Exit == 0 {
				k.Violate("print:"+cmd, fmt.Sprintf("%s with its output on a full device: %s", k.Lines[len(k.Lines)-1], r.Brief()))
				return
			}
			k.R.Count("prints_on_full_device", 1)
		}
	})
}

// plainArgs is a command line for any command on the usual file names.
func (k *Case) plainArgs(cmd string) []string {
	switch cmd {
	case "dumpnodeindex":
		return []string{"-i", "n.idx"}
	case "dumpwayindex":
		return []string{"-i", "w.idx"}
	case "entityfind":
		return []string{"-i", "in.pbf", "-e", "1", "-w", k.workers()}
	case "blockcount", "entitycount":
		return []string{"-i", "in.pbf", "-w", k.workers()}
	}
	return append(k.uiArgs(cmd), "-r", "0")
}

func p29(c *Ctx) {
	c.R.Rule = "nodeindex and wayindex stopped at every call they make on their output and intermediate files: killed just before it, the call failing, cancelled by Ctrl-C, or stopped by a file size limit; whatever output file is left must be byte-identical to the complete index or be refused by every command that reads that kind of index; an evaluation is one interrupted build"
	c.shards(2, "cmds", "plain", nil, "unfinished", fmt.Sprint(c.N(400, 8000)))
	c.Each("builds", c.N(30, 260), func(k *Case) {
		cmd := []string{"nodeindex", "wayindex"}[k.I%2]
		o := k.scen()
		o.Nodes = []int{0, 1, 20, 60, 400}[k.Rng.IntN(5)]
		o.Ways = []int{0, 1, 8, 30, 150}[k.Rng.IntN(5)]
		o.Rels = 3
		o.BlockMax = []int{5, 40, 100}[k.Rng.IntN(3)]
		o.MaxRefs = 12
		if k.I%6 >= 4 { // more than one copy step
			o.Nodes, o.Ways, o.MaxRefs, o.BlockMax = 4000, 3000, 200, 4000
			if cmd == "nodeindex" {
				o.Nodes, o.Ways, o.BlockMax = 150000, 3, 8000
			}
		}
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		small := &File{Blocks: f.Blocks[:min(len(f.Blocks), 3)]}
		k.Input("small.pbf", small)
		a := k.uiArgs(cmd)
		pts, full := k.points(cmd, a...)
		judge := func(what string) bool {
			got, err := os.ReadFile(k.P("out"))
			k.R.Eval(Hash(k.I, what, k.Lines[0]))
			switch {
			case err != nil:
				k.R.Count("nothing_left", 1)
				return true
			case bytes.Equal(got, full):
				k.R.Count("complete_index_left", 1)
				return true
			}
			k.R.Seen("partial_states", fmt.Sprintf("%d/%d/%x", k.I, len(got), got[:min(16, len(got))]))
			k.R.Count("partial_index_left", 1)
			readers := [][]string{{"dumpnodeindex", "-i", "out"}, {"rewritenodes", "-r", "0", "-i", "small.pbf", "-o", "x.pbf", "-x", "out"}}
			if cmd == "wayindex" {
				readers = [][]string{{"dumpwayindex", "-i", "out"}, {"dumpwayindex", "-i", "out", "-s"}, {"relindex", "-r", "0", "-i", "small.pbf", "-o", "x.rel", "-x", "out"}}
			}
			for _, rd := range readers {
				r := k.Run(rd[0], rd[1:]...)
				if r.Exit == 0 || r.Stuck || r.CPUOut {
					k.files["complete"] = full
					k.Violate("accepted:"+cmd+":"+rd[0], fmt.Sprintf("%s, %s: the file left (%d bytes, complete index %d bytes) is accepted by %v: %s", k.Lines[0], what, len(got), len(full), rd, r.Brief()))
					return false
				}
				k.R.Count("refusals", 1)
			}
			return true
		}
		for _, i := range k.pick(len(pts), c.N(26, 200)) {
			p := pts[i]
			for how := 0; how < 3; how++ {
				k.clearOut()
				what := ""
				switch how {
				case 0:
					what = fmt.Sprintf("killed before %v", p)
				case 1:
					if errnos[p.Name] == nil {
						continue
					}
					what = fmt.Sprintf("%v failing", p)
				case 2:
					if k.Rng.IntN(3) > 0 && p.Name != "lseek" && p.Name != "close" {
						continue
					}
					what = fmt.Sprintf("cancelled at %v", p)
					_, _, pressed := k.cancelled(false, p.at, 60*time.Millisecond, cmd, a...)
					if pressed {
						k.R.Count("builds_cancelled", 1)
					}
				}
				if how < 2 {
					x := k.Cmd(cmd, append([]string{"-r", "0"}, a...)...)
					hit := false
					x.Sup = &Supervise{Reads: true, Handle: func(ev *SysEvent) Action {
						if hit || !p.at(ev) {
							return Action{}
						}
						hit = true
						if how == 0 {
							return Action{Kill: true}
						}
						return Action{Errno: int(errnos[p.Name][0])}
					}}
					k.Go(x)
					if hit {
						k.R.Count([]string{"builds_killed", "builds_failed"}[how], 1)
					}
				}
				if !judge(what) {
					return
				}
			}
		}
		for i := 0; i < c.N(8, 60) && len(full) > 1; i++ {
			l := []int64{-2, 1, 7, 8, 9, 15, 16, 17, 24, 32, int64(len(full)) - 1, int64(len(full)) - 8, 1 + k.Rng.Int64N(int64(len(full))-1)}[k.Rng.IntN(13)]
			if l != -2 && (l <= 0 || l >= int64(len(full))) {
				continue
			}
			k.clearOut()
			x := k.Cmd(cmd, append([]string{"-r", "0"}, a...)...)
			x.FSize = l
			k.Go(x)
			k.R.Count("builds_out_of_space", 1)
			if !judge(fmt.Sprintf("stopped by a file size limit of %d bytes", max(l, 0))) {
				return
			}
		}
		if k.I < 2 {
			k.R.Sample(map[string]any{"case": k.I, "command": k.Lines[0], "file": f.Desc, "calls_on_outputs": len(pts), "index_bytes": len(full)})
		}
	})
}

// ---- P30 ----

// bounds are the offsets between the fields of a message.
func fieldBounds(msg []byte) []int {
	out := []int{0}
	for i := 0; i < len(msg); {
		tag, n, err := Uvarint(msg[i:])
		if err != nil {
			return out
		}
		i += n
		if tag&7 == 2 {
			l, n, err := Uvarint(msg[i:])
			if err != nil {
				return out
			}
			i += n + int(l)
		} else {
			_, n, err := Uvarint(msg[i:])
			if err != nil {
				return out
			}
			i += n
		}
		out = append(out, i)
	}
	return out
}

// splice puts extra between two random fields of a message.
func splice(r *Rng, msg, extra []byte) []byte {
	bs := fieldBounds(msg)
	i := bs[r.IntN(len(bs))]
	out := append([]byte{}, msg[:i]...)
	out = append(out, extra...)
	return append(out, msg[i:]...)
}

// within applies f to the nth length-delimited field num of a message.
func within(msg []byte, num, nth int, f func([]byte) []byte) ([]byte, bool) {
	var out []byte
	fs, err := Fields(msg)
	if err != nil {
		return nil, false
	}
	done := false
	for _, x := range fs {
		if x.Wire == 0 {
			out = PutVarField(out, x.Num, x.Int)
			continue
		}
		d := x.Data
		if x.Num == num {
			if nth == 0 {
				d = f(d)
				done = true
			}
			nth--
		}
		out = PutField(out, x.Num, d)
	}
	return out, done
}

func countFields(msg []byte, num int) int {
	fs, _ := Fields(msg)
	n := 0
	for _, f := range fs {
		if f.Num == num && f.Wire == 2 {
			n++
		}
	}
	return n
}

// unknownField makes a field a message with the given known fields cannot
// have: an unused number, or a known number with another wire type. The first
// forty of them (by turn) go through the low numbers, where extensions of the
// format have put theirs, the others are drawn.
func unknownField(r *Rng, turn int, known map[int]int) ([]byte, string) {
	num, wire := 1+turn%20, []int{2, 0}[turn/20%2]
	isKnown := func() bool {
		w, ok := known[num]
		return ok && w == wire
	}
	for turn >= 40 || isKnown() {
		num = []int{1 + r.IntN(20), 1 + r.IntN(40), 1000 + r.IntN(60000), 1<<29 - 1 - r.IntN(3), 34, 41, 150}[r.IntN(7)]
		wire = []int{0, 2, 2, 0, 1, 5}[r.IntN(6)]
		if !isKnown() {
			break
		}
	}
	b := PutUvarint(nil, uint64(num)<<3|uint64(wire))
	switch wire {
	case 0:
		b = PutUvarint(b, Interesting(r)>>1)
	case 1:
		b = append(b, 1, 2, 3, 4, 5, 6, 7, 8)
	case 5:
		b = append(b, 1, 2, 3, 4)
	case 2:
		n := []int{0, 1, 5, 40}[r.IntN(4)]
		b = PutUvarint(b, uint64(n))
		for i := 0; i < n; i++ {
			b = append(b, byte(r.IntN(256)))
		}
	}
	return b, fmt.Sprintf("field %d with wire type %d", num, wire)
}

func set(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

func p30(c *Ctx) {
	c.R.Rule = "well-formed files with one unsupported thing added: a block of unknown type, a payload in another compression or none at all, non-dense nodes, an unrecognised field (unused number, or known number with another wire type) in a blob header, blob, block, string table, group, dense nodes, way or relation, at any place in the file; every command that decodes that part must end with a non-zero status; an evaluation is one such file given to one command"
	all := set(runCmds...)
	blob := set("entitycount", "entityfind", "decompress", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex")
	block := set("entitycount", "entityfind", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex")
	strs := set("entityfind", "tagfilter")
	dense := set("entitycount", "entityfind", "nodeindex", "tagfilter")
	ways := set("entitycount", "entityfind", "rewritenodes", "tagfilter", "wayindex")
	rels := set("entitycount", "entityfind", "relindex", "tagfilter")
	dknown := map[int]int{1: 2, 5: 2, 8: 2, 9: 2, 10: 2}
	wknown := map[int]int{1: 0, 2: 2, 3: 2, 4: 2, 8: 2}
	rknown := map[int]int{1: 0, 2: 2, 3: 2, 4: 2, 8: 2, 9: 2, 10: 2}
	type kind struct {
		name string
		who  map[string]bool
	}
	kinds := []kind{
		{"block type", all}, {"blob header field", all},
		{"blob field", blob}, {"other compression", blob}, {"no payload", blob},
		{"block field", block}, {"group field", block}, {"non-dense nodes", block},
		{"string table field", strs}, {"dense field", dense}, {"way field", ways}, {"relation field", rels},
		{"non-dense nodes", block}, {"other compression", blob}, {"block type", all},
	}
	c.Each("files", c.N(800, 4000), func(k *Case) {
		r := k.Rng
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 20+r.IntN(60), 10+r.IntN(40), 5+r.IntN(20)
		o.BlockMax = []int{2, 10, 100}[r.IntN(3)]
		o.MaxRefs = 8
		o.Blank = false
		f := Gen(r, o)
		k.Write("n.idx", NodeIdxBytes(f.LocMap()))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		var data []int
		for i, b := range f.Blocks {
			if b.Type == "OSMData" {
				data = append(data, i)
			}
		}
		kd := kinds[k.I%len(kinds)]
		turn := k.I / len(kinds)
		desc := ""
		ok := false
		bi := 0
		var bytesOf []byte
		for try := 0; try < 60 && !ok; try++ {
			bi = data[r.IntN(len(data))]
			if try == 0 {
				bi = data[len(data)-1]
			}
			b := f.Blocks[bi]
			pay := b.Payload()
			typ := b.Type
			blobB := func(p []byte) []byte { return BlobBytes(p, b.Enc) }
			frame := func(t string, bl []byte) []byte { return FrameBlob(t, bl, b.Enc.HdrSwap) }
			inGroup := func(num int, known map[int]int) {
				gn := countFields(pay, 2)
				if gn == 0 {
					return
				}
				var p2 []byte
				in := false
				p2, _ = within(pay, 2, r.IntN(gn), func(g []byte) []byte {
					n := countFields(g, num)
					if n == 0 {
						return g
					}
					g2, done := within(g, num, r.IntN(n), func(m []byte) []byte {
						x, d := unknownField(r, turn, known)
						desc = d
						return splice(r, m, x)
					})
					in = done
					return g2
				})
				if in {
					ok = true
					bytesOf = frame(typ, blobB(p2))
				}
			}
			switch kd.name {
			case "block type":
				t := []string{"OSMFoo", "", "osmdata", "OSMDat", "OSMData2", "OSMHeade", "OSMChange", "OSMDataOSMData", " OSMData", "OSMData\x00", "\xff\xfe"}[r.IntN(11)]
				desc = fmt.Sprintf("%q", t)
				if r.IntN(2) == 0 { // a whole extra block
					bytesOf = append(b.Bytes(), frame(t, blobB([]byte("x")))...)
				} else {
					bytesOf = frame(t, blobB(pay))
				}
				ok = true
			case "blob header field":
				x, d := unknownField(r, turn, map[int]int{1: 2, 3: 0})
				desc = d
				if r.IntN(3) == 0 {
					x, desc = PutField(nil, 2, []byte("index")), "indexdata"
				}
				bl := blobB(pay)
				h := PutField(nil, 1, []byte(typ))
				h = PutVarField(h, 3, uint64(len(bl)))
				h = splice(r, h, x)
				bytesOf = append([]byte{0, 0, byte(len(h) >> 8), byte(len(h))}, h...)
				bytesOf = append(bytesOf, bl...)
				ok = true
			case "blob field":
				x, d := unknownField(r, turn, map[int]int{1: 2, 2: 0, 3: 2})
				desc = d
				bytesOf = frame(typ, splice(r, blobB(pay), x))
				ok = true
			case "other compression":
				n := 4 + r.IntN(4) // lzma, bzip2, lz4, zstd
				desc = fmt.Sprintf("compression field %d", n)
				bl := PutVarField(nil, 2, uint64(len(pay)))
				bl = PutField(bl, n, pay)
				if r.IntN(2) == 0 {
					bl = PutField(nil, n, pay)
				}
				bytesOf = frame(typ, bl)
				ok = true
			case "no payload":
				desc = "a blob with nothing but its size"
				bytesOf = frame(typ, PutVarField(nil, 2, uint64(len(pay))))
				ok = true
			case "block field":
				x, d := unknownField(r, turn, map[int]int{1: 2, 2: 2, 17: 0, 18: 0, 19: 0, 20: 0})
				desc = d
				bytesOf = frame(typ, blobB(splice(r, pay, x)))
				ok = true
			case "group field", "non-dense nodes":
				gn := countFields(pay, 2)
				if gn == 0 {
					continue
				}
				x, d := unknownField(r, turn, map[int]int{1: 2, 2: 2, 3: 2, 4: 2, 5: 2})
				desc = d
				if kd.name == "non-dense nodes" {
					nd := PutVarField(nil, 1, Zig(7))
					nd = PutVarField(nd, 8, Zig(100))
					nd = PutVarField(nd, 9, Zig(-100))
					x = PutField(nil, 1, nd)
					desc = "a plain node"
					if r.IntN(6) == 0 {
						x = PutField(nil, 1, nil)
						desc = "an empty plain node"
					}
				}
				p2, done := within(pay, 2, r.IntN(gn), func(g []byte) []byte { return splice(r, g, x) })
				if r.IntN(4) == 0 { // or in a group of its own
					p2, done = splice(r, pay, PutField(nil, 2, x)), true
				}
				ok = done
				bytesOf = frame(typ, blobB(p2))
			case "string table field":
				p2, done := within(pay, 1, 0, func(s []byte) []byte {
					x, d := unknownField(r, turn, map[int]int{1: 2})
					desc = d
					return splice(r, s, x)
				})
				ok = done
				bytesOf = frame(typ, blobB(p2))
			case "dense field":
				inGroup(2, dknown)
			case "way field":
				inGroup(3, wknown)
			case "relation field":
				inGroup(4, rknown)
			}
		}
		if !ok {
			k.R.Count("nothing_to_change", 1)
			return
		}
		var out []byte
		for i, b := range f.Blocks {
			if i == bi {
				out = append(out, bytesOf...)
			} else {
				out = append(out, b.Bytes()...)
			}
		}
		k.Write("in.pbf", out)
		for _, cmd := range runCmds {
			if !kd.who[cmd] {
				continue
			}
			k.clearOut()
			o := k.Run(cmd, k.plainArgs(cmd)...)
			if o.Exit == 0 || o.Stuck || o.CPUOut {
				k.Violate("accepted:"+cmd+":"+kd.name, fmt.Sprintf("%s accepts a file with an unsupported %s (%s, in block %d of %d): %s", k.Lines[len(k.Lines)-1], kd.name, desc, bi, len(f.Blocks), o.Brief()))
				return
			}
			k.R.Count("refusals", 1)
			k.R.Seen("refused", cmd+" "+kd.name)
			k.R.Eval(Hash(out, cmd))
		}
		if k.I < 4 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "unsupported": kd.name + ": " + desc, "block": bi})
		}
	})
}
