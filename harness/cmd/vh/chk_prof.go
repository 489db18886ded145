package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	. "verif/lib"
)

func init() {
	register("P34", "exploration", p34)
}

// profile is what a profile file in pprof's format says.
type profile struct {
	Types    []string // "kind/unit" of each value of a sample
	Samples  int
	Sums     []int64
	Period   int64
	PeriodOf string
	At       time.Time
	For      time.Duration
	Funcs    map[string]bool
}

// readProfile decodes a profile and checks that it is complete in itself.
func readProfile(b []byte) (*profile, error) {
	zr, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	raw, err := io.ReadAll(zr) // fails on whatever follows the stream, too
	if err != nil {
		return nil, err
	}
	fs, err := Fields(raw)
	if err != nil {
		return nil, err
	}
	var strs []string
	for _, f := range fs {
		if f.Num == 6 {
			strs = append(strs, string(f.Data))
		}
	}
	if len(strs) == 0 || strs[0] != "" {
		return nil, errors.New("no string table")
	}
	str := func(i uint64) string {
		if i < uint64(len(strs)) {
			return strs[i]
		}
		return "?"
	}
	pair := func(b []byte) string {
		g, _ := Fields(b)
		var k, u uint64
		for _, f := range g {
			switch f.Num {
			case 1:
				k = f.Int
			case 2:
				u = f.Int
			}
		}
		return str(k) + "/" + str(u)
	}
	p := &profile{Funcs: map[string]bool{}}
	locs := map[uint64]bool{}
	for _, f := range fs {
		switch f.Num {
		case 1:
			p.Types = append(p.Types, pair(f.Data))
		case 4:
			g, err := Fields(f.Data)
			if err != nil {
				return nil, err
			}
			for _, x := range g {
				if x.Num == 1 {
					locs[x.Int] = true
				}
			}
		case 5:
			g, err := Fields(f.Data)
			if err != nil {
				return nil, err
			}
			for _, x := range g {
				if x.Num == 2 {
					p.Funcs[str(x.Int)] = true
				}
			}
		case 9:
			p.At = time.Unix(0, int64(f.Int))
		case 10:
			p.For = time.Duration(f.Int)
		case 11:
			p.PeriodOf = pair(f.Data)
		case 12:
			p.Period = int64(f.Int)
		}
	}
	p.Sums = make([]int64, len(p.Types))
	for _, f := range fs {
		if f.Num != 2 {
			continue
		}
		g, err := Fields(f.Data)
		if err != nil {
			return nil, err
		}
		p.Samples++
		at := 0
		add := func(v uint64) {
			if at < len(p.Sums) {
				p.Sums[at] += int64(v)
			}
			at++
		}
		for _, x := range g {
			vals := []uint64{x.Int}
			if x.Wire == 2 {
				vals = vals[:0]
				for b := x.Data; len(b) > 0 && x.Num <= 2; {
					v, n, err := Uvarint(b)
					if err != nil {
						return nil, err
					}
					vals, b = append(vals, v), b[n:]
				}
			}
			for _, v := range vals {
				switch {
				case x.Num == 1 && !locs[v]:
					return nil, fmt.Errorf("a sample at location %d, which is not described", v)
				case x.Num == 2:
					add(v)
				}
			}
		}
		if at != len(p.Types) {
			return nil, fmt.Errorf("a sample of %d values for %d types", at, len(p.Types))
		}
	}
	return p, nil
}

var rxSched = regexp.MustCompile(`(?m)^SCHED \d+ms: gomaxprocs=(\d+) `)

func p34(c *Ctx) {
	c.R.Rule = "every command run with and without profiling and thread options, over existing files and fresh names, with and without a display; the profiles decoded and compared with what was asked for and with the time of the run, the number of processors read from the runtime's own scheduler trace at the end of the work, output, summary and status compared with the plain run; an evaluation is one run with options"
	c.Each("options", c.N(110, 1500), func(k *Case) {
		cmd := commands[k.I%len(commands)]
		o := DefaultGen()
		o.Nodes, o.Ways, o.Rels = 200+k.Rng.IntN(1500), 100+k.Rng.IntN(300), 40
		busy := k.I/len(commands) == 1 // enough work to be sampled
		if busy {
			o.Nodes, o.Ways, o.Rels, o.BlockMax, o.NodeTags, o.IDStyle, o.Zlib = 250000, 40000, 8000, 8000, 90, IDSparse, 6
		}
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		k.Write("n.idx", NodeIdxBytes(f.LocMap()))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		var a []string
		writes := false
		switch cmd {
		case "dumpnodeindex":
			a = []string{"-i", "n.idx", "-p", "-s"}
		case "dumpwayindex":
			a = []string{"-i", "w.idx", "-p", "-s"}
		case "entityfind":
			a = []string{"-i", "in.pbf", "-e", "1", "-e", "2", "-w", "1"}
		case "blockcount", "entitycount":
			a = []string{"-i", "in.pbf", "-w", k.workers()}
		default:
			writes = true
			a = append(k.uiArgs(cmd), "-r", "0")
		}
		plain := k.Run(cmd, a...)
		if !plain.OK() {
			k.Violate("fails:"+cmd, fmt.Sprintf("%s failed: %s", k.Lines[0], plain.Brief()))
			return
		}
		want := k.Read("out")
		_ = os.Remove(k.P("out"))

		var groups [][]string
		allow := map[string]bool{}
		if writes {
			allow["out"] = true
		}
		name := func(base string) string {
			n := base + []string{"", ".pprof", " with space", ".pbf"}[k.Rng.IntN(4)]
			if k.Rng.IntN(3) == 0 { // longer than what will be written
				k.Write(n, bytes.Repeat([]byte("old profile "), 1<<16))
			}
			allow[n] = true
			if k.Rng.IntN(4) == 0 {
				return k.P(n)
			}
			return n
		}
		cpu, mem, rate, procs := "", "", 0, 0
		if busy || k.Rng.IntN(3) > 0 {
			cpu = name("cpu")
			groups = append(groups, []string{"--cpu-profile=" + cpu})
		}
		if busy || k.Rng.IntN(3) > 0 {
			mem = name("mem")
			groups = append(groups, []string{"--mem-profile", mem})
			if k.Rng.IntN(2) == 0 {
				rate = []int{1, 2, 64, 512, 4096, 1 << 20}[k.Rng.IntN(6)]
				groups = append(groups, []string{"--mem-profile-rate=" + strconv.Itoa(rate)})
			}
		}
		if k.Rng.IntN(2) == 0 {
			procs = []int{1, 2, 3, 5, 7, 11, 40}[k.Rng.IntN(7)]
			groups = append(groups, []string{"--max-threads", strconv.Itoa(procs)})
		}
		k.Rng.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
		var opts []string
		for _, g := range groups {
			opts = append(opts, g...)
		}
		before := snap(k.Dir)
		line := append([]string{}, opts...)
		if k.Rng.IntN(2) == 0 {
			line = append(line, a...)
		} else {
			line = append(append([]string{}, a...), opts...)
		}
		x := k.Cmd(cmd, line...)
		trace := k.Rng.IntN(2) == 0 || procs > 0
		if trace {
			x.Env = append(x.Env, "GODEBUG=schedtrace=1")
			said := false
			x.Sup = &Supervise{Handle: func(ev *SysEvent) Action {
				if ev.Name == "write" && ev.Fd == 1 && !said {
					said = true
					return Action{Delay: 60 * time.Millisecond} // time for the scheduler to report
				}
				return Action{}
			}}
		}
		if !trace && writes && k.Rng.IntN(2) == 0 {
			for i := range x.Args {
				if x.Args[i] == "-r" {
					x.Args[i+1] = "2ms"
				}
			}
			x.Pty = true
		}
		t0 := time.Now()
		r := k.Go(x)
		took := time.Since(t0)
		where := fmt.Sprintf("%s %q", cmd, x.Args)
		bad := func(key, format string, v ...any) {
			k.Violate(key+":"+cmd, where+": "+fmt.Sprintf(format, v...))
		}
		if !r.OK() {
			bad("fails", "%s (the same without %v succeeds)", r.Brief(), opts)
			return
		}
		if d := diffSnap(before, snap(k.Dir), allow); len(d) > 0 {
			bad("touched", "%s", strings.Join(d, "; "))
			return
		}
		if got := k.Read("out"); !bytes.Equal(got, want) {
			k.files["without-options"] = want
			bad("output", "the output differs from that of the run without the options: %s", DiffBytes(want, got))
			return
		}
		if p, q := sayings(plain.Stdout), sayings(r.Stdout); p != q {
			bad("says", "prints %q, without the options %q", Trunc(q, 300), Trunc(p, 300))
			return
		}
		if e := rxSchedLines.ReplaceAll(r.Stderr, nil); len(bytes.TrimSpace(e)) > 0 {
			bad("stderr", "writes to stderr: %q", Trunc(string(e), 300))
			return
		}
		if trace {
			ms := rxSched.FindAllSubmatch(r.Stderr, -1)
			if len(ms) < 5 {
				k.R.Count("scheduler_silent", 1)
			} else {
				last, _ := strconv.Atoi(string(ms[len(ms)-1][1]))
				first, _ := strconv.Atoi(string(ms[0][1]))
				k.R.Count("scheduler_reports", int64(len(ms)))
				switch {
				case procs > 0 && last != procs:
					bad("threads", "works with %d threads, %d were asked for", last, procs)
					return
				case procs == 0 && last != first:
					bad("threads", "changes from %d to %d threads", first, last)
					return
				case procs > 0:
					k.R.Count("thread_limits_seen", 1)
				}
			}
		}
		get := func(n string) *profile {
			p := n
			if !filepath.IsAbs(p) {
				p = k.P(n)
			}
			b, err := os.ReadFile(p)
			if err != nil {
				bad("missing", "no profile %s: %v", n, err)
				k.Stop()
			}
			pr, err := readProfile(b)
			if err != nil {
				bad("broken", "the profile %s of %d bytes: %v", n, len(b), err)
				k.Stop()
			}
			if pr.At.Before(t0.Add(-5*time.Second)) || pr.At.After(t0.Add(took+5*time.Second)) {
				bad("time", "the profile %s is dated %v, the run began %v and took %v", n, pr.At, t0, took)
				k.Stop()
			}
			return pr
		}
		own := func(p *profile, but ...string) bool {
		funcs:
			for f := range p.Funcs {
				if strings.Contains(f, "squizzling/osmindex/") {
					for _, b := range but {
						if strings.Contains(f, b) {
							continue funcs
						}
					}
					return true
				}
			}
			return false
		}
		if cpu != "" {
			p := get(cpu)
			if t := strings.Join(p.Types, " "); t != "samples/count cpu/nanoseconds" || p.PeriodOf != "cpu/nanoseconds" {
				bad("kind", "the profile %s is one of %q", cpu, t)
				return
			}
			if p.For <= 0 || p.For > took+time.Second {
				bad("span", "the profile %s covers %v of a run of %v", cpu, p.For, took)
				return
			}
			// a run that worked for a third of a second is sampled 33 times on average
			// (small runs on a loaded machine may well spend that in the runtime alone)
			if busy && r.CPUTime > 400*time.Millisecond && p.Sums[0] == 0 {
				bad("empty", "the profile %s has no sample of a run that used %v", cpu, r.CPUTime)
				return
			}
			if p.Sums[0] > 0 {
				k.R.Count("cpu_profiles_with_samples", 1)
				k.R.Count("cpu_samples", p.Sums[0])
			}
			if busy && p.Sums[0] >= 30 && !own(p) {
				bad("foreign", "the profile %s has %d samples, none in the command", cpu, p.Sums[0])
				return
			}
			k.R.Count("cpu_profiles", 1)
		}
		if mem != "" {
			p := get(mem)
			if t := strings.Join(p.Types, " "); t != "alloc_objects/count alloc_space/bytes inuse_objects/count inuse_space/bytes" || p.PeriodOf != "space/bytes" {
				bad("kind", "the profile %s is one of %q", mem, t)
				return
			}
			if rate == 0 && p.Period != 512<<10 || rate != 0 && p.Period != int64(rate) {
				bad("rate", "the profile %s was taken at a rate of %d, %d was asked for", mem, p.Period, rate)
				return
			}
			if rate > 0 && rate <= 64 && (p.Sums[0] == 0 || !own(p)) {
				bad("empty", "the profile %s, taken at a rate of %d, has %d samples, in the command: %v", mem, rate, p.Samples, own(p))
				return
			}
			// what is run before the work begins does not show that the work is described
			if rate > 0 && rate <= 64 && !own(p, "/internal/system.", "/internal/args.", "/internal/ui.", "/internal/iio.") {
				bad("early", "the profile %s, taken at a rate of %d, has %d samples, none in the work of the command", mem, rate, p.Samples)
				return
			}
			k.R.Count("heap_profiles", 1)
			k.R.Count("heap_samples", int64(p.Samples))
		}
		k.R.Seen("options", fmt.Sprintf("%s cpu=%v mem=%v rate=%v threads=%v", cmd, cpu != "", mem != "", rate > 0, procs > 0))
		k.R.Eval(Hash(where, k.I))
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "command": where})
		}
	})
}

var (
	rxSchedLines = regexp.MustCompile(`(?m)^SCHED .*\n?`)
	rxTaking     = regexp.MustCompile(`(?m)^(.*run time: ).*$`)
)

// sayings is what a command printed, without its running time, in no order.
func sayings(b []byte) string {
	l := strings.Split(strings.ReplaceAll(string(rxTaking.ReplaceAll(b, []byte("$1"))), "\r", ""), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}
