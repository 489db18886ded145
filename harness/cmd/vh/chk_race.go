package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	. "verif/lib"
)

func init() {
	register("P16", "exploration", p16)
	register("P17", "exploration", p17)
}

const modPath = "github.com/squizzling/osmindex/"

// raceReport is one report of the race detector.
type raceReport struct {
	text   string
	frames []string // the innermost frame of each access that is not runtime or library code
	key    string
}

var frameRe = regexp.MustCompile(`^  (\S.*?)\(.*\)$`)

// raceReports parses detector logs and keeps the reports in which an access
// is made by the project's own code or by a library on its behalf.
func raceReports(text string) []raceReport {
	var out []raceReport
	for _, part := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(part, "=================="); i >= 0 {
			part = part[:i]
		}
		r := raceReport{text: part}
		for _, sec := range strings.Split(part, "\n\n") {
			head := strings.TrimSpace(sec)
			if !(strings.HasPrefix(head, "Write at") || strings.HasPrefix(head, "Read at") || strings.HasPrefix(head, "Previous ") ||
				strings.HasPrefix(head, "Atomic") || strings.HasPrefix(head, "Concurrent")) {
				continue
			}
			for _, l := range strings.Split(sec, "\n") {
				m := frameRe.FindStringSubmatch(l)
				if m == nil {
					continue
				}
				fn := m[1]
				if strings.Contains(fn, modPath) && !strings.Contains(fn, "/zzverif/") || strings.HasPrefix(fn, "main.") {
					r.frames = append(r.frames, fn)
					break
				}
			}
		}
		if len(r.frames) > 0 {
			sort.Strings(r.frames)
			r.key = strings.Join(r.frames, " / ")
			out = append(out, r)
		}
	}
	return out
}

// readLogs gathers and removes the detector's log files.
func readLogs(prefix string) string {
	ms, _ := filepath.Glob(prefix + ".*")
	s := ""
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		s += string(b)
		_ = os.Remove(m)
	}
	return s
}

func p16(c *Ctx) {
	c.R.Rule = "race-detector builds of every command run on generated files at several worker counts, with the display refreshing every millisecond on a terminal, cancelled midway, and of drivers that use the engine, the progress widgets, worker tracking and the buffer pool from concurrent goroutines; every detector report with an access by the project's code is a violation; an evaluation is one command run, or one round of a driver"
	c.CLI("race")
	var mu sync.Mutex
	seen := map[string]bool{}
	report := func(text, where string, files func() map[string][]byte) {
		for _, r := range raceReports(text) {
			mu.Lock()
			dup := seen[r.key]
			seen[r.key] = true
			mu.Unlock()
			if dup {
				continue
			}
			fs := map[string][]byte{}
			if files != nil {
				fs = files()
			}
			fs["report.txt"] = []byte(r.text)
			c.R.Violate("race:"+r.key, fmt.Sprintf("data race in %s: %s", where, Trunc(r.text, 1000)), map[string]string{"where": where, "frames": r.key}, fs)
		}
	}
	// drivers
	type dr struct {
		name string
		args []string
	}
	var wg sync.WaitGroup
	for i, x := range []dr{{"pipeline", []string{"order", fmt.Sprint(c.N(120, 2500))}}, {"pipeline", []string{"cancel", fmt.Sprint(c.N(120, 2500))}},
		{"pipeline", []string{"progress", fmt.Sprint(c.N(60, 1200))}}, {"tracker", nil}, {"progress", []string{"small"}}, {"pool", []string{"small"}}} {
		c.Driver(x.name, "race")
		wg.Add(1)
		go func(i int, x dr) {
			defer wg.Done()
			defer c.catch()
			log := filepath.Join(c.Scratch, fmt.Sprintf("race-drv-%d", i))
			before := c.R.NViol()
			c.RunDriver(x.name, "race", []string{"GORACE=halt_on_error=0 exitcode=0 log_path=" + log}, x.args...)
			t := readLogs(log)
			if c.R.NViol() > before && !strings.Contains(t, "DATA RACE") {
				return
			}
			report(t, fmt.Sprintf("driver %s %v", x.name, x.args), nil)
			c.R.Count("driver_runs_watched", 1)
		}(i, x)
	}
	wg.Wait()
	c.Each("commands", c.N(32, 500), func(k *Case) {
		k.Var = "race"
		cmd := append(append([]string{}, runCmds...), uiCmds...)[k.I%(len(runCmds)+len(uiCmds))]
		ui := false
		for _, u := range uiCmds {
			ui = ui || u == cmd
		}
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 400, 200, 60
		o.BlockMax = []int{1, 2, 5, 20}[k.Rng.IntN(4)]
		o.MaxRefs = 12
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		k.Write("n.idx", NodeIdxBytes(f.LocMap()))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		for v := 0; v < c.N(4, 8); v++ {
			k.clearOut()
			w := []string{"2", "3", "8", "16"}[(v+k.I)%4]
			a := []string{"-i", "in.pbf", "-w", w}
			switch cmd {
			case "entityfind":
				a = append(a, "-e", "1", "-e", "2", "-e", "3")
			case "blockcount", "entitycount":
			default:
				a = append(k.uiArgs(cmd), "-w", w)
			}
			if cmd == "rewritenodes" && v == 1 {
				a = append(a, "-t", "1.5")
			}
			log := k.P("racelog")
			how := "no display"
			var r *Out
			env := []string{"GORACE=halt_on_error=0 exitcode=0 log_path=" + log}
			switch {
			case ui && v%4 == 1:
				how = "display every millisecond"
				x := k.Cmd(cmd, append(a, "-r", "1ms")...)
				x.Pty, x.Env = true, env
				r = k.Go(x)
			case ui && v%4 == 3:
				how = "display, cancelled"
				x := k.Cmd(cmd, append(a, "-r", "1ms")...)
				x.Pty, x.Env = true, env
				wait := time.Duration(20+k.Rng.IntN(120)) * time.Millisecond
				x.OnPty = func(send func([]byte), done <-chan struct{}) {
					select {
					case <-time.After(wait):
						send([]byte{4}) // list the goroutines, then cancel
						send([]byte{3})
					case <-done:
					}
				}
				r = k.Go(x)
			default:
				if ui {
					a = append(a, "-r", "0")
				}
				x := k.Cmd(cmd, a...)
				x.Env = env
				r = k.Go(x)
			}
			t := readLogs(log)
			report(t+string(r.Stderr), fmt.Sprintf("%s (%s)", k.Lines[len(k.Lines)-1], how), k.dirFiles)
			if r.Exit != 0 && how == "no display" {
				k.Violate("fails:"+cmd, fmt.Sprintf("%s failed: %s", k.Lines[len(k.Lines)-1], r.Brief()))
				return
			}
			k.R.Seen("runs", cmd+", "+how)
			k.R.Count("other_reports", int64(strings.Count(t, "WARNING: DATA RACE")-len(raceReports(t))))
			k.R.Eval(Hash(k.I, v))
		}
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "commands": k.Lines})
		}
	})
}

// poolLog judges the recorded events of the buffer pool: what is lent has the
// requested length and is disjoint from everything lent and not returned;
// what is returned was lent.
func poolLog(b []byte) (gets, puts int, problem string) {
	type iv struct{ lo, hi uint64 }
	var held []iv // sorted by lo
	find := func(lo uint64) int { return sort.Search(len(held), func(i int) bool { return held[i].hi > lo }) }
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var kind string
		var seq, p, ln, cp, req uint64
		if n, _ := fmt.Sscanf(string(l), "%s %d 0x%x %d %d %d", &kind, &seq, &p, &ln, &cp, &req); n != 6 {
			return gets, puts, fmt.Sprintf("unreadable log line %q", l)
		}
		i := find(p)
		switch kind {
		case "get":
			gets++
			if ln != req {
				return gets, puts, fmt.Sprintf("event %d: %d bytes lent, %d requested", seq, ln, req)
			}
			if cp == 0 {
				continue
			}
			if i < len(held) && held[i].lo < p+cp {
				return gets, puts, fmt.Sprintf("event %d: memory %#x+%d lent while %#x+%d is still held", seq, p, cp, held[i].lo, held[i].hi-held[i].lo)
			}
			held = append(held, iv{})
			copy(held[i+1:], held[i:])
			held[i] = iv{p, p + cp}
		case "put":
			puts++
			if cp == 0 {
				continue
			}
			if i >= len(held) || held[i].lo > p {
				return gets, puts, fmt.Sprintf("event %d: memory %#x+%d returned while it is not on loan (returned twice, or never borrowed)", seq, p, cp)
			}
			held = append(held[:i], held[i+1:]...)
		}
	}
	return
}

func p17(c *Ctx) {
	c.R.Rule = "goroutines borrow, fill with a signature, hold, check and return buffers of the real pool, also offering memory that is not the pool's, and decode blobs while earlier payloads are held; every command run with the pool's observation hook, which overwrites returned and newly lent buffers and logs each loan, the log judged for exact length, disjoint loans and returns of what was lent, and the outputs compared with those of the unobserved build; an evaluation is one round or one command run"
	c.shards(3, "pool", "plain", nil)
	c.shards(1, "pool", "race", noRaceExit, "small")
	c.shards(2, "pool", "jitter", nil, "small", "jitter")
	log := filepath.Join(c.Scratch, "pool.log")
	c.RunDriver("pool", "verif", []string{"VERIF_POOL_LOG=" + log}, "small", "observed")
	lb, _ := os.ReadFile(log)
	g, p, bad := poolLog(lb)
	_ = os.Remove(log)
	if bad != "" {
		c.R.Violate("pool-log:driver", "buffer pool driven directly: "+bad, nil, map[string][]byte{"pool.log": lb})
	}
	if g == 0 {
		c.Fail("the observed pool logged nothing")
	}
	c.R.Count("loans_logged", int64(g))
	c.R.Count("returns_logged", int64(p))
	c.CLI("verif")
	c.Each("commands", c.N(40, 700), func(k *Case) {
		cmd := runCmds[k.I%len(runCmds)]
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 300, 150, 50
		o.BlockMax = []int{1, 3, 10, 50}[k.Rng.IntN(4)]
		o.MaxRefs = 20
		if k.Rng.IntN(3) == 0 {
			o.Skew = 1 << (15 + k.Rng.IntN(8)) // a block larger than the pool's default size
		}
		f := Gen(k.Rng, o)
		for _, b := range f.Blocks { // mostly compressed, so that buffers are borrowed
			if k.Rng.IntN(4) > 0 {
				b.Enc.Zlib = 1
			}
		}
		if k.I%5 == 2 { // and sometimes none at all, with memory that is not the pool's
			for _, b := range f.Blocks {
				b.Enc.Zlib = k.Rng.IntN(2) * k.Rng.IntN(2)
			}
		}
		k.Input("in.pbf", f)
		k.Write("n.idx", NodeIdxBytes(k.subsetLocs(f, 80)))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		a := k.plainArgs(cmd)
		if cmd == "entityfind" {
			a = []string{"-i", "in.pbf", "-w", "8"}
			for i, n := range f.Nodes() {
				if i%7 == 0 {
					a = append(a, "-e", fmt.Sprint(n.ID))
				}
			}
			for i, n := range f.Rels() {
				if i%3 == 0 {
					a = append(a, "-e", fmt.Sprint(n.ID))
				}
			}
		}
		base := k.OK(cmd, a...)
		want := k.Read("out")
		for v := 0; v < 3; v++ {
			k.clearOut()
			k.Var = "verif"
			x := k.Cmd(cmd, append(append([]string{}, a...), "-w", []string{"1", "4", "16"}[v])...)
			k.Var = "plain"
			x.Env = []string{"VERIF_POOL_LOG=" + k.P("pool.log")}
			if v == 1 {
				x.Env = append(x.Env, "GOGC=10")
			}
			r := k.Go(x)
			lb := k.Read("pool.log")
			_ = os.Remove(k.P("pool.log"))
			g, p, bad := poolLog(lb)
			if bad != "" {
				k.files["pool.log"] = lb
				k.Violate("pool-log:"+cmd, fmt.Sprintf("%s: %s", k.Lines[len(k.Lines)-1], bad))
				return
			}
			k.R.Count("loans_logged", int64(g))
			k.R.Count("returns_logged", int64(p))
			why := ""
			switch {
			case !r.OK():
				why = "fails: " + r.Brief()
			case want != nil || k.Read("out") != nil:
				why = DiffBytes(want, k.Read("out"))
			default:
				why = DiffBytes(printed(base.Stdout), printed(r.Stdout))
			}
			if why != "" {
				k.files["expected"] = want
				k.Violate("after-return:"+cmd, fmt.Sprintf("%s, with returned buffers overwritten, differs from the plain run: %s", k.Lines[len(k.Lines)-1], why))
				return
			}
			k.R.Seen("commands", cmd)
			k.R.Eval(Hash(k.I, v, want, lb))
		}
		if k.I < 3 {
			k.R.Sample(map[string]any{"case": k.I, "file": f.Desc, "command": k.Lines[len(k.Lines)-1]})
		}
	})
}

var timeRe = regexp.MustCompile(`(?m)^.*(time|took|elapsed).*$`)

// printed makes printed output comparable: order between workers is free,
// and times differ.
func printed(b []byte) []byte {
	b = timeRe.ReplaceAll(b, nil)
	ls := strings.Split(string(b), "\n")
	sort.Strings(ls)
	return []byte(strings.Join(ls, "\n"))
}
