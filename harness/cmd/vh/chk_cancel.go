package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	. "verif/lib"
)

func init() {
	register("P18", "exploration", p18)
	register("P28", "exploration", p28)
}

// cancelled runs a command on a terminal and presses Ctrl-C at the first
// supervised call for which at says so; that call is held back for a while so
// that the cancellation overtakes it.
func (k *Case) cancelled(maps bool, at func(ev *SysEvent) bool, hold time.Duration, cmd string, args ...string) (*Out, []SysEvent, bool) {
	// mostly without display updates, so that a hung run is seen to be idle
	x := k.Cmd(cmd, append([]string{"-r", []string{"3ms", "1h", "1h"}[k.Rng.IntN(3)]}, args...)...)
	x.Pty = true
	key := make(chan struct{}, 1)
	pressed := false
	x.Sup = &Supervise{Maps: maps, Handle: func(ev *SysEvent) Action {
		if pressed || !at(ev) {
			return Action{}
		}
		pressed = true
		key <- struct{}{}
		return Action{Delay: hold}
	}}
	x.OnPty = func(send func([]byte), done <-chan struct{}) {
		select {
		case <-key:
			send([]byte{3})
		case <-done:
		}
	}
	o := k.Go(x)
	if finiHang(o) {
		// the key was read late, during the shutdown of the display: known to
		// P33, and nothing about the cancellation
		k.R.Count("hung_in_display_shutdown", 1)
		k.clearOut()
		k.Stop()
	}
	return o, x.Sup.Events, pressed
}

// crashed tells whether a run ended in a panic, a fatal error or a hang.
func crashed(o *Out) bool {
	return o.Stuck || o.CPUOut || o.Exit < 0 || bytes.Contains(o.Stderr, []byte("panic:")) || bytes.Contains(o.Stderr, []byte("fatal error:")) || bytes.Contains(o.Stderr, []byte("goroutine ")) && bytes.Contains(o.Stderr, []byte("[running]"))
}

// uiCmds are the commands with a display, with the arguments each needs.
func (k *Case) uiArgs(cmd string) []string {
	a := []string{"-i", "in.pbf", "-o", "out", "-w", fmt.Sprint([]int{1, 2, 4, 16}[k.Rng.IntN(4)])}
	switch cmd {
	case "rewritenodes":
		a = append(a, "-x", "n.idx")
	case "relindex":
		a = append(a, "-x", "w.idx", "-p", fmt.Sprint(1+k.Rng.IntN(4)))
	case "wayindex":
		a = append(a, "-a", fmt.Sprint(k.Rng.IntN(5)))
	}
	return a
}

var uiCmds = []string{"decompress", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex"}

// runCmds are the commands that do processing runs.
var runCmds = append([]string{"blockcount", "entitycount", "entityfind"}, uiCmds...)

func p18(c *Ctx) {
	c.R.Rule = "the real engine with recording workers and writer, cancelled before, during and at the end of runs under steered finishing orders, the trace judged for prefix, order, exactly-once and completion; and every command with a display cancelled by Ctrl-C on a terminal at chosen write, open, seek and close calls of its outputs, judged for ending without panic or hang and for an output that is a whole-block prefix of the uncancelled one; an evaluation is one cancelled run"
	c.shards(4, "pipeline", "plain", nil, "cancel", fmt.Sprint(c.N(500, 8000)))
	c.shards(1, "pipeline", "race", noRaceExit, "cancel", fmt.Sprint(c.N(120, 1500)), "race")
	c.shards(3, "cmds", "plain", nil, "cancel", fmt.Sprint(c.N(600, 12000)))
	c.shards(2, "pipeline", "jitter", nil, "cancel", fmt.Sprint(c.N(200, 4000)), "jitter")
	c.shards(2, "cmds", "jitter", nil, "cancel", fmt.Sprint(c.N(200, 4000)), "jitter")
	c.Each("commands", c.N(36, 600), func(k *Case) {
		cmd := uiCmds[k.I%len(uiCmds)]
		multi := cmd == "rewritenodes" && (k.I/len(uiCmds))%2 == 0
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 300, 200, 60
		o.BlockMax = []int{1, 3, 10, 30}[k.Rng.IntN(4)]
		o.MaxRefs = 12
		if multi {
			o.IDStyle = IDSparse
		}
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		locs := f.LocMap()
		if multi {
			k.fillLocs(locs, f, 131072*(1+k.Rng.IntN(3))+1000)
		}
		k.Write("n.idx", NodeIdxBytes(locs))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		a := k.uiArgs(cmd)
		if multi {
			a = append(a, "-m", "1")
		}
		// the uncancelled run, for the calls it makes and the bytes to expect
		x := k.Cmd(cmd, append([]string{"-r", "0"}, a...)...)
		x.Sup = &Supervise{}
		if r := k.Go(x); !r.OK() {
			k.Violate("fails:"+cmd, fmt.Sprintf("%s failed: %s", k.Lines[0], r.Brief()))
			return
		}
		full := k.Read("out")
		type point struct {
			name, path string
			k          int
		}
		var pts []point
		var opens []point
		for _, ev := range x.Sup.Events {
			if !strings.HasPrefix(ev.Path, k.P("out")) || ev.Name == "unlink" || ev.Name == "unlinkat" {
				continue
			}
			p := point{ev.Name, ev.Path, ev.K}
			pts = append(pts, p)
			if ev.Name == "openat" {
				opens = append(opens, p)
			}
		}
		if len(pts) == 0 {
			k.Fail("%s made no call on its output", cmd)
		}
		for try := 0; try < c.N(4, 12); try++ {
			_ = os.Remove(k.P("out"))
			p := pts[k.Rng.IntN(len(pts))]
			if try == 0 && len(opens) > 0 {
				p = opens[0] // before anything was written
			} else if try == 1 && len(opens) > 0 {
				p = opens[k.Rng.IntN(len(opens))]
			}
			hold := []time.Duration{20, 80, 200}[k.Rng.IntN(3)] * time.Millisecond
			r, _, pressed := k.cancelled(false, func(ev *SysEvent) bool { return ev.Name == p.name && ev.Path == p.path && ev.K == p.k }, hold, cmd, a...)
			where := fmt.Sprintf("%s cancelled at %s #%d on %s (held %v)", k.Lines[len(k.Lines)-1], p.name, p.k, filepath.Base(p.path), hold)
			if r.Exit < 0 && r.Signal == syscall.SIGINT {
				// the display was already gone, so the terminal sent the signal:
				// the end of the process, not a cancelled run
				k.R.Count("too_late_for_the_display", 1)
				for n := range snap(k.Dir) {
					if strings.HasPrefix(n, "out") {
						_ = os.Remove(k.P(n))
					}
				}
				continue
			}
			if crashed(r) {
				k.Violate("crash:"+cmd, fmt.Sprintf("%s: %s", where, r.Brief()))
				return
			}
			got, rerr := os.ReadFile(k.P("out"))
			if rerr == nil && !bytes.Equal(got, full) {
				k.R.Count("commands_cut_short", 1)
				why := ""
				switch cmd {
				case "nodeindex", "wayindex": // P29 judges these
				case "relindex":
					if !bytes.HasPrefix(full, got) {
						why = "is not a prefix of the uncancelled output: " + DiffBytes(full, got)
					} else if _, err := ParseRelIdx(got); err != nil {
						why = "ends inside a record: " + err.Error()
					}
				default:
					if !bytes.HasPrefix(full, got) {
						why = "is not a prefix of the uncancelled output: " + DiffBytes(full, got)
					} else if _, err := SplitFile(got); err != nil {
						why = "ends inside a block: " + err.Error()
					}
				}
				if why != "" {
					k.files["uncancelled"] = full
					k.Violate("not-prefix:"+cmd, fmt.Sprintf("%s: the output (%d of %d bytes) %s", where, len(got), len(full), why))
					return
				}
			}
			if pressed {
				k.R.Count("commands_cancelled", 1)
			}
			k.R.Seen("cancel_points", cmd+" "+p.name+" "+strings.TrimPrefix(filepath.Base(p.path), "out"))
			k.R.Eval(Hash(k.I, where))
		}
		if k.I < 4 {
			k.R.Sample(map[string]any{"case": k.I, "command": k.Lines[0], "points": len(pts), "output_bytes": len(full)})
		}
	})
}

// balance compares what was opened and mapped with what was closed and
// unmapped, per file below dir.
func balance(evs []SysEvent, dir string) string {
	open, maps := map[string]int{}, map[string]int{}
	norm := func(p string) string { return strings.TrimSuffix(p, " (deleted)") }
	for _, ev := range evs {
		p := norm(ev.Path)
		if !strings.HasPrefix(p, dir+"/") {
			continue
		}
		switch ev.Name {
		case "openat", "open", "creat":
			open[p]++
		case "close":
			open[p]--
		case "mmap":
			maps[p]++
		case "munmap":
			maps[p]--
		}
	}
	s := ""
	for p, n := range open {
		if n > 0 {
			s += fmt.Sprintf("; %s still open %d times", filepath.Base(p), n)
		}
	}
	for p, n := range maps {
		if n > 0 {
			s += fmt.Sprintf("; %s still mapped %d times", filepath.Base(p), n)
		}
	}
	return strings.TrimPrefix(s, "; ")
}

func p28(c *Ctx) {
	c.R.Rule = "many runs of the real engine in one process, completed and cancelled, after each of which descriptors, file mappings and goroutines are counted with finalizers disabled; and every command run to its end or cancelled with its open, close, map and unmap calls recorded and balanced per file; an evaluation is one run"
	c.shards(3, "pipeline", "plain", nil, "release", fmt.Sprint(c.N(400, 6000)))
	c.shards(2, "cmds", "plain", nil, "release", fmt.Sprint(c.N(300, 6000)))
	c.shards(2, "pipeline", "jitter", nil, "release", fmt.Sprint(c.N(150, 3000)), "jitter")
	c.Each("commands", c.N(32, 500), func(k *Case) {
		cmd := runCmds[k.I%len(runCmds)]
		ui := false
		for _, u := range uiCmds {
			ui = ui || u == cmd
		}
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 200, 100, 40
		o.BlockMax = []int{1, 5, 30}[k.Rng.IntN(3)]
		multi := cmd == "rewritenodes" && k.Rng.IntN(2) == 0
		if multi {
			o.IDStyle = IDSparse
		}
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		locs := f.LocMap()
		if multi {
			k.fillLocs(locs, f, 131072*(1+k.Rng.IntN(2))+1000)
		}
		k.Write("n.idx", NodeIdxBytes(locs))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		var a []string
		switch {
		case ui:
			a = k.uiArgs(cmd)
			if multi {
				a = append(a, "-m", "1")
			}
		case cmd == "entityfind":
			a = []string{"-i", "in.pbf", "-e", "1"}
		default:
			a = []string{"-i", "in.pbf"}
		}
		var r *Out
		var evs []SysEvent
		how := "run to its end"
		if ui && k.Rng.IntN(2) == 0 {
			n := k.Rng.IntN(60)
			r, evs, _ = k.cancelled(true, func(ev *SysEvent) bool {
				if strings.HasPrefix(ev.Path, k.P("out")) {
					n--
				}
				return n < 0
			}, 50*time.Millisecond, cmd, a...)
			how = "cancelled"
			if crashed(r) {
				k.R.Count("crashed_when_cancelled", 1) // P18's business
				return
			}
			k.R.Count("commands_cancelled", 1)
		} else {
			if ui {
				a = append(a, "-r", "0")
			}
			x := k.Cmd(cmd, a...)
			x.Sup = &Supervise{Maps: true}
			r = k.Go(x)
			evs = x.Sup.Events
			if !r.OK() {
				k.Violate("fails:"+cmd, fmt.Sprintf("%s failed: %s", k.Lines[0], r.Brief()))
				return
			}
		}
		if s := balance(evs, k.Dir); s != "" {
			k.Violate("kept:"+cmd, fmt.Sprintf("%s, %s: %s", k.Lines[len(k.Lines)-1], how, s))
			return
		}
		k.R.Count("command_calls_recorded", int64(len(evs)))
		k.R.Seen("commands", cmd+" "+how)
		k.R.Eval(Hash(k.I, k.Lines[len(k.Lines)-1], how))
	})
}
