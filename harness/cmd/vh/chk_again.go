package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	. "verif/lib"
)

func init() {
	register("P35", "fault_enumeration", p35)
}

// p35 runs a command again where earlier runs were stopped half way.
func p35(c *Ctx) {
	c.R.Rule = "each writing command is interrupted one to three times in a row on its way to the same output (killed, a call failing, cancelled by Ctrl-C, out of space, at enumerated calls on its output and intermediate files, with the same or another input), or finds other bytes of any length under the names of its output and intermediate files, and is then run undisturbed; the output must be byte-identical to that of a run in an empty place and nothing else may remain; an evaluation is one history"
	c.Each("histories", c.N(150, 600), func(k *Case) {
		cmd := uiCmds[k.I%len(uiCmds)]
		multi := cmd == "rewritenodes" && (k.I/len(uiCmds))%2 == 0
		a, f := k.faultCase(cmd, multi)
		// another input, larger or smaller
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 2*len(f.Nodes())+50, 300, 90
		if k.Rng.IntN(2) == 0 {
			o.Nodes, o.Ways, o.Rels = 7, 3, 2
		}
		o.BlockMax, o.MaxRefs = []int{3, 20, 100}[k.Rng.IntN(3)], 12
		k.Input("other.pbf", Gen(k.Rng, o))
		before := map[string]bool{}
		es, _ := os.ReadDir(k.Dir)
		for _, e := range es {
			before[e.Name()] = true
		}
		pts, full := k.points(cmd, a...)
		if full == nil {
			k.Violate("missing:"+cmd, k.Lines[len(k.Lines)-1]+" left no output")
			return
		}
		names := map[string]bool{"out": true}
		for _, p := range pts {
			names[filepath.Base(p.Path)] = true
		}
		for h := 0; h < c.N(14, 120); h++ {
			k.clearOut()
			from := len(k.Lines)
			var past []string
			n := 1
			if k.Rng.IntN(3) == 0 {
				n += 1 + k.Rng.IntN(2)
			}
			for j := 0; j < n; j++ {
				b := append([]string{}, a...)
				in := ""
				if k.Rng.IntN(2) == 0 {
					in = " on another input"
					for i := range b {
						if b[i] == "in.pbf" {
							b[i] = "other.pbf"
						}
					}
				}
				p := pts[k.Rng.IntN(len(pts))]
				how := k.Rng.IntN(6)
				if how == 1 && errnos[p.Name] == nil {
					how = 0
				}
				switch how {
				case 0, 1, 4:
					x := k.Cmd(cmd, append([]string{"-r", "0"}, b...)...)
					hit := false
					x.Sup = &Supervise{Reads: true, Handle: func(ev *SysEvent) Action {
						if hit || !p.at(ev) {
							return Action{}
						}
						hit = true
						if how == 1 {
							return Action{Errno: int(errnos[p.Name][0])}
						}
						return Action{Kill: true}
					}}
					k.Go(x)
					what := []string{"killed before", "stopped by the failing of"}[how%4]
					if hit {
						k.R.Count([]string{"runs_killed", "runs_failed"}[how%4], 1)
					} else {
						what = "ran past"
					}
					past = append(past, fmt.Sprintf("%s %v%s", what, p, in))
				case 2:
					_, _, pressed := k.cancelled(false, p.at, 40*time.Millisecond, cmd, b...)
					if pressed {
						k.R.Count("runs_cancelled", 1)
					}
					past = append(past, fmt.Sprintf("cancelled at %v%s", p, in))
				case 3:
					if len(full) < 2 {
						continue
					}
					x := k.Cmd(cmd, append([]string{"-r", "0"}, b...)...)
					x.FSize = 1 + k.Rng.Int64N(int64(len(full))-1)
					k.Go(x)
					k.R.Count("runs_out_of_space", 1)
					past = append(past, fmt.Sprintf("out of space after %d bytes%s", x.FSize, in))
				case 5:
					for nm := range names {
						if k.Rng.IntN(4) == 0 {
							continue
						}
						l := k.Rng.IntN(3*len(full) + 100)
						if k.Rng.IntN(4) == 0 {
							l = []int{0, 1, 7, 8, 16, len(full), len(full) + 8, 1<<20 + 8}[k.Rng.IntN(8)]
						}
						junk := make([]byte, l)
						for i := range junk {
							junk[i] = byte(k.Rng.IntN(256))
						}
						k.Write(nm, junk)
					}
					k.R.Count("foreign_leftovers", 1)
					past = append(past, "files of other bytes under the names of its outputs")
				}
			}
			left := 0
			es, _ := os.ReadDir(k.Dir)
			state := ""
			for _, e := range es {
				if !before[e.Name()] {
					left++
					if fi, err := e.Info(); err == nil {
						state += fmt.Sprintf("%s:%d ", e.Name(), fi.Size())
					}
				}
			}
			if left > 0 {
				k.R.Count("histories_with_leftovers", 1)
				k.R.Seen("leftover_states", fmt.Sprint(k.I, state))
			}
			r := k.Run(cmd, append([]string{"-r", "0"}, a...)...)
			what := fmt.Sprintf("%s, run again after %s", k.Lines[from], strings.Join(past, ", then "))
			if !r.OK() {
				k.Violate("fails:"+cmd, what+": "+r.Brief())
				return
			}
			if d := DiffBytes(full, k.Read("out")); d != "" {
				k.files["undisturbed"] = full
				k.Violate("differs:"+cmd, what+": the output differs from that of an undisturbed run: "+d)
				return
			}
			es, _ = os.ReadDir(k.Dir)
			for _, e := range es {
				if nm := e.Name(); !before[nm] && nm != "out" {
					k.Violate("leftover:"+cmd, fmt.Sprintf("%s: %s remains", what, nm))
					return
				}
			}
			k.R.Eval(Hash(k.I, state, past))
		}
		if k.I < 2 {
			k.R.Sample(map[string]any{"case": k.I, "command": k.Lines[0], "file": f.Desc, "calls_on_outputs": len(pts), "names": len(names)})
		}
	})
}
