package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"time"

	. "verif/lib"
)

func init() {
	register("P37", "exploration", p37)
}

// p37 runs commands while another one is under way.
func p37(c *Ctx) {
	c.R.Rule = "one command is stopped at an enumerated system call on any file, another command (the same or a different one, on the same inputs, in the same directory, with an output of its own) is run from start to end, and the first then goes on; both must succeed with exactly the output files and results they have alone, and nothing else may be left; an evaluation is one pair and point"
	c.R.Assumptions = append(c.R.Assumptions, "neither output's name starts with the other's")
	c.Each("pairs", c.N(100, 500), func(k *Case) {
		o := k.scen()
		o.Nodes, o.Ways, o.Rels = 40+k.Rng.IntN(200), 20+k.Rng.IntN(80), 5+k.Rng.IntN(30)
		o.BlockMax, o.MaxRefs = []int{10, 40, 100}[k.Rng.IntN(3)], 12
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		locs := f.LocMap()
		multi := k.I%11 == 9 // rewritenodes in several passes
		if multi {
			k.fillLocs(locs, f, 131072+1000)
		}
		k.Write("n.idx", NodeIdxBytes(locs))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		args := func(cmd, out string) []string {
			a := k.plainArgs(cmd)
			for i := range a {
				if a[i] == "out" {
					a[i] = out
				}
			}
			if cmd == "rewritenodes" && multi {
				a = append(a, "-m", "1")
			}
			if strings.HasPrefix(cmd, "dump") {
				a = append(a, "-p", "-s")
			}
			return a
		}
		result := func(cmd, out string, r *Out) []byte {
			for _, u := range uiCmds {
				if u == cmd {
					return k.Read(out)
				}
			}
			return printed(r.Stdout)
		}
		names := [][2]string{{"a.out", "b.out"}, {"same.a", "same.b"}, {"sub/same", "same"}, {"x1", "x2"}, {"same.idx.old", "same.idx_new"}}[(k.I/3)%5]
		na, nb := names[0], names[1]
		_ = os.Mkdir(k.P("sub"), 0o755)
		before := snap(k.Dir)
		ca := commands[k.I%len(commands)]
		aa := args(ca, na)
		x := k.Cmd(ca, aa...)
		x.Sup = &Supervise{Reads: true, Maps: true}
		ra := k.Go(x)
		if !ra.OK() {
			k.Violate("fails:"+ca, k.Lines[len(k.Lines)-1]+" failed: "+ra.Brief())
			return
		}
		wantA := result(ca, na, ra)
		var pts []point
		for _, ev := range x.Sup.Events {
			if strings.HasPrefix(ev.Path, k.Dir) {
				pts = append(pts, point{ev.Name, ev.Path, ev.K})
			}
		}
		if len(pts) < 2 {
			k.Fail("%s made only %d calls on files", ca, len(pts))
		}
		for _, i := range k.pick(len(pts), c.N(6, 30)) {
			p := pts[i]
			cb := commands[k.Rng.IntN(len(commands))]
			if k.Rng.IntN(3) == 0 {
				cb = ca
			}
			ab := args(cb, nb)
			if cb == ca {
				ab = append([]string{}, aa...)
				for j := range ab {
					if ab[j] == na {
						ab[j] = nb
					}
				}
			}
			rb := k.Run(cb, ab...)
			if !rb.OK() {
				k.Violate("fails:"+cb, k.Lines[len(k.Lines)-1]+" failed: "+rb.Brief())
				return
			}
			wantB := result(cb, nb, rb)
			k.clear(na, nb)
			var gotB *Out
			x := k.Cmd(ca, aa...)
			x.Idle = 150 * time.Second // it sleeps while the other runs
			y := k.Cmd(cb, ab...)
			hit := false
			x.Sup = &Supervise{Reads: true, Maps: true, Handle: func(ev *SysEvent) Action {
				if hit || !p.at(ev) {
					return Action{}
				}
				hit = true
				return Action{Wait: func() { gotB = y.Run() }}
			}}
			gotA := k.Go(x)
			what := fmt.Sprintf("%s %s, stopped at %v while %s %s runs", ca, strings.Join(aa, " "), p, cb, strings.Join(ab, " "))
			if gotB == nil {
				k.R.Count("points_not_reached", 1)
				continue
			}
			k.R.Count("command_runs", 1)
			if gotB.Helper || gotB.TimedOut {
				k.Fail("%s: %s", what, gotB.Brief())
			}
			if !gotA.OK() {
				k.Violate("first-fails:"+ca, what+": the first fails: "+gotA.Brief())
				return
			}
			if !gotB.OK() {
				k.Violate("second-fails:"+cb, what+": the second fails: "+gotB.Brief())
				return
			}
			if got := result(ca, na, gotA); !bytes.Equal(got, wantA) {
				k.files["alone"] = wantA
				k.Violate("first-differs:"+ca, what+": the first has another result than alone: "+DiffBytes(wantA, got))
				return
			}
			if got := result(cb, nb, gotB); !bytes.Equal(got, wantB) {
				k.files["alone"] = wantB
				k.Violate("second-differs:"+cb, what+": the second has another result than alone: "+DiffBytes(wantB, got))
				return
			}
			if d := diffSnap(before, snap(k.Dir), map[string]bool{na: true, nb: true}); len(d) > 0 {
				k.Violate("touched:"+ca, what+": "+strings.Join(d, "; "))
				return
			}
			k.R.Eval(Hash(k.I, p, cb))
			k.R.Seen("pairs", ca+" "+cb)
			k.R.Seen("calls", ca+" "+p.Name)
		}
		if k.I < 2 {
			k.R.Sample(map[string]any{"case": k.I, "first": ca, "calls_on_files": len(pts), "file": f.Desc})
		}
	})
}
