//go:build go1.22

// tracker drives the worker list: random sequences against a model, then
// concurrent registrations with snapshots and viewers.
package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/gdamore/tcell/views"

	"github.com/squizzling/osmindex/internal/tracker"

	. "verif/lib"
)

var d *Drv

type worker struct{ n int }

type provider struct {
	*tracker.WorkerTracker
	afterVersion func()
	afterStates  func()
}

func (p *provider) WriterState() interface{} { return nil }

func (p *provider) Version() uint64 {
	v := p.WorkerTracker.Version()
	if p.afterVersion != nil {
		p.afterVersion()
	}
	return v
}

func (p *provider) WorkerStates() []interface{} {
	s := p.WorkerTracker.WorkerStates()
	if p.afterStates != nil {
		p.afterStates()
	}
	return s
}

type label struct {
	*views.Text
	w *worker
}

func newLabel(s interface{}) views.Widget { return &label{Text: views.NewText(), w: s.(*worker)} }

func names(ws []*worker) string {
	s := ""
	for _, w := range ws {
		s += fmt.Sprintf(" %d", w.n)
	}
	return s
}

func cast(xs []interface{}) ([]*worker, string) {
	var out []*worker
	for i, x := range xs {
		w, ok := x.(*worker)
		if !ok || w == nil {
			return nil, fmt.Sprintf("entry %d is %v", i, x)
		}
		out = append(out, w)
	}
	return out, ""
}

func shown(ww *tracker.WidgetWorkers) []*worker {
	var out []*worker
	for _, w := range ww.WorkerBox.Widgets() {
		out = append(out, w.(*label).w)
	}
	return out
}

func same(a, b []*worker) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sequence is one random history on one goroutine.
func sequence() {
	r := d.Rng
	wt := &tracker.WorkerTracker{}
	p := &provider{WorkerTracker: wt}
	ww := tracker.NewWidgetWorkers(p, newLabel)
	var model []*worker
	next := 0
	hist := ""
	type snap struct {
		got  []interface{}
		want []*worker
	}
	var snaps []snap
	vers := map[uint64]bool{wt.Version(): true}
	change := func() {
		before := wt.Version()
		if len(model) == 0 || r.IntN(5) < 3 {
			w := &worker{next}
			next++
			hist += fmt.Sprintf(" +%d", w.n)
			d.Note("history%s", hist)
			wt.TrackWorker(w)
			model = append(model, w)
		} else {
			i := r.IntN(len(model))
			switch r.IntN(4) {
			case 0:
				i = 0
			case 1:
				i = len(model) - 1
			}
			w := model[i]
			hist += fmt.Sprintf(" -%d", w.n)
			d.Note("history%s", hist)
			wt.UntrackWorker(w)
			model = append(append([]*worker{}, model[:i]...), model[i+1:]...)
		}
		if v := wt.Version(); v == before {
			d.Bad("version", "history%s: the last operation did not change the version %d", hist, v)
		} else if vers[v] {
			d.Bad("version", "history%s: version %d was in use before", hist, v)
		} else {
			vers[v] = true
		}
	}
	for k := 0; k < 5+r.IntN(60) && d.NViol() == 0; k++ {
		change()
		got := wt.WorkerStates()
		ws, bad := cast(got)
		if bad != "" || !same(ws, model) {
			d.Bad("list", "history%s: list is%s %s, want%s", hist, names(ws), bad, names(model))
			return
		}
		snaps = append(snaps, snap{got, append([]*worker{}, model...)})
		d.EvalN(1)
		if r.IntN(4) == 0 { // something happens in the middle of a refresh
			if r.IntN(2) == 0 {
				p.afterVersion = change
			} else {
				p.afterStates = change
			}
			hist += " (refresh:"
			ww.RefreshStates()
			hist += ")"
			p.afterVersion, p.afterStates = nil, nil
			d.Count("disturbed_refreshes", 1)
		}
		if r.IntN(2) == 0 {
			hist += " refresh"
			ww.RefreshStates()
			if !same(shown(ww), model) {
				d.Bad("viewer", "history%s: after refreshing the viewer shows%s, want%s", hist, names(shown(ww)), names(model))
				return
			}
			d.Count("refreshes", 1)
		}
		if len(got) > 0 && r.IntN(4) == 0 { // a holder may do as it likes with its copy
			cp := wt.WorkerStates()
			if len(cp) > 0 {
				cp[0] = &worker{-1}
				_ = append(cp[:len(cp)-1], &worker{-2})
				ws, _ := cast(wt.WorkerStates())
				if !same(ws, model) {
					d.Bad("aliased", "history%s: changing a returned list changes the tracker's", hist)
				}
			}
		}
	}
	for i, s := range snaps {
		ws, bad := cast(s.got)
		if bad != "" || !same(ws, s.want) {
			d.Bad("snapshot", "history%s: the list returned at step %d has changed to%s %s, it was%s", hist, i, names(ws), bad, names(s.want))
			return
		}
	}
	d.DistinctAdd(1)
}

type life struct {
	w              *worker
	t0, t1, u0, u1 int64 // call and return of Track and Untrack; 0: not yet
	_              int
}

// concurrent runs registrations on several goroutines, with goroutines taking
// snapshots and viewers refreshing, up to a quiescent point.
func concurrent(round int) {
	r := d.Rng
	wt := &tracker.WorkerTracker{}
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	gor := 2 + r.IntN(10)
	ops := 5 + r.IntN(60)
	all := make([][]life, gor)
	seeds := make([]uint64, gor)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	d.NoteNow("concurrent round %d: %d goroutines, %d operations each", round, gor, ops)
	var wg, vg sync.WaitGroup
	var stop int32
	type shot struct {
		t0, t1 int64
		ws     []*worker
		raw    []interface{}
		bad    string
	}
	nview := 2 + r.IntN(3)
	shots := make([][]shot, nview)
	views_ := make([]*tracker.WidgetWorkers, nview)
	for v := 0; v < nview; v++ {
		p := &provider{WorkerTracker: wt}
		ww := tracker.NewWidgetWorkers(p, newLabel)
		views_[v] = ww
		vg.Add(1)
		go func() {
			defer vg.Done()
			for k := 0; atomic.LoadInt32(&stop) == 0; k++ {
				ww.RefreshStates()
				if len(shots[v]) < 400 && k%3 == 0 {
					a := tick()
					raw := wt.WorkerStates()
					ws, bad := cast(raw)
					shots[v] = append(shots[v], shot{a, tick(), ws, raw, bad})
				}
				if k%7 == 0 {
					runtime.Gosched()
				}
			}
			ww.RefreshStates()
		}()
	}
	for g := 0; g < gor; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := NewRng(seeds[g])
			var mine []int
			for k := 0; k < ops; k++ {
				if len(mine) == 0 || rr.IntN(5) < 3 {
					l := life{w: &worker{g*1000 + k}}
					l.t0 = tick()
					wt.TrackWorker(l.w)
					l.t1 = tick()
					all[g] = append(all[g], l)
					mine = append(mine, len(all[g])-1)
				} else {
					i := rr.IntN(len(mine))
					l := &all[g][mine[i]]
					l.u0 = tick()
					wt.UntrackWorker(l.w)
					l.u1 = tick()
					mine = append(mine[:i], mine[i+1:]...)
				}
				if rr.IntN(4) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	vg.Wait()
	// quiescent
	lives := map[*worker]*life{}
	running := 0
	for g := range all {
		for i := range all[g] {
			l := &all[g][i]
			lives[l.w] = l
			if l.u0 == 0 {
				running++
			}
		}
	}
	final, bad := cast(wt.WorkerStates())
	if bad != "" || len(final) != running {
		d.Bad("list", "round %d: at the quiescent point the list is%s %s; %d workers are running", round, names(final), bad, running)
		return
	}
	judge := func(ws []*worker, t0, t1 int64, what string) bool {
		seen := map[*worker]bool{}
		for i, w := range ws {
			l := lives[w]
			if seen[w] {
				d.Bad("duplicate", "round %d: %s lists worker %d twice", round, what, w.n)
				return false
			}
			seen[w] = true
			if l.t0 > t1 || l.u1 != 0 && l.u1 < t0 {
				d.Bad("stale", "round %d: %s lists worker %d, which was not registered then", round, what, w.n)
				return false
			}
			for _, x := range ws[:i] {
				if lives[x].t0 > l.t1 {
					d.Bad("order", "round %d: %s lists worker %d before %d, which was registered earlier", round, what, x.n, w.n)
					return false
				}
			}
		}
		for w, l := range lives {
			if l.t1 < t0 && (l.u0 == 0 || l.u0 > t1) && !seen[w] {
				d.Bad("missing", "round %d: %s lacks worker %d, which was running all the time", round, what, w.n)
				return false
			}
		}
		return true
	}
	now := tick()
	if !judge(final, now, now, "the final list") {
		return
	}
	for v := range shots {
		for _, s := range shots[v] {
			if s.bad != "" {
				d.Bad("list", "round %d: a list taken meanwhile is malformed: %s", round, s.bad)
				return
			}
			again, _ := cast(s.raw)
			if !same(again, s.ws) {
				d.Bad("snapshot", "round %d: a list taken earlier has changed from%s to%s", round, names(s.ws), names(again))
				return
			}
			if !judge(s.ws, s.t0, s.t1, "a list taken meanwhile") {
				return
			}
			d.Count("snapshots", 1)
		}
		if got := shown(views_[v]); !same(got, final) {
			d.Bad("viewer", "round %d: after the last change and a refresh, viewer %d shows%s, want%s", round, v, names(got), names(final))
			return
		}
		d.Count("viewers_compared", 1)
	}
	d.EvalN(1)
	d.Seen("concurrent_orders", Hash(names(final)))
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		for i := 0; i < d.N(3000, 60000) && d.NViol() == 0; i++ {
			sequence()
		}
		for i := 0; i < d.N(2500, 60000) && d.NViol() == 0; i++ {
			concurrent(i)
		}
		// many short windows: one registration at a time against busy viewers
		wt := &tracker.WorkerTracker{}
		for i := 0; i < d.N(20000, 500000) && d.NViol() == 0; i++ {
			w := &worker{i}
			ww := tracker.NewWidgetWorkers(&provider{WorkerTracker: wt}, newLabel)
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); wt.TrackWorker(w) }()
			go func() {
				defer wg.Done()
				for k := 0; k < 6; k++ {
					ww.RefreshStates()
				}
			}()
			wg.Wait()
			ww.RefreshStates()
			if got := shown(ww); len(got) != 1 || got[0] != w {
				d.Bad("viewer", "window %d: after a registration and a refresh the viewer shows%s", i, names(got))
			}
			wt.UntrackWorker(w)
			d.EvalN(1)
		}
		d.Sample(map[string]any{"sequences": d.N(3000, 60000), "concurrent_rounds": d.N(2500, 60000)})
	})
}
