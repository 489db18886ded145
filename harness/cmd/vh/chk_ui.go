package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	. "verif/lib"
)

func init() {
	register("P33", "exploration", p33)
}

var (
	rxFile   = regexp.MustCompile(`^\[(\w+)\] Processing PBF (.+): (initializing|shutting down|(loading|sending) block (\d+)/(\d+) +([0-9.NaN]+)%)$`)
	rxPass   = regexp.MustCompile(`^Pass (\d+)/(\d+)$`)
	rxWorker = regexp.MustCompile(`^Worker: (waiting for block|(decoding|processing|encoding|sending|decompressing) (?:block|blob) (\d+)(?:, (\d+) kept, (\d+) dropped)?|working on block (\d+), way (\d+)/(\d+))$`)
	rxWriter = regexp.MustCompile(`^Writer: (?:(waiting for block|writing locations|finalizing index)|(writing (?:index )?block) (\d+)|(writing block|waiting for block), dropped (\d+)/(\d+) blocks|copying locations \((\d+)/(\d+)\) +([0-9.NaN]+)%)$`)
)

// uiLine is one worker as shown.
type uiLine struct {
	State         string
	Block         int64
	Kept, Dropped int64
	Way, Ways     int64
	HL            int
}

// uiScreen is a display as shown.
type uiScreen struct {
	Pass, Passes  int64
	Name, File    string
	State         string // initializing, loading, sending, shutting down
	At, Max       int64
	HL, HLPass    int
	Workers       []uiLine
	Writer        string
	WBlock        int64
	Fill          int64
	Copied, Total int64
	HLCopy        int
}

func num(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return -1
	}
	return n
}

// readScreen makes sense of a display; why is set when a line is none of the
// lines the commands have.
func readScreen(rows []string, hl []int) (s *uiScreen, why string) {
	s = &uiScreen{Pass: -1, WBlock: -1, Fill: -1, Copied: -1, At: -1, Max: -1}
	for i, r := range rows {
		switch {
		case r == "":
		case strings.HasPrefix(r, "Pass "):
			m := rxPass.FindStringSubmatch(r)
			if m == nil {
				return nil, "line " + strconv.Quote(r)
			}
			if s.Pass >= 0 {
				return nil, "a second pass line " + strconv.Quote(r)
			}
			s.Pass, s.Passes, s.HLPass = num(m[1]), num(m[2]), hl[i]
		case strings.HasPrefix(r, "["):
			m := rxFile.FindStringSubmatch(r)
			if m == nil {
				return nil, "line " + strconv.Quote(r)
			}
			if s.Name != "" {
				return nil, "a second file line " + strconv.Quote(r)
			}
			s.Name, s.File, s.State, s.HL = m[1], m[2], m[3], hl[i]
			if m[4] != "" {
				s.State, s.At, s.Max = m[4], num(m[5]), num(m[6])
				if w := fmt.Sprintf("%2.01f", 100*float64(s.At)/float64(s.Max)); w != m[7] {
					return nil, fmt.Sprintf("line %q: the percentage should be %s", r, w)
				}
			}
		case strings.HasPrefix(r, "Worker:"):
			m := rxWorker.FindStringSubmatch(r)
			if m == nil {
				return nil, "line " + strconv.Quote(r)
			}
			l := uiLine{State: m[2], Block: num(m[3]), Kept: num(m[4]), Dropped: num(m[5]), Way: num(m[7]), Ways: num(m[8]), HL: hl[i]}
			if m[6] != "" {
				l.State, l.Block = "working", num(m[6])
			}
			if l.State == "" {
				l.State = "waiting"
			}
			s.Workers = append(s.Workers, l)
		case strings.HasPrefix(r, "Writer:"):
			m := rxWriter.FindStringSubmatch(r)
			if m == nil {
				return nil, "line " + strconv.Quote(r)
			}
			if s.Writer != "" {
				return nil, "a second writer line " + strconv.Quote(r)
			}
			switch {
			case m[1] != "":
				s.Writer = m[1]
			case m[2] != "":
				s.Writer, s.WBlock = m[2], num(m[3])
			case m[4] != "":
				s.Writer, s.Fill, s.WBlock = m[4], num(m[5]), num(m[6])
			default:
				s.Writer, s.Copied, s.Total, s.HLCopy = "copying", num(m[7]), num(m[8]), hl[i]
				if w := fmt.Sprintf("%2.01f", 100*float64(s.Copied)/float64(s.Total)); w != m[9] {
					return nil, fmt.Sprintf("line %q: the percentage should be %s", r, w)
				}
			}
		default:
			return nil, "line " + strconv.Quote(r)
		}
	}
	return s, ""
}

// uiModel is what is known of a run from its input alone.
type uiModel struct {
	cmd     string
	w       int
	cols    int
	raws    []RawBlock
	size    int64
	kept    []int64 // per block
	dropped []int64
	filler  []bool
	ways    []int64
	rels    []int64
	last    []int64 // highest node id, 0 without nodes
	passes  int
	inputs  []string // per pass
	outputs []string
	sizes   []int64 // of the inputs
}

// frame judges any moment of a run.
func (m *uiModel) frame(s *uiScreen, last *uiScreen) string {
	n := int64(len(m.raws))
	if s.Name == "" && len(s.Workers) == 0 && s.Writer == "" {
		return "" // nothing shown yet
	}
	pass := 0
	if m.cmd == "rewritenodes" && s.Pass >= 0 {
		if s.Passes != int64(m.passes) || s.Pass < 1 || s.Pass > s.Passes {
			return fmt.Sprintf("pass %d/%d of %d", s.Pass, s.Passes, m.passes)
		}
		pass = int(s.Pass - 1)
		if last != nil && s.Pass < last.Pass {
			return fmt.Sprintf("pass %d after pass %d", s.Pass, last.Pass)
		}
	} else if s.Pass >= 0 {
		return "a pass line"
	}
	want := map[string]string{"decompress": "Decompress", "nodeindex": "NodeIndex", "relindex": "RelIndexInit", "rewritenodes": "RewriteNodes", "tagfilter": "TagFilter", "wayindex": "WayIndex"}[m.cmd]
	if s.Name != "" {
		if s.Name != want {
			return fmt.Sprintf("the action is shown as %q", s.Name)
		}
		if s.File != m.inputs[pass] {
			return fmt.Sprintf("the file is shown as %q, it is %q", s.File, m.inputs[pass])
		}
	}
	if s.Max >= 0 {
		if m.sizes[pass] >= 0 && s.Max != m.sizes[pass] {
			return fmt.Sprintf("the total is shown as %d, the file has %d bytes", s.Max, m.sizes[pass])
		}
		if s.At > s.Max {
			return fmt.Sprintf("position %d of %d", s.At, s.Max)
		}
		if last != nil && last.At >= 0 && last.Pass == s.Pass && s.At < last.At {
			return fmt.Sprintf("position %d after %d", s.At, last.At)
		}
		if s.Max > 0 {
			f := float64(m.cols) * float64(s.At) / float64(s.Max)
			if float64(s.HL) > f+1 || float64(s.HL) < f-1 {
				return fmt.Sprintf("%d of %d cells are highlighted at %d/%d", s.HL, m.cols, s.At, s.Max)
			}
		}
	} else if s.HL != 0 && s.State != "" {
		return fmt.Sprintf("%d cells are highlighted on a line without progress", s.HL)
	}
	if len(s.Workers) > m.w {
		return fmt.Sprintf("%d workers of %d are shown", len(s.Workers), m.w)
	}
	k, d := int64(0), int64(0)
	for _, l := range s.Workers {
		if l.State != "waiting" && (l.Block < 0 || l.Block >= n) {
			return fmt.Sprintf("worker on block %d of %d", l.Block, n)
		}
		if l.State == "working" && l.Ways > 0 {
			ok := false
			for _, w := range m.ways {
				ok = ok || w == l.Ways
			}
			if !ok {
				return fmt.Sprintf("a block of %d ways", l.Ways)
			}
		}
		if l.Kept > 0 {
			k += l.Kept
		}
		if l.Dropped > 0 {
			d += l.Dropped
		}
	}
	if m.cmd == "tagfilter" {
		tk, td := int64(0), int64(0)
		for i := range m.kept {
			tk, td = tk+m.kept[i], td+m.dropped[i]
		}
		if k > tk || d > td {
			return fmt.Sprintf("%d kept and %d dropped, of %d and %d in the whole file", k, d, tk, td)
		}
	}
	if strings.Contains(s.Writer, "writing block") || s.Writer == "writing index block" {
		if s.WBlock >= n {
			return fmt.Sprintf("writer on block %d of %d", s.WBlock, n)
		}
	}
	// (between passes the writer's line is already the next pass's)
	if last != nil && m.passes == 1 && last.WBlock >= 0 && s.WBlock >= 0 && s.WBlock < last.WBlock {
		return fmt.Sprintf("writer on block %d after block %d", s.WBlock, last.WBlock)
	}
	if s.Copied > s.Total && s.Total > 0 {
		return fmt.Sprintf("copied %d of %d", s.Copied, s.Total)
	}
	return ""
}

// held judges the moment when the write numbered nth (of writes) to out is
// held back and everything else has come to rest.
func (m *uiModel) held(s *uiScreen, pass int, j int64) string {
	if s.Name == "" {
		return "nothing is shown"
	}
	if m.cmd == "rewritenodes" {
		if s.Pass != int64(pass+1) {
			return fmt.Sprintf("pass %d is shown during pass %d", s.Pass, pass+1)
		}
		if s.Max > 0 {
			f := float64(m.cols) * (float64(pass) + float64(s.At)/float64(s.Max)) / float64(m.passes)
			if float64(s.HLPass) > f+1 || float64(s.HLPass) < f-1 {
				return fmt.Sprintf("pass line: %d of %d cells are highlighted in pass %d/%d at %d/%d", s.HLPass, m.cols, pass+1, m.passes, s.At, s.Max)
			}
		}
	}
	next := int64(len(m.raws)) // the block being handed out
	switch s.State {
	case "sending":
		next = -1
		if m.cmd != "rewritenodes" || pass == 0 { // the sizes of later passes' blocks differ
			for i, r := range m.raws {
				if int64(r.HeaderEnd) == s.At {
					next = int64(i)
				}
			}
			if next < 0 {
				return fmt.Sprintf("sending a block at %d, where none starts", s.At)
			}
		}
		if len(s.Workers) != m.w {
			return fmt.Sprintf("%d of %d workers are shown", len(s.Workers), m.w)
		}
	case "shutting down":
	default:
		return "the file line says " + strconv.Quote(s.State)
	}
	seen := map[int64]bool{}
	k, d := int64(0), int64(0)
	for _, l := range s.Workers {
		if l.State != "sending" {
			return fmt.Sprintf("a worker is shown as %q while the writer is blocked", l.State)
		}
		if seen[l.Block] {
			return fmt.Sprintf("two workers on block %d", l.Block)
		}
		seen[l.Block] = true
		if j >= 0 && l.Block <= j {
			return fmt.Sprintf("a worker is sending block %d while block %d is written", l.Block, j)
		}
		if next >= 0 && l.Block >= next {
			return fmt.Sprintf("a worker is sending block %d, block %d is still to be handed out", l.Block, next)
		}
		k, d = k+max(0, l.Kept), d+max(0, l.Dropped)
	}
	if m.cmd == "tagfilter" && s.State == "sending" {
		wk, wd := int64(0), int64(0)
		for i := int64(0); i < next; i++ {
			wk, wd = wk+m.kept[i], wd+m.dropped[i]
		}
		if k != wk || d != wd {
			return fmt.Sprintf("%d nodes kept and %d dropped are shown, they are %d and %d in the %d blocks handled", k, d, wk, wd, next)
		}
	}
	if j >= 0 {
		if !strings.HasPrefix(s.Writer, "writing") || s.WBlock != j {
			return fmt.Sprintf("the writer is shown as %q %d while it writes block %d", s.Writer, s.WBlock, j)
		}
		if m.cmd == "tagfilter" {
			f := int64(0)
			for i := int64(0); i < j; i++ {
				if m.filler[i] {
					f++
				}
			}
			if s.Fill != f {
				return fmt.Sprintf("%d dropped blocks are shown, there are %d before block %d", s.Fill, f, j)
			}
		}
	}
	return ""
}

// finiHang tells whether a run hung because input was still being handled when
// the terminal library (tcell 1.4.0) shut the terminal down: its Fini waits,
// holding the screen's lock, for the loop that needs that lock (or that waits
// for somebody to take its events).
func finiHang(o *Out) bool {
	if !o.Stuck {
		return false
	}
	fini, input := false, false
	for _, g := range strings.Split(string(o.Stderr), "\ngoroutine ") {
		if strings.Contains(g, "tcell.(*tScreen).termioFini") {
			fini = true
		}
		if strings.Contains(g, "tcell.(*tScreen).mainLoop") && (strings.Contains(g, "collectEventsFromInput") || strings.Contains(g, "PostEventWait") || strings.Contains(g, "(*Mutex).Lock")) {
			input = true
		}
	}
	return fini && input
}

func p33(c *Ctx) {
	c.R.Rule = "every command with a display run on a terminal whose output is interpreted: all frames judged while running, and at chosen writes held back until everything rests the screen compared with what the run is really doing; keys, resizes and redraw requests sent during runs must change nothing; when the summary is printed the terminal must be as it was found; an evaluation is one run"
	uiShutdown(c)
	uiStages(c)
	c.Each("display", c.N(96, 1500), func(k *Case) {
		cmd := uiCmds[k.I%len(uiCmds)]
		multi := cmd == "rewritenodes" && (k.I/len(uiCmds))%2 == 0
		o := DefaultGen()
		o.Nodes, o.Ways, o.Rels = 200+k.Rng.IntN(1500), 100+k.Rng.IntN(300), 60
		o.BlockMax = []int{1, 3, 10, 30}[k.Rng.IntN(4)]
		o.MaxRefs = []int{12, 60}[k.Rng.IntN(2)]
		o.NodeTags = 10 + 30*k.Rng.IntN(3)
		o.IDStyle = -1
		if multi {
			o.IDStyle = IDSparse
		}
		if k.I%48 == 7 { // locations that are copied in several pieces
			o.Nodes, o.BlockMax, o.NodeTags, o.IDStyle = 140000+k.Rng.IntN(200000), 8000, 0, IDMix
		}
		f := Gen(k.Rng, o)
		if k.Rng.IntN(2) == 0 && f.Blocks[0].Type == "OSMHeader" { // later header blocks
			for n := 1 + k.Rng.IntN(5); n > 0; n-- {
				h := *f.Blocks[0]
				p := 1 + k.Rng.IntN(len(f.Blocks))
				f.Blocks = append(f.Blocks[:p:p], append([]*Block{&h}, f.Blocks[p:]...)...)
			}
		}
		data := k.Input("in.pbf", f)
		locs := f.LocMap()
		if multi {
			k.fillLocs(locs, f, 131072*(1+k.Rng.IntN(3))+1000)
		}
		k.Write("n.idx", NodeIdxBytes(locs))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		w := []int{1, 2, 3, 6, 16}[k.Rng.IntN(5)]
		a := []string{"-i", "in.pbf", "-o", "out", "-w", fmt.Sprint(w)}
		switch cmd {
		case "rewritenodes":
			a = append(a, "-x", "n.idx")
		case "relindex":
			a = append(a, "-x", "w.idx", "-p", fmt.Sprint(1+k.Rng.IntN(3)))
		case "wayindex":
			a = append(a, "-a", fmt.Sprint(k.Rng.IntN(5)))
		}
		if multi {
			a = append(a, "-m", "1")
		}
		m := &uiModel{cmd: cmd, w: w, cols: 160, size: int64(len(data)), passes: 1}
		var err error
		if m.raws, err = SplitFile(data); err != nil {
			k.Fail("own file: %v", err)
		}
		for _, b := range f.Blocks {
			var kept, drop, ways, rels, high int64
			for _, g := range b.Groups {
				if g.Dense != nil {
					for _, n := range g.Dense.Nodes {
						high = max(high, n.ID)
						keep := false
						for _, t := range n.Tags {
							keep = keep || !Discardable(t.K)
						}
						if keep {
							kept++
						} else {
							drop++
						}
					}
				}
				ways += int64(len(g.Ways))
				rels += int64(len(g.Rels))
			}
			m.kept, m.dropped, m.ways, m.rels = append(m.kept, kept), append(m.dropped, drop), append(m.ways, ways), append(m.rels, rels)
			m.last = append(m.last, high)
			m.filler = append(m.filler, b.Type == "OSMData" && kept+ways+rels == 0)
		}
		if len(m.kept) != len(m.raws) {
			k.Fail("own file: %d blocks, %d framed", len(m.kept), len(m.raws))
		}
		// the run without a display, for the calls it makes and the bytes to expect
		x := k.Cmd(cmd, append([]string{"-r", "0"}, a...)...)
		x.Sup = &Supervise{}
		if r := k.Go(x); !r.OK() {
			k.Violate("fails:"+cmd, fmt.Sprintf("%s failed: %s", k.Lines[0], r.Brief()))
			return
		}
		full := k.Read("out")
		type write struct {
			path string
			k    int
			n    int64
		}
		var writes []write
		var made []string
		for _, ev := range x.Sup.Events {
			if !strings.HasPrefix(ev.Path, k.P("out")) {
				continue
			}
			if ev.Name == "write" {
				writes = append(writes, write{ev.Path, ev.K, ev.Size})
			}
			if ev.Name == "openat" && ev.Flags&0x40 != 0 {
				made = append(made, filepath.Base(ev.Path))
			}
		}
		m.inputs, m.sizes, m.outputs = []string{"in.pbf"}, []int64{m.size}, made
		if cmd == "rewritenodes" {
			m.passes = len(made)
			for _, o := range made[:len(made)-1] {
				m.inputs, m.sizes = append(m.inputs, o), append(m.sizes, -1)
			}
			k.R.Max("passes", int64(m.passes))
		}
		_ = os.Remove(k.P("out"))

		// the moments to hold
		holds := map[write]bool{}
		if len(writes) > 0 {
			for i := 0; i < 5; i++ {
				holds[writes[k.Rng.IntN(len(writes))]] = true
			}
			holds[writes[len(writes)-1-k.Rng.IntN(min(3, len(writes)))]] = true
		}
		noise := k.Rng.IntN(3) == 0 && len(writes) > 3
		var calm write // from here on no more keys: the shutdown of the display is judged on its own
		if noise {
			holds = nil
			for _, w := range writes {
				if cmd != "relindex" || strings.Contains(w.path, ".pass_000") {
					calm = w
				}
			}
			noise = calm.path != ""
		}
		// or the run is cancelled at one of the first writes
		press := !noise && k.Rng.IntN(3) == 0
		var fatal write
		if press {
			holds = nil
			var early []write
			for _, w := range writes {
				if cmd != "relindex" || strings.Contains(w.path, ".pass_000") {
					early = append(early, w)
				}
			}
			if press = len(early) > 3; press {
				fatal = early[k.Rng.IntN((len(early)+1)/2)]
			}
		}
		quiet := int32(0)
		refresh := []string{"1ms", "3ms", "10ms"}[k.Rng.IntN(3)]
		tm := NewTerm(m.cols, 50)
		var mu sync.Mutex
		var bad, badKey string
		report := func(key, what string, rows []string) {
			mu.Lock()
			defer mu.Unlock()
			if bad == "" {
				bad, badKey = what, key
				k.files["screen.txt"] = []byte(strings.Join(rows, "\n") + "\n")
			}
		}
		var last *uiScreen
		frames, working, consistent := 0, 0, 0
		resized := int32(0)
		tm.Frame = func(rows []string, hl []int) {
			if atomic.LoadInt32(&resized) != 0 {
				return
			}
			s, why := readScreen(rows, hl)
			if why == "" {
				if why = m.frame(s, last); why == "" {
					if s.Name != "" {
						last = s
					}
					for _, l := range s.Workers {
						k.R.Seen("worker_states", cmd+" "+l.State)
						if l.State == "working" && l.Block >= 0 && l.Block < int64(len(m.ways)) {
							working++
							if l.Ways == m.ways[l.Block] && l.Way >= 0 && l.Way <= l.Ways {
								consistent++
							}
						}
					}
					if s.Writer != "" {
						k.R.Seen("writer_states", cmd+" "+s.Writer)
					}
					if s.State != "" {
						k.R.Seen("file_states", s.State)
					}
				}
			}
			frames++
			if why != "" {
				report("frame:"+cmd, why, rows)
			}
		}
		x = k.Cmd(cmd, append([]string{"-r", refresh}, a...)...)
		x.Pty, x.Screen, x.Tty = true, tm, &Tty{}
		written := map[string]int64{}
		nth := map[string]int64{}
		heldN := 0
		summary := false
		cancel := make(chan struct{}, 1)
		// hold keeps a call back until the screen satisfies check
		hold := func(when string, check func(s *uiScreen) string) Action {
			return Action{Wait: func() {
				var rows []string
				var hl []int
				why := ""
				for t0 := time.Now(); time.Since(t0) < 15*time.Second; time.Sleep(4 * time.Millisecond) {
					rows, hl = tm.Now()
					var s *uiScreen
					if s, why = readScreen(rows, hl); why == "" {
						if why = m.frame(s, nil); why == "" {
							why = check(s)
						}
					}
					if why == "" {
						return
					}
				}
				report("held:"+cmd, when+": "+why, rows)
			}}
		}
		x.Sup = &Supervise{Handle: func(ev *SysEvent) Action {
			if ev.Name == "write" && ev.Fd == 1 && !summary {
				summary = true
				return Action{Wait: func() {
					why := ""
					for t0 := time.Now(); time.Since(t0) < 10*time.Second; time.Sleep(3 * time.Millisecond) {
						if why = tm.Left(); why == "" {
							break
						}
					}
					if why == "" {
						now, ok := x.Tty.Modes()
						if ok && now != x.Tty.Before {
							why = fmt.Sprintf("the terminal settings are %x, they were %x", now[:36], x.Tty.Before[:36])
						}
						if ok {
							k.R.Count("terminals_compared", 1)
						}
					}
					if why != "" {
						rows, _ := tm.Now()
						report("left:"+cmd, "when the summary is printed "+why, rows)
					}
				}}
			}
			if strings.HasPrefix(ev.Name, "unlink") && ev.Path == k.P("out.loc.tmp") && !press && !noise {
				// all locations were copied
				total := int64(0)
				for _, e := range x.Sup.Events {
					if e.Name == "write" && e.Path == ev.Path {
						total += e.Size
					}
				}
				heldN++
				return hold(fmt.Sprintf("while the removal of %s is held back", filepath.Base(ev.Path)), func(s *uiScreen) string {
					if s.Copied != total || s.Total != total {
						return fmt.Sprintf("the writer is shown as %q %d/%d, it copied all %d bytes", s.Writer, s.Copied, s.Total, total)
					}
					return m.over(s)
				})
			}
			if ev.Name != "write" || !strings.HasPrefix(ev.Path, k.P("out")) {
				return Action{}
			}
			if noise && ev.Path == calm.path && ev.K == calm.k {
				atomic.StoreInt32(&quiet, 1)
				return Action{Delay: 200 * time.Millisecond}
			}
			if press && ev.Path == fatal.path && ev.K == fatal.k {
				cancel <- struct{}{}
				return Action{Delay: 100 * time.Millisecond}
			}
			before, n := written[ev.Path], nth[ev.Path]
			written[ev.Path] += ev.Size
			nth[ev.Path]++
			if !holds[write{ev.Path, ev.K, ev.Size}] {
				return Action{}
			}
			base := filepath.Base(ev.Path)
			if !tm.InUse() && (cmd == "relindex" && !strings.Contains(base, ".pass_000")) {
				return Action{} // the display is over
			}
			check := m.expect(base, before, n, ev.Size, x.Sup.Events, f, k)
			if check == nil {
				return Action{}
			}
			heldN++
			return hold(fmt.Sprintf("while write #%d (%d bytes) to %s is held back", ev.K, ev.Size, base), check)
		}}
		if press {
			x.OnPty = func(send func([]byte), done <-chan struct{}) {
				select {
				case <-cancel:
					send([]byte{3})
				case <-done:
				}
			}
		}
		keyed, dumped := 0, false
		if noise {
			seed := k.Rng.Uint64()
			x.OnPty = func(send func([]byte), done <-chan struct{}) {
				r := NewRng(seed, 77)
				lone := 0
				for {
					select {
					case <-done:
						return
					case <-time.After(time.Duration(r.IntN(4000)) * time.Microsecond):
					}
					if atomic.LoadInt32(&quiet) != 0 {
						return
					}
					if !tm.InUse() {
						continue
					}
					switch r.IntN(6) {
					case 0:
						send([]byte{12}) // redraw
					case 1:
						if !dumped && r.IntN(8) == 0 {
							dumped = true
							send([]byte{4})
						}
					case 2:
						atomic.StoreInt32(&resized, 1)
						cols, rows := 120+r.IntN(80), 30+r.IntN(30)
						tm.Resize(cols, rows)
						x.Tty.Size(cols, rows)
					case 3:
						ks := []string{"\x1b[A", "\x1b[B", "\x1bOP", "\x1b[5~", "\x1b[H", "\x1b", "\t", "\r", "\x7f", "\x1bc"}
						send([]byte(ks[r.IntN(len(ks))]))
					case 4:
						if r.IntN(2) == 0 { // any other key with Ctrl
							ctl := []byte{0, 2, 5, 6, 7, 8, 11, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 28, 29, 30, 31}
							send(ctl[r.IntN(len(ctl)):][:1])
						} else if lone < 2 {
							lone++
							send([]byte{27})
							select { // alone it is the escape key, followed by something it is a part of that
							case <-done:
								return
							case <-time.After(120 * time.Millisecond):
							}
						}
					default:
						send([]byte{byte(32 + r.IntN(95))})
					}
					keyed++
				}
			}
		}
		r := k.Go(x)
		where := k.Lines[len(k.Lines)-1]
		if press {
			where += fmt.Sprintf(" cancelled at write #%d to %s", fatal.k, filepath.Base(fatal.path))
		}
		if finiHang(r) {
			k.Violate("tcell-fini", fmt.Sprintf("%s: hung in the shutdown of the display, keys sent: %d", where, keyed))
			return
		}
		if bad != "" {
			k.Violate(badKey, where+": "+bad)
			return
		}
		if !r.OK() {
			k.Violate("fails:"+cmd, fmt.Sprintf("%s (keys sent: %d): %s", where, keyed, r.Brief()))
			return
		}
		if len(r.Stderr) > 0 && !dumped {
			k.Violate("stderr:"+cmd, fmt.Sprintf("%s: wrote to stderr: %s", where, Trunc(string(r.Stderr), 200)))
			return
		}
		if got := k.Read("out"); press {
			if !bytes.Equal(got, full) {
				k.R.Count("cancelled_runs", 1)
			}
		} else if !bytes.Equal(got, full) {
			k.files["without-display"] = full
			k.Violate("output:"+cmd, fmt.Sprintf("%s (keys sent: %d): the output differs from the one of the run without a display: %s", where, keyed, DiffBytes(full, got)))
			return
		}
		if !summary || !bytes.Contains(r.Stdout, []byte("Total run time")) {
			k.Violate("summary:"+cmd, fmt.Sprintf("%s: no summary was printed: %q", where, Trunc(string(r.Stdout), 200)))
			return
		}
		if working >= 20 && consistent*2 < working {
			k.Violate("ways:"+cmd, fmt.Sprintf("%s: of %d lines of working workers only %d show a way of the block's ways", where, working, consistent))
			return
		}
		var unknown []string
		for u := range tm.Unknown {
			unknown = append(unknown, u)
		}
		sort.Strings(unknown)
		if len(unknown) > 0 {
			k.Fail("the terminal does not know %q", unknown)
		}
		k.R.Count("frames", int64(frames))
		k.R.Count("held_screens", int64(heldN))
		k.R.Count("keys_sent", int64(keyed))
		k.R.Count("working_lines", int64(working))
		k.R.Eval(Hash(k.I, where))
		if k.I < 6 {
			k.R.Sample(map[string]any{"case": k.I, "command": where, "frames": frames, "held": heldN, "keys": keyed})
		}
	})
}

// uiShutdown runs the commands with keys arriving at the moment the display is
// shut down.
func uiShutdown(c *Ctx) {
	c.Each("shutdown", c.N(6, 60), func(k *Case) {
		cmd := uiCmds[k.I%len(uiCmds)]
		o := DefaultGen()
		f := Gen(k.Rng, o)
		k.Input("in.pbf", f)
		k.Write("n.idx", NodeIdxBytes(f.LocMap()))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		a := k.uiArgs(cmd)
		x := k.Cmd(cmd, append([]string{"-r", "1h"}, a...)...)
		tm := NewTerm(160, 50)
		x.Pty, x.Screen, x.Tty, x.Idle = true, tm, &Tty{}, 6*time.Second
		var key = make(chan struct{}, 1)
		ended := false
		x.Sup = &Supervise{Handle: func(ev *SysEvent) Action {
			// everything written to the terminal from the moment the work is
			// over is part of the shutdown; the first such call is held
			if ev.Name == "close" && ev.Path == k.P("in.pbf") {
				ended = true
			}
			if ended && ev.Name == "write" && ev.Path == "/dev/tty" {
				ended = false
				key <- struct{}{}
				return Action{Delay: 150 * time.Millisecond}
			}
			return Action{}
		}}
		x.OnPty = func(send func([]byte), done <-chan struct{}) {
			select {
			case <-key:
				send([]byte("x"))
			case <-done:
			}
		}
		r := k.Go(x)
		where := k.Lines[len(k.Lines)-1]
		switch {
		case finiHang(r):
			k.Violate("tcell-fini", fmt.Sprintf("%s: a key pressed while the display is shut down: hung", where))
		case !r.OK():
			k.Violate("shutdown:"+cmd, fmt.Sprintf("%s: a key pressed while the display is shut down: %s", where, r.Brief()))
		}
		k.R.Count("keys_at_shutdown", 1)
		k.R.Eval(Hash(k.I, where))
	})
}

const stageTries = 48

// uiStages runs the commands on blocks so large that every stage of the work on
// one lasts for several refreshes, and asks that all of them are shown.
func uiStages(c *Ctx) {
	c.Each("stages", len(uiCmds), func(k *Case) {
		cmd := uiCmds[k.I%len(uiCmds)]
		o := DefaultGen()
		o.Nodes, o.Ways, o.Rels, o.BlockMax, o.MaxRefs, o.NodeTags, o.IDStyle = 240000, 70000, 60000, 40000, 60, 90, -1
		f := Gen(k.Rng, o)
		kinds := func() (n [3]int) { // blocks with nodes, ways, relations
			for _, b := range f.Blocks {
				var has [3]bool
				for _, g := range b.Groups {
					has[0] = has[0] || g.Dense != nil
					has[1] = has[1] || len(g.Ways) > 0
					has[2] = has[2] || len(g.Rels) > 0
				}
				for i, h := range has {
					if h {
						n[i]++
					}
				}
			}
			return
		}
		for try := 0; try < 40; try++ {
			n := kinds()
			if len(f.WayMap()) >= 20000 && len(f.LocMap()) >= 100000 && n[0] >= 3 && n[1] >= 3 && n[2] >= 3 {
				break
			}
			// the ids ran out, or there is not one block to wait for after another
			f = Gen(k.Rng, o)
		}
		k.Input("in.pbf", f)
		k.Write("n.idx", NodeIdxBytes(f.LocMap()))
		k.Write("w.idx", WayIdxBytes(f.WayMap(), 3))
		a := []string{"-r", "1ms", "-i", "in.pbf", "-o", "out", "-w", "6"}
		switch cmd {
		case "rewritenodes":
			a = append(a, "-x", "n.idx")
		case "relindex":
			a = append(a, "-x", "w.idx")
		}
		missing := map[string]bool{}
		for _, s := range map[string][]string{
			"decompress":   {"decompressing", "encoding", "sending"},
			"nodeindex":    {"decoding", "processing", "sending"},
			"relindex":     {"decoding", "processing", "sending"},
			"rewritenodes": {"decoding", "working", "sending"},
			"tagfilter":    {"decoding", "processing", "encoding", "sending"},
			"wayindex":     {"decoding", "processing", "sending"},
		}[cmd] {
			missing["worker "+s] = true
		}
		var ways []int64
		working, right := 0, 0
		for _, b := range f.Blocks {
			n := int64(0)
			for _, g := range b.Groups {
				n += int64(len(g.Ways))
			}
			ways = append(ways, n)
		}
		if cmd == "rewritenodes" {
			missing["worker between two ways"] = true
		}
		missing["file sending"], missing["writer waiting for block"], missing["writer waiting for block after a block"] = true, true, true
		for try := 0; try < stageTries && len(missing) > 0; try++ {
			tm := NewTerm(160, 50)
			wrote := false
			tm.Frame = func(rows []string, hl []int) {
				s, why := readScreen(rows, hl)
				if why != "" {
					return // judged elsewhere
				}
				if strings.HasPrefix(s.Writer, "writing") {
					wrote = true
				} else if wrote {
					delete(missing, "writer "+s.Writer+" after a block")
				}
				for _, l := range s.Workers {
					if l.State == "working" && l.Block >= 0 && l.Block < int64(len(ways)) {
						working++
						if f := 160 * float64(l.Way) / float64(l.Ways); l.Ways == ways[l.Block] && l.Way >= 0 && l.Way <= l.Ways && float64(l.HL) >= f-1 && float64(l.HL) <= f+1 {
							right++
							if l.Way > 0 && l.Way < l.Ways {
								delete(missing, "worker between two ways")
							}
						}
					}
					delete(missing, "worker "+l.State)
				}
				delete(missing, "file "+s.State)
				delete(missing, "writer "+s.Writer)
			}
			// six workers taking turns on one processor: a frame finds them
			// in the middle of all there is to do; or one worker, so that the
			// writer waits for every block
			args := append([]string{}, a...)
			if try%4 == 1 {
				for i := range args {
					if args[i] == "-w" {
						args[i+1] = "1"
					}
				}
			}
			x := k.Cmd(cmd, args...)
			x.Pty, x.Screen, x.Tty = true, tm, &Tty{}
			if try%2 == 0 {
				x.Env = append(x.Env, "GOMAXPROCS=1")
			}
			held := false
			x.Sup = &Supervise{Handle: func(ev *SysEvent) Action {
				if ev.Name != "write" || !strings.HasPrefix(ev.Path, k.P("out")) || held {
					return Action{}
				}
				held = true // the others get to the point of sending
				return Action{Delay: 60 * time.Millisecond}
			}}
			if r := k.Go(x); !r.OK() {
				k.Violate("fails:"+cmd, fmt.Sprintf("%s failed: %s", k.Lines[len(k.Lines)-1], r.Brief()))
				return
			}
			_ = os.Remove(k.P("out"))
			k.R.Count("stage_runs", 1)
		}
		if len(missing) > 0 {
			var l []string
			for s := range missing {
				l = append(l, strconv.Quote(s))
			}
			sort.Strings(l)
			k.Violate("stages:"+cmd, fmt.Sprintf("%s: never shown in %d runs: %s", k.Lines[len(k.Lines)-1], stageTries, strings.Join(l, ", ")))
		}
		if right*2 < working {
			k.Violate("ways:"+cmd, fmt.Sprintf("%s: of %d lines of working workers only %d show a way of the block's ways and highlight as much", k.Lines[len(k.Lines)-1], working, right))
		}
		k.R.Count("working_lines", int64(working))
		k.R.Eval(Hash("stages", cmd))
	})
}

// expect makes the check for a held write: before bytes and n writes went to
// this output already.  nil: no rule for this write.
func (m *uiModel) expect(base string, before, n, size int64, evs []SysEvent, f *File, k *Case) func(s *uiScreen) string {
	switch m.cmd {
	case "decompress", "tagfilter", "rewritenodes":
		pass := 0
		for i, o := range m.outputs {
			if o == base {
				pass = i
			}
		}
		// which block: count the blocks already complete in what was written
		j := m.blockAt(filepath.Join(k.Dir, base), before)
		if j < 0 {
			return nil
		}
		if m.cmd == "tagfilter" { // skip what is dropped
			for i := range m.filler {
				if m.filler[i] {
					continue
				}
				if j == 0 {
					j = int64(i)
					break
				}
				j--
			}
		}
		return func(s *uiScreen) string { return m.held(s, pass, j) }
	case "relindex":
		if !strings.Contains(base, ".pass_000") && m.outputs[0] != base {
			return nil
		}
		rel, err := relRecords(filepath.Join(k.Dir, base))
		if err != nil {
			return nil
		}
		j := int64(-1)
		for i, r := range m.rels {
			if rel < r {
				j = int64(i)
				break
			}
			rel -= r
		}
		if size == 0 || j < 0 {
			return nil
		}
		return func(s *uiScreen) string { return m.held(s, 0, j) }
	case "nodeindex", "wayindex":
		loc := strings.HasSuffix(base, ".loc.tmp")
		copying := false
		total, copied := int64(0), int64(0)
		for _, e := range evs {
			if strings.HasSuffix(e.Path, ".loc.tmp") && e.Name == "lseek" {
				copying = true
				copied = 0
				continue
			}
			if e.Name != "write" || !strings.HasPrefix(e.Path, k.P("out")) {
				continue
			}
			if strings.HasSuffix(e.Path, ".loc.tmp") {
				total += e.Size
			} else {
				copied += e.Size
			}
		}
		copied -= size
		switch {
		case copying && !loc && copied == total:
			return func(s *uiScreen) string {
				if s.Writer != "finalizing index" {
					return "the writer is shown as " + strconv.Quote(s.Writer) + " while it finalizes the index"
				}
				return m.over(s)
			}
		case copying && !loc:
			return func(s *uiScreen) string {
				if s.Copied != copied || s.Total != total {
					return fmt.Sprintf("the writer is shown as %q %d/%d, it copied %d of %d bytes", s.Writer, s.Copied, s.Total, copied, total)
				}
				fr := float64(m.cols) * float64(copied) / float64(total)
				if float64(s.HLCopy) > fr+1 || float64(s.HLCopy) < fr-1 {
					return fmt.Sprintf("%d of %d cells are highlighted at %d/%d", s.HLCopy, m.cols, copied, total)
				}
				return m.over(s)
			}
		case loc && m.cmd == "nodeindex":
			return func(s *uiScreen) string {
				if s.Writer != "writing locations" {
					return "the writer is shown as " + strconv.Quote(s.Writer) + " while it writes locations"
				}
				return m.held(s, 0, -1)
			}
		case n == 0:
			return nil
		case !loc:
			j := m.indexedBlock(filepath.Join(k.Dir, base), before)
			if j < 0 || size == 0 {
				return nil
			}
			return func(s *uiScreen) string { return m.held(s, 0, j) }
		}
	}
	return nil
}

// indexedBlock is the block whose entries come next in an index of which this
// many bytes are written.
func (m *uiModel) indexedBlock(path string, size int64) int64 {
	have := int64(0)
	if m.cmd == "wayindex" {
		have = (size - 16) / 8
		for i, n := range m.ways {
			if have < n {
				return int64(i)
			}
			have -= n
		}
		return -1
	}
	if size > 16 {
		b, err := os.ReadFile(path)
		if err != nil || int64(len(b)) < size {
			return -1
		}
		e := b[size-16 : size]
		first, count := binary.LittleEndian.Uint64(e), binary.LittleEndian.Uint64(e[8:])&(1<<24-1)
		have = int64(first + count - 1)
	}
	for i, l := range m.last {
		if l > have {
			return int64(i)
		}
	}
	return -1
}

// over judges the time after all blocks have been handled.
func (m *uiModel) over(s *uiScreen) string {
	if s.State != "shutting down" {
		return "the file line says " + strconv.Quote(s.State) + " when all blocks are done"
	}
	if len(s.Workers) != 0 {
		return fmt.Sprintf("%d workers are shown when all blocks are done", len(s.Workers))
	}
	return ""
}

// blockAt is the number of blocks that are complete in the file.
func (m *uiModel) blockAt(path string, size int64) int64 {
	b, err := os.ReadFile(path)
	if err != nil || int64(len(b)) < size {
		return -1
	}
	b = b[:size]
	for n := int64(0); ; n++ {
		if len(b) < 4 {
			return n
		}
		hl := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		if len(b) < 4+hl {
			return n
		}
		fs, err := Fields(b[4 : 4+hl])
		if err != nil {
			return -1
		}
		sz := 0
		for _, f := range fs {
			if f.Num == 3 {
				sz = int(f.Int)
			}
		}
		if len(b) < 4+hl+sz {
			return n
		}
		b = b[4+hl+sz:]
	}
}

// relRecords counts the records of a first intermediate relation file.
func relRecords(path string) (int64, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0, err
	}
	n := int64(0)
	for i := 0; i+16 <= len(b); n++ {
		c := int64(0)
		for j := 7; j >= 0; j-- {
			c = c<<8 | int64(b[i+8+j])
		}
		i += 16 + int(c)*8
	}
	return n, nil
}
