//go:build go1.22

// progress drives the progress line markup and the progress widgets, drawing
// them into a recorded view.
package main

import (
	"context"
	"fmt"
	"math"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/ui/widget"

	. "verif/lib"
)

var d *Drv

type cell struct {
	r  rune
	hl bool
}

// view records what is drawn.
type view struct {
	w, h  int
	cells map[[2]int]cell
}

func (v *view) SetContent(x, y int, ch rune, comb []rune, style tcell.Style) {
	_, _, attr := style.Decompose()
	v.cells[[2]int{x, y}] = cell{ch, attr&tcell.AttrReverse != 0}
}
func (v *view) Size() (int, int)               { return v.w, v.h }
func (v *view) Resize(x, y, width, height int) {}
func (v *view) Fill(ch rune, style tcell.Style) {
	for y := 0; y < v.h; y++ {
		for x := 0; x < v.w; x++ {
			v.SetContent(x, y, ch, nil, style)
		}
	}
}
func (v *view) Clear() { v.Fill(' ', tcell.StyleDefault) }

func (v *view) row() (text string, hl int, gaps bool) {
	ended := false
	for x := 0; x < v.w; x++ {
		c, ok := v.cells[[2]int{x, 0}]
		if !ok || c.r == 0 {
			c.r = ' '
		}
		text += string(c.r)
		if c.hl {
			if ended {
				gaps = true
			}
			hl++
		} else {
			ended = true
		}
	}
	return
}

// others are characters of one cell that take two or three bytes.
var others = []rune("éßñøžłабвгжΩλ–€│☃")

// chars is a text of n characters, each one cell wide.
func chars(r *Rng, n int) string {
	foreign := r.IntN(3) == 0
	b := make([]rune, n)
	for i := range b {
		b[i] = rune(32 + r.IntN(95))
		if foreign && r.IntN(3) == 0 {
			b[i] = others[r.IntN(len(others))]
		}
		if r.IntN(4) == 0 {
			b[i] = '%'
		}
		if r.IntN(12) == 0 {
			b[i] = rune("SNAUBd"[r.IntN(6)])
		}
	}
	return string(b)
}

func cells(s string) int { return utf8.RuneCountInString(s) }

// parse reads the markup: %% is a percent sign, %S starts and %N ends the
// highlight.
func parse(markup string) (text string, hl []bool, bad string) {
	on := false
	if !utf8.ValidString(markup) {
		return "", nil, "a character is cut in two"
	}
	m := []rune(markup)
	for i := 0; i < len(m); i++ {
		if m[i] != '%' {
			text += string(m[i])
			hl = append(hl, on)
			continue
		}
		i++
		if i == len(m) {
			return text, hl, "ends in a lone percent sign"
		}
		switch m[i] {
		case '%':
			text += "%"
			hl = append(hl, on)
		case 'S':
			on = true
		case 'N':
			on = false
		default:
			return text, hl, "style " + string(m[i-1:i+1])
		}
	}
	return
}

func judge(what, s string, w int, pct float64, text string, hl []bool) {
	want := s
	if cells(s) < w {
		want += strings.Repeat(" ", w-cells(s))
	}
	if text != want {
		d.Bad("text", "%s shows %q, want %q", what, text, want)
		return
	}
	k := 0
	for k < len(hl) && hl[k] {
		k++
	}
	for _, x := range hl[k:] {
		if x {
			d.Bad("highlight", "%s: the highlight is not one stretch from the start", what)
			return
		}
	}
	if math.IsNaN(pct) {
		if w >= 0 && k > max(w, 0) {
			d.Bad("highlight", "%s highlights %d cells", what, k)
		}
		return
	}
	p := math.Min(1, math.Max(0, pct))
	exp := float64(max(w, 0)) * p
	// never past the text itself
	lim := float64(cells(want))
	if exp > lim {
		exp = lim
	}
	if math.Abs(float64(k)-exp) > 1 || k > max(w, 0) {
		d.Bad("highlight", "%s highlights %d cells of %d, want %.2f", what, k, w, exp)
	}
}

func line(r *Rng) {
	s := chars(r, []int{0, 1, 5, 20, 60, 150}[r.IntN(6)])
	w := []int{0, 1, 2, 10, 80, 160, cells(s), cells(s) + 1, max(cells(s)-1, 0), r.IntN(300)}[r.IntN(10)]
	var pct float64
	switch r.IntN(8) {
	case 0:
		pct = 0
	case 1:
		pct = 1
	case 2:
		pct = []float64{-1, -0.001, 1.001, 17, math.Inf(1), math.Inf(-1), math.NaN(), -1e308, 1e308, math.SmallestNonzeroFloat64}[r.IntN(10)]
	case 3:
		pct = float64(r.IntN(w+2)) / float64(w+1)
	default:
		pct = r.Float64()
	}
	what := fmt.Sprintf("MarkupAsProgress(%q, %d, %v)", s, w, pct)
	d.Note("%s", what)
	m := ui.MarkupAsProgress(s, w, pct)
	text, hl, bad := parse(m)
	if bad != "" {
		d.Bad("markup", "%s is %q: %s", what, m, bad)
		return
	}
	if w == 0 {
		pct = 0
	}
	judge(what, s, w, pct, text, hl)
	// and through the display library
	if w > 0 {
		v := &view{w: w, h: 1, cells: map[[2]int]cell{}}
		t := views.NewSimpleStyledText()
		t.SetView(v)
		t.SetMarkup(m)
		t.Draw()
		row, k, gaps := v.row()
		want := string([]rune(s + strings.Repeat(" ", w))[:w])
		if row != want || gaps {
			d.Bad("drawn", "%s draws %q, want %q", what, row, want)
		} else if !math.IsNaN(pct) && math.Abs(float64(k)-math.Min(1, math.Max(0, pct))*float64(w)) > 1 {
			d.Bad("drawn", "%s draws %d highlighted cells of %d", what, k, w)
		}
	}
	d.Eval(Hash(s, fmt.Sprint(w, pct)))
	if e := ui.EscapePercent(s); strings.ReplaceAll(e, "%%", "") != strings.ReplaceAll(s, "%", "") || strings.Count(e, "%") != 2*strings.Count(s, "%") {
		d.Bad("escape", "EscapePercent(%q) is %q", s, e)
	}
}

// widgets draws the widgets in the middle of a held run.
func widgets(r *Rng, i int) {
	n := 1 + r.IntN(30)
	file, _, _ := OpaqueFile(r, n, 400)
	name := d.Dir + "/" + []string{"blocks.pbf", "a%20b%N%S.pbf", "100%", "x%", "Österreich.pbf", "карта-%S-Київ.pbf"}[r.IntN(6)]
	if err := os.WriteFile(name, file, 0o644); err != nil {
		GiveUp("%v", err)
	}
	held := make(chan uint64)
	release := make(chan bool)
	work := func(_ context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		for b := range in {
			held <- b.Index
			<-release
		}
	}
	d.NoteNow("widgets %d", i)
	pfs := pbf.ProcessFileAsync(context.Background(), name, work, nil, 1)
	pass, count := uint64(r.IntN(5)), uint64(5+r.IntN(3))
	fsw := widget.NewProcessFileStateWidget("Act%", pfs)
	pp := widget.NewPassProgress(pass, count, pfs)
	w := []int{1, 20, 80, 200}[r.IntN(4)]
	v1, v2 := &view{w: w, h: 1, cells: map[[2]int]cell{}}, &view{w: w, h: 1, cells: map[[2]int]cell{}}
	fsw.SetView(v1)
	pp.SetView(v2)
	for k := 0; k < n; k++ {
		<-held
		// The engine now waits for the worker to take the next block, or
		// soon will; take a moment where its figures stand still.
		var at, max uint64
		for try := 0; ; try++ {
			at, max = pfs.At(), pfs.Max()
			fsw.HandleEvent(ui.NewEventUpdate())
			pp.HandleEvent(ui.NewEventUpdate())
			if pfs.At() == at && pfs.CurrentState() == pbf.ProcessFileStateSendingBlock || try > 3000 {
				break
			}
			if pfs.CurrentState() == pbf.ProcessFileStateShuttingDown && try > 10 {
				break
			}
		}
		v1.Clear()
		v2.Clear()
		fsw.Draw()
		pp.Draw()
		if pfs.At() == at && max > 0 {
			pct := float64(at) / float64(max)
			row, hl, gaps := v2.row()
			if gaps || math.Abs(float64(hl)-float64(w)*((float64(pass)+pct)/float64(count))) > 1 {
				d.Bad("pass-line", "pass line %d/%d at %d/%d: %d of %d cells highlighted (%q)", pass+1, count, at, max, hl, w, row)
			}
			if pfs.CurrentState() == pbf.ProcessFileStateSendingBlock {
				row, hl, gaps = v1.row()
				if gaps || math.Abs(float64(hl)-float64(w)*pct) > 1 {
					d.Bad("file-line", "file line at %d/%d: %d of %d cells highlighted (%q)", at, max, hl, w, row)
				}
				if w > len(name)+120 && (!strings.Contains(row, name) || !strings.Contains(row, "Act%") || !strings.Contains(row, fmt.Sprintf("%d/%d", at, max))) {
					d.Bad("file-line", "file line for %q at %d/%d shows %q", name, at, max, row)
				}
			}
			d.Count("widget_readings", 1)
		}
		release <- true
	}
	pfs.Wait()
	d.Eval("")
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		r := d.Rng
		for i := 0; i < d.N(60000, 1500000) && d.NViol() == 0; i++ {
			line(r)
		}
		for i := 0; i < d.N(150, 3000) && d.NViol() == 0; i++ {
			widgets(r, i)
		}
		d.Sample(map[string]any{"markup": ui.MarkupAsProgress("50% of it", 20, 0.5)})
	})
}
