package lib

import (
	"strconv"
	"strings"
	"sync"
)

// Term is a small terminal: it reads what a program writes to its display and
// keeps the screen as a viewer would see it.
type Term struct {
	mu      sync.Mutex
	cols    int
	rows    int
	cell    []byte
	hl      []bool
	x, y    int
	rev     bool
	Alt     bool // the separate screen is in use
	Hidden  bool // the cursor is hidden
	modes   map[string]bool
	esc     []byte
	Unknown map[string]bool
	Frame   func(rows []string, hl []int) // at the start of every redraw, the screen before it
	Frames  int
}

func NewTerm(cols, rows int) *Term {
	t := &Term{cols: cols, rows: rows, Unknown: map[string]bool{}, modes: map[string]bool{}}
	t.cell, t.hl = make([]byte, cols*rows), make([]bool, cols*rows)
	t.clear(0, len(t.cell))
	return t
}

func (t *Term) clear(a, b int) {
	for i := a; i < b && i < len(t.cell); i++ {
		t.cell[i], t.hl[i] = ' ', false
	}
}

// Resize is what a terminal window does when its size changes: the contents
// are undefined until the program redraws.
func (t *Term) Resize(cols, rows int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.cols, t.rows = cols, rows
	t.cell, t.hl = make([]byte, cols*rows), make([]bool, cols*rows)
	t.clear(0, len(t.cell))
	t.x, t.y = 0, 0
}

func (t *Term) rowsNow() (rows []string, hl []int) {
	for y := 0; y < t.rows; y++ {
		r := strings.TrimRight(string(t.cell[y*t.cols:(y+1)*t.cols]), " ")
		n := 0
		for x := 0; x < t.cols; x++ {
			if t.hl[y*t.cols+x] {
				n++
			}
		}
		rows, hl = append(rows, r), append(hl, n)
	}
	for len(rows) > 0 && rows[len(rows)-1] == "" {
		rows, hl = rows[:len(rows)-1], hl[:len(hl)-1]
	}
	return
}

// Now is the screen at this moment: its rows, and how many cells of each are
// highlighted.
func (t *Term) Now() ([]string, []int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.rowsNow()
}

// Left describes what is not as a program must leave it, "" when all is well.
func (t *Term) Left() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	var bad []string
	if t.Alt {
		bad = append(bad, "the separate screen is still shown")
	}
	if t.Hidden {
		bad = append(bad, "the cursor is hidden")
	}
	if t.rev {
		bad = append(bad, "highlighting is still on")
	}
	for m, on := range t.modes {
		if on {
			bad = append(bad, "mode "+m+" is still on")
		}
	}
	if len(t.esc) > 0 {
		bad = append(bad, "an escape sequence is unfinished")
	}
	return strings.Join(bad, ", ")
}

// InUse tells whether the separate screen is shown.
func (t *Term) InUse() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.Alt
}

func (t *Term) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, c := range b {
		t.put(c)
	}
	return len(b), nil
}

func (t *Term) put(c byte) {
	if len(t.esc) > 0 {
		t.esc = append(t.esc, c)
		t.escape()
		return
	}
	switch {
	case c == 0x1b:
		t.esc = append(t.esc, c)
	case c == '\r':
		t.x = 0
	case c == '\n':
		if t.y < t.rows-1 {
			t.y++
		}
	case c == '\b':
		if t.x > 0 {
			t.x--
		}
	case c < 32:
	default:
		if t.x < t.cols && t.y < t.rows {
			t.cell[t.y*t.cols+t.x], t.hl[t.y*t.cols+t.x] = c, t.rev
			t.x++
		}
	}
}

func (t *Term) escape() {
	e := t.esc
	switch {
	case len(e) == 2 && (e[1] == '[' || e[1] == '(' || e[1] == ')' || e[1] == ']'):
		return
	case len(e) == 2: // ESC 7, ESC =, ESC > ...
		t.esc = nil
		switch e[1] {
		case '=':
			t.modes["keypad"] = true
		case '>':
			t.modes["keypad"] = false
		}
		return
	case e[1] == '(' || e[1] == ')':
		if len(e) == 3 {
			t.esc = nil
		}
		return
	case e[1] == ']':
		if e[len(e)-1] == 7 {
			t.esc = nil
		}
		return
	}
	last := e[len(e)-1]
	if last < 0x40 || last > 0x7e {
		return
	}
	body := string(e[2 : len(e)-1])
	t.esc = nil
	priv := strings.HasPrefix(body, "?")
	var ps []int
	for _, s := range strings.Split(strings.TrimPrefix(body, "?"), ";") {
		n, _ := strconv.Atoi(s)
		ps = append(ps, n)
	}
	one := func(i int) int {
		if i < len(ps) && ps[i] > 0 {
			return ps[i]
		}
		return 1
	}
	switch {
	case priv && (last == 'h' || last == 'l'):
		on := last == 'h'
		for _, p := range ps {
			switch p {
			case 1049, 47, 1047:
				if on != t.Alt {
					t.clear(0, len(t.cell))
				}
				t.Alt = on
			case 25:
				if !on && t.Alt && t.Frame != nil {
					r, h := t.rowsNow()
					t.Frames++
					t.Frame(r, h)
				}
				t.Hidden = !on
			case 12:
			default:
				t.modes["?"+strconv.Itoa(p)] = on
			}
		}
	case last == 'H' || last == 'f':
		t.y, t.x = min(one(0), t.rows)-1, min(one(1), t.cols)-1
	case last == 'J':
		switch ps[0] {
		case 0:
			t.clear(t.y*t.cols+t.x, len(t.cell))
		case 2:
			t.clear(0, len(t.cell))
		default:
			t.Unknown["J"+body] = true
		}
	case last == 'K':
		t.clear(t.y*t.cols+t.x, (t.y+1)*t.cols)
	case last == 'm':
		for _, p := range ps {
			switch p {
			case 0, 27:
				t.rev = false
			case 7:
				t.rev = true
			}
		}
	case last == 'A':
		t.y = max(0, t.y-one(0))
	case last == 'B':
		t.y = min(t.rows-1, t.y+one(0))
	case last == 'C':
		t.x = min(t.cols-1, t.x+one(0))
	case last == 'D':
		t.x = max(0, t.x-one(0))
	case last == 't':
	default:
		t.Unknown[string(last)+body] = true
	}
}
