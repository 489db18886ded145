package lib

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
)

// Helpers for the driver programs in inmod.

type Drv struct {
	*Result
	Rng      *Rng
	Seed     uint64
	Thorough bool
	Dir      string

	mu    sync.Mutex
	noteF string
	noteA []any
}

// Note remembers the call about to be made, for the report should it panic.
func (d *Drv) Note(format string, a ...any) {
	d.mu.Lock()
	d.noteF, d.noteA = format, a
	d.mu.Unlock()
}

// NoteNow writes it out at once, for calls that may hang or crash elsewhere.
func (d *Drv) NoteNow(format string, a ...any) {
	d.Note(format, a...)
	_ = os.WriteFile(d.Dir+"/case", []byte(fmt.Sprintf(format, a...)), 0o644)
}

func (d *Drv) N(quick, thorough int) int {
	if d.Thorough {
		return thorough
	}
	return quick
}

// Bad reports a violation; key names the kind.
func (d *Drv) Bad(key, format string, a ...any) {
	d.Violate(key, fmt.Sprintf(format, a...), nil, nil)
}

// Refused runs f and tells whether it panicked.
func Refused(f func()) (refused bool, what any) {
	defer func() {
		if e := recover(); e != nil {
			refused, what = true, e
		}
	}()
	f()
	return
}

func GiveUp(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(77)
}

// DrvMain runs a driver body and writes its result.
func DrvMain(f func(d *Drv)) {
	seed, _ := strconv.ParseUint(os.Getenv("DRV_SEED"), 10, 64)
	prop := os.Getenv("DRV_PROP")
	d := &Drv{Result: NewResult(prop), Seed: seed, Rng: NewRng(seed, StrStream(prop), StrStream(os.Args[0])), Thorough: os.Getenv("DRV_TIER") == "thorough", Dir: os.Getenv("DRV_DIR")}
	for _, a := range os.Args[1:] {
		if len(a) > 5 && a[:5] == "seed=" {
			d.Rng = NewRng(seed, StrStream(prop), StrStream(a))
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if d.noteF != "" {
					_ = os.WriteFile(d.Dir+"/case", []byte(fmt.Sprintf(d.noteF, d.noteA...)), 0o644)
				}
				panic(e)
			}
		}()
		f(d)
	}()
	if err := d.Dump(os.Getenv("DRV_RESULT")); err != nil {
		GiveUp("%v", err)
	}
}

// Interesting draws 64-bit values around all the places where encodings
// change.
func Interesting(r *Rng) uint64 {
	switch r.IntN(6) {
	case 0:
		return uint64(r.IntN(300))
	case 1:
		return uint64(1)<<r.IntN(64) + uint64(r.IntN(5)) - 2
	case 2:
		return -(uint64(1)<<r.IntN(64) + uint64(r.IntN(5)) - 2)
	case 3:
		return r.Uint64()
	case 4:
		return ^uint64(0) - uint64(r.IntN(4))
	default:
		return r.Uint64() >> r.IntN(64)
	}
}

func lines(path string) []string {
	b, _ := os.ReadFile(path)
	return strings.Split(string(b), "\n")
}

func procLinks(dir string) []string {
	es, _ := os.ReadDir(dir)
	var out []string
	for _, e := range es {
		if l, err := os.Readlink(dir + "/" + e.Name()); err == nil && l != "/proc/"+strconv.Itoa(os.Getpid())+"/fd" {
			out = append(out, l)
		}
	}
	return out
}
