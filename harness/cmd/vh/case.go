package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"

	. "verif/lib"
)

// Case is one generated situation with its own directory and random stream.
type Case struct {
	*Ctx
	I     int
	Rng   *Rng
	Dir   string
	Lines []string // command lines run so far
	files map[string][]byte
	bad   bool
	Var   string // build variant of the commands
}

// Each runs cases 0..n-1 in parallel.
func (c *Ctx) Each(name string, n int, f func(k *Case)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex
	var stop any
	for w := 0; w < c.Par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					k := &Case{Ctx: c, I: i, Rng: NewRng(c.Seed, StrStream(c.Prop), StrStream(name), uint64(i)), Var: "plain", files: map[string][]byte{}}
					k.Dir = filepath.Join(c.Scratch, fmt.Sprintf("case-%s-%d", name, i))
					_ = os.MkdirAll(k.Dir, 0o755)
					defer os.RemoveAll(k.Dir)
					defer func() {
						if e := recover(); e != nil {
							if _, ok := e.(stopCase); ok {
								return
							}
							if _, ok := e.(inconclusive); !ok {
								e = fmt.Sprintf("harness panic in %s case %d: %v\n%s", name, i, e, debug.Stack())
							}
							mu.Lock()
							if stop == nil {
								stop = e
							}
							mu.Unlock()
						}
					}()
					f(k)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		mu.Lock()
		s := stop
		mu.Unlock()
		if s != nil || c.R.NViol() >= int64(c.Max) {
			break
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
	if stop != nil {
		if in, ok := stop.(inconclusive); ok {
			c.R.Unclear("%s", in.msg)
		} else {
			c.R.Unclear("%v", stop)
		}
	}
}

type stopCase struct{}

func (k *Case) Stop() { panic(stopCase{}) }

func (k *Case) P(name string) string { return filepath.Join(k.Dir, name) }

func (k *Case) Write(name string, data []byte) string {
	p := k.P(name)
	if err := os.WriteFile(p, data, 0o644); err != nil {
		k.Fail("%v", err)
	}
	return p
}

// Read returns a file's bytes, nil when it is missing.
func (k *Case) Read(name string) []byte {
	b, err := os.ReadFile(k.P(name))
	if err != nil {
		return nil
	}
	return b
}

// Cmd prepares a run of one of the commands in the case directory.
func (k *Case) Cmd(name string, args ...string) *Cmd {
	k.Lines = append(k.Lines, name+" "+strings.Join(args, " "))
	return &Cmd{Path: filepath.Join(k.CLI(k.Var), name), Args: args, Dir: k.Dir}
}

// Go runs a prepared command; helper trouble and the watchdog end the case as
// inconclusive.
func (k *Case) Go(c *Cmd) *Out {
	o := c.Run()
	k.R.Count("command_runs", 1)
	if o.Helper || o.TimedOut {
		k.R.Unclear("case %d: %s %v: %s", k.I, filepath.Base(c.Path), c.Args, o.Brief())
		k.Stop()
	}
	return o
}

// Run runs a command.
func (k *Case) Run(name string, args ...string) *Out { return k.Go(k.Cmd(name, args...)) }

// OK runs a command that must succeed on this (well-formed) input.
func (k *Case) OK(name string, args ...string) *Out {
	o := k.Run(name, args...)
	if !o.OK() {
		k.Violate("fails:"+name, fmt.Sprintf("%s %s failed on well-formed input: %s", name, strings.Join(args, " "), o.Brief()))
		k.Stop()
	}
	return o
}

// Drive runs a driver on behalf of this case, in the case directory.
func (k *Case) Drive(name, variant string, args ...string) *Out {
	k.Lines = append(k.Lines, "driver "+name+" "+strings.Join(args, " "))
	k.R.Count("driver_runs", 1)
	return k.runDriver(name, variant, fmt.Sprintf("case %d: ", k.I), map[string]string{"case": fmt.Sprint(k.I), "commands": strings.Join(k.Lines, "\n")},
		k.dirFiles, func(c *Cmd) { c.Dir = k.Dir; c.Args = args })
}

// dirFiles reads the case directory for the replay.
func (k *Case) dirFiles() map[string][]byte {
	files := map[string][]byte{}
	es, _ := os.ReadDir(k.Dir)
	total := 0
	for _, e := range es {
		if fi, err := e.Info(); err == nil && fi.Mode().IsRegular() && fi.Size() < 4<<20 && total < 12<<20 {
			b, _ := os.ReadFile(filepath.Join(k.Dir, e.Name()))
			files[e.Name()] = b
			total += len(b)
		}
	}
	for n, b := range k.files {
		files[n] = b
	}
	return files
}

// Violate reports a violation of this case together with its files.
func (k *Case) Violate(key, what string) {
	k.bad = true
	k.R.Violate(key, fmt.Sprintf("case %d: %s", k.I, what), map[string]string{
		"case": fmt.Sprint(k.I), "commands": strings.Join(k.Lines, "\n")}, k.dirFiles())
}

// Input writes a generated input file.
func (k *Case) Input(name string, f *File) []byte {
	b := f.Bytes()
	k.Write(name, b)
	return b
}

func (k *Case) clear(names ...string) {
	for _, n := range names {
		_ = os.Remove(k.P(n))
	}
}
