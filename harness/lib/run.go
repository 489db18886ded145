package lib

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Cmd is one run of a program under test.
type Cmd struct {
	Path    string
	Args    []string
	Dir     string
	Env     []string
	FSize   int64 // -1: no limit on file sizes
	CPU     int   // seconds of CPU time; 0: default
	Sup     *Supervise
	Stdout  string // a file to print to
	Pty     bool
	OnPty   func(send func([]byte), done <-chan struct{})
	Screen  *Term // fed with what the program writes to its terminal
	Tty     *Tty  // filled in with the terminal of the run
	Timeout time.Duration
	Idle    time.Duration // how long all threads must sleep before the run counts as stuck
	NoStuck bool
	Anon    bool // watch the memory of the process's own (not of mapped files)
}

type Out struct {
	Exit     int // -1 when killed by a signal
	Signal   syscall.Signal
	Stdout   []byte
	Stderr   []byte
	Screen   []byte
	Stuck    bool // every thread asleep, no CPU progress: provably hung
	CPUOut   bool // CPU limit exhausted
	TimedOut bool // watchdog: inconclusive
	Helper   bool // the exec helper failed: inconclusive
	CPUTime  time.Duration
	MaxRSSKB int64
	AnonKB   int64 // the most seen, with Cmd.Anon
	AnonSeen int64 // samples taken
}

func (o *Out) OK() bool { return o.Exit == 0 }

// Brief describes how the run ended.
func (o *Out) Brief() string {
	s := fmt.Sprintf("exit %d", o.Exit)
	switch {
	case o.Stuck:
		s = "hung (every thread asleep without CPU progress)"
	case o.CPUOut:
		s = "CPU limit exhausted"
	case o.TimedOut:
		s = "watchdog"
	case o.Exit < 0:
		s = "signal " + o.Signal.String()
	}
	if e := strings.TrimSpace(string(o.Stderr)); e != "" {
		if len(e) > 600 {
			e = e[:600] + "..."
		}
		s += ": " + e
	}
	return s
}

const DefaultCPU = 240

// VHPath is the orchestrator binary, used as exec helper.
func VHPath() string {
	if p := os.Getenv("VH_BIN"); p != "" {
		return p
	}
	p, _ := os.Executable()
	return p
}

func procIdleSample(pid int) (asleep bool, cpu uint64) {
	asleep = true
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	if len(ts) == 0 {
		return false, 0
	}
	for _, t := range ts {
		b, err := os.ReadFile(t)
		if err != nil {
			continue
		}
		s := string(b)
		i := strings.LastIndexByte(s, ')')
		if i < 0 {
			continue
		}
		fs := strings.Fields(s[i+1:])
		if len(fs) < 13 {
			continue
		}
		if fs[0] != "S" {
			asleep = false
		}
		var u, k uint64
		fmt.Sscan(fs[11], &u)
		fmt.Sscan(fs[12], &k)
		cpu += u + k
	}
	return
}

func anonKB(pid int) int64 {
	for _, l := range lines(fmt.Sprintf("/proc/%d/status", pid)) {
		var n int64
		if k, _ := fmt.Sscanf(l, "RssAnon: %d kB", &n); k == 1 {
			return n
		}
	}
	return -1
}

func openPty() (m *os.File, sname string, err error) {
	m, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, "", err
	}
	var n, z uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&z))); e != 0 {
		return nil, "", e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, "", e
	}
	ws := [4]uint16{50, 160, 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x5414, uintptr(unsafe.Pointer(&ws)))
	return m, fmt.Sprintf("/dev/pts/%d", n), nil
}

// Tty is the terminal of a run.
type Tty struct {
	mu     sync.Mutex
	m      *os.File
	Before [60]byte // the settings the program finds
}

func (t *Tty) set(m *os.File) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.m = m
	if m != nil {
		// Not the defaults, so that putting the defaults back is noticed: no
		// flow control, no implementation-defined erase echo, another VEOF.
		b, _ := t.modes()
		b[1] &^= 4     // c_iflag: IXON off
		b[12] &^= 32   // c_lflag: ECHOK off
		b[17+4] = 0x1d // c_cc[VEOF]
		syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x5402, uintptr(unsafe.Pointer(&b)))
		t.Before, _ = t.modes()
	}
}

func (t *Tty) modes() (b [60]byte, ok bool) {
	if t.m == nil {
		return
	}
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, t.m.Fd(), 0x5401, uintptr(unsafe.Pointer(&b)))
	return b, e == 0
}

// Modes are the settings now.
func (t *Tty) Modes() ([60]byte, bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.modes()
}

// Size changes the window size; the program is told.
func (t *Tty) Size(cols, rows int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.m != nil {
		ws := [4]uint16{uint16(rows), uint16(cols), 0, 0}
		syscall.Syscall(syscall.SYS_IOCTL, t.m.Fd(), 0x5414, uintptr(unsafe.Pointer(&ws)))
	}
}

// Run runs the command to its end.
func (c *Cmd) Run() *Out {
	cpu := c.CPU
	if cpu == 0 {
		cpu = DefaultCPU
	}
	sec, reads := "0", "0"
	if c.Sup != nil {
		sec = "1"
		reads = fmt.Sprint(c.Sup.Kinds())
	}
	fs := c.FSize
	if fs == 0 {
		fs = -1
	} else if fs == -2 { // a limit of zero bytes
		fs = 0
	}
	args := append([]string{"__exec", fmt.Sprint(fs), fmt.Sprint(cpu), sec, reads, c.Path}, c.Args...)
	x := exec.Command(VHPath(), args...)
	x.Dir = c.Dir
	x.Env = append(append([]string{}, os.Environ()...), "GOTRACEBACK=all")
	x.Env = append(x.Env, c.Env...)
	var so, se bytes.Buffer
	x.Stdout, x.Stderr = &so, &se
	out := &Out{Exit: -1}
	if c.Stdout != "" {
		f, err := os.OpenFile(c.Stdout, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
		if err != nil {
			out.Helper = true
			out.Stderr = []byte("stdout: " + err.Error())
			return out
		}
		defer f.Close()
		x.Stdout = f
	}
	var screen bytes.Buffer
	var ptm, slave *os.File
	var wg sync.WaitGroup
	done := make(chan struct{})
	x.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if c.Pty {
		m, sn, err := openPty()
		if err != nil {
			out.Helper = true
			out.Stderr = []byte("pty: " + err.Error())
			return out
		}
		sl, err := os.OpenFile(sn, os.O_RDWR|syscall.O_NOCTTY, 0)
		if err != nil {
			m.Close()
			out.Helper = true
			out.Stderr = []byte("pty: " + err.Error())
			return out
		}
		ptm = m
		if c.Tty != nil {
			c.Tty.set(m)
		}
		x.Stdin = sl
		x.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
		x.Env = append(x.Env, "TERM=xterm", "LINES=50", "COLUMNS=160")
		slave = sl
	}
	var sp [2]int
	if c.Sup != nil {
		var err error
		sp, err = syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			out.Helper = true
			return out
		}
		x.ExtraFiles = []*os.File{os.NewFile(uintptr(sp[1]), "sock")}
		c.Sup.seen = map[string]int{}
		c.Sup.cwd = c.Dir
	}
	if err := x.Start(); err != nil {
		out.Helper = true
		out.Stderr = []byte("start: " + err.Error())
		return out
	}
	if slave != nil {
		slave.Close()
	}
	pid := x.Process.Pid
	killAll := func(sig syscall.Signal) { syscall.Kill(-pid, sig); syscall.Kill(pid, sig) }
	if c.Sup != nil {
		x.ExtraFiles[0].Close()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer syscall.Close(sp[0])
			buf := make([]byte, 8)
			oob := make([]byte, 64)
			n, on, _, _, err := syscall.Recvmsg(sp[0], buf, oob, 0)
			if err != nil || n == 0 || on == 0 {
				return
			}
			ms, err := syscall.ParseSocketControlMessage(oob[:on])
			if err != nil || len(ms) == 0 {
				return
			}
			fds, err := syscall.ParseUnixRights(&ms[0])
			if err != nil || len(fds) == 0 {
				return
			}
			c.Sup.loop(fds[0], func() { killAll(syscall.SIGKILL) })
		}()
	}
	if ptm != nil {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := make([]byte, 4096)
			for {
				n, err := ptm.Read(b)
				if screen.Len() < 1<<22 {
					screen.Write(b[:n])
				}
				if c.Screen != nil {
					c.Screen.Write(b[:n])
				}
				if err != nil {
					return
				}
			}
		}()
		if c.OnPty != nil {
			go c.OnPty(func(b []byte) { ptm.Write(b) }, done)
		}
	}
	if c.Anon {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-done:
					return
				case <-time.After(3 * time.Millisecond):
				}
				if n := anonKB(pid); n >= 0 {
					out.AnonKB = max(out.AnonKB, n)
					out.AnonSeen++
				}
			}
		}()
	}
	to := c.Timeout
	if to == 0 {
		to = 300 * time.Second
	}
	idle := c.Idle
	if idle == 0 {
		idle = 20 * time.Second
	}
	werr := make(chan error, 1)
	go func() { werr <- x.Wait() }()
	start := time.Now()
	tick := time.NewTicker(400 * time.Millisecond)
	defer tick.Stop()
	var idleSince time.Time
	lastCPU := uint64(0)
	idleSamples := 0
	var err error
	ended := false
	for !ended {
		select {
		case err = <-werr:
			ended = true
		case <-tick.C:
			if time.Since(start) > to && !out.TimedOut && !out.Stuck {
				out.TimedOut = true
				killAll(syscall.SIGKILL)
				continue
			}
			if out.Stuck || c.NoStuck {
				continue
			}
			s, cp := procIdleSample(pid)
			if s && cp == lastCPU {
				if idleSamples == 0 {
					idleSince = time.Now()
				}
				idleSamples++
				if idleSamples >= 30 && time.Since(idleSince) > idle {
					out.Stuck = true
					killAll(syscall.SIGQUIT)
					go func() { time.Sleep(3 * time.Second); killAll(syscall.SIGKILL) }()
				}
			} else {
				idleSamples = 0
			}
			lastCPU = cp
		}
	}
	close(done)
	wg.Wait()
	if ptm != nil {
		if c.Tty != nil {
			c.Tty.set(nil)
		}
		ptm.Close()
	}
	out.Stdout, out.Stderr, out.Screen = so.Bytes(), se.Bytes(), screen.Bytes()
	if ps := x.ProcessState; ps != nil {
		out.CPUTime = ps.UserTime() + ps.SystemTime()
		if ru, ok := ps.SysUsage().(*syscall.Rusage); ok {
			out.MaxRSSKB = ru.Maxrss
		}
		ws := ps.Sys().(syscall.WaitStatus)
		if ws.Exited() {
			out.Exit = ws.ExitStatus()
		} else if ws.Signaled() {
			out.Exit = -1
			out.Signal = ws.Signal()
			if out.Signal == syscall.SIGKILL && out.CPUTime >= time.Duration(cpu)*time.Second*9/10 {
				out.CPUOut = true
			}
		}
	} else if err != nil {
		out.Helper = true
	}
	if out.Exit == 119 && bytes.Contains(out.Stderr, []byte("VH-EXEC-FAILED")) {
		out.Helper = true
	}
	return out
}
