package lib

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// System call supervision without ptrace: the child installs a seccomp filter
// whose listed calls are reported to us (SECCOMP_RET_USER_NOTIF) before they
// happen.  We log them, let them continue, fail them with an errno, or kill
// the process at that very point.

var sysNames = map[int]string{
	0: "read", 1: "write", 3: "close", 8: "lseek", 18: "pwrite64", 20: "writev", 40: "sendfile", 74: "fsync", 75: "fdatasync",
	76: "truncate", 77: "ftruncate", 82: "rename", 83: "mkdir", 84: "rmdir", 86: "link", 87: "unlink", 88: "symlink",
	257: "openat", 258: "mkdirat", 263: "unlinkat", 264: "renameat", 265: "linkat", 266: "symlinkat", 268: "fchmodat", 285: "fallocate",
	9: "mmap", 11: "munmap", 316: "renameat2", 326: "copy_file_range", 2: "open", 85: "creat",
}

type SysEvent struct {
	Seq   int
	Nr    int
	Name  string
	Path  string // of the descriptor or the path argument
	Path2 string
	Fd    int
	Size  int64
	Flags int64
	Pid   int
	K     int // how many events with the same Name and Path came before
}

type Action struct {
	Errno int // fail with this errno
	Kill  bool
	Delay time.Duration
	Wait  func() // hold the call back until this returns
}

type Supervise struct {
	Reads  bool // also report read()
	Maps   bool // also report mmap() and munmap()
	Handle func(ev *SysEvent) Action
	Events []SysEvent
	seen   map[string]int
	cwd    string
	resp   sync.WaitGroup
}

// Kinds is the set of optional calls to report.
func (s *Supervise) Kinds() int {
	k := 0
	if s.Reads {
		k |= 1
	}
	if s.Maps {
		k |= 2
	}
	return k
}

const supEnv = "VH_EXEC_SPEC"

// ExecHelper is the child side: "vh __exec fsize cpu seccomp reads path args...".
func ExecHelper(args []string) {
	runtime.LockOSThread()
	fsize, _ := strconv.ParseInt(args[0], 10, 64)
	cpu, _ := strconv.ParseInt(args[1], 10, 64)
	if fsize >= 0 {
		lim := syscall.Rlimit{Cur: uint64(fsize), Max: uint64(fsize)}
		if err := syscall.Setrlimit(1, &lim); err != nil { // RLIMIT_FSIZE
			fail("rlimit fsize", err)
		}
	}
	if cpu > 0 {
		lim := syscall.Rlimit{Cur: uint64(cpu), Max: uint64(cpu)}
		if err := syscall.Setrlimit(0, &lim); err != nil { // RLIMIT_CPU
			fail("rlimit cpu", err)
		}
	}
	nofile := syscall.Rlimit{Cur: 1024, Max: 1024}
	_ = syscall.Setrlimit(7, &nofile)
	core := syscall.Rlimit{}
	_ = syscall.Setrlimit(4, &core)
	if args[2] == "1" {
		kinds, _ := strconv.Atoi(args[3])
		if err := installFilter(kinds); err != nil {
			fail("seccomp", err)
		}
	}
	err := syscall.Exec(args[4], args[4:], os.Environ())
	fail("exec "+args[4], err)
}

func fail(what string, err error) {
	fmt.Fprintf(os.Stderr, "VH-EXEC-FAILED %s: %v\n", what, err)
	os.Exit(119)
}

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

func installFilter(kinds int) error {
	var nrs []int
	for nr := range sysNames {
		if nr == 0 && kinds&1 == 0 || (nr == 9 || nr == 11) && kinds&2 == 0 {
			continue
		}
		nrs = append(nrs, nr)
	}
	prog := []sockFilter{
		{0x20, 0, 0, 4},          // ld arch
		{0x15, 1, 0, 0xC000003E}, // x86-64?
		{0x06, 0, 0, 0x7fff0000}, // no: allow
		{0x20, 0, 0, 0},          // ld nr
	}
	for i, nr := range nrs {
		prog = append(prog, sockFilter{0x15, uint8(len(nrs) - i), 0, uint32(nr)})
	}
	prog = append(prog, sockFilter{0x06, 0, 0, 0x7fff0000}, sockFilter{0x06, 0, 0, 0x7fc00000})
	type fprog struct {
		n uint16
		_ [6]byte
		p *sockFilter
	}
	fp := fprog{n: uint16(len(prog)), p: &prog[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return e
	}
	// Prepare everything before the filter is on.
	syscall.CloseOnExec(3)
	rights := syscall.UnixRights(0)
	// Once a call is reported only a deadly signal may interrupt the wait: the
	// runtime's preemption signals would have it restarted, and reported twice.
	r, _, e := syscall.RawSyscall(317, 1, 1<<3|1<<5, uintptr(unsafe.Pointer(&fp)))
	if e == syscall.EINVAL {
		r, _, e = syscall.RawSyscall(317, 1, 1<<3, uintptr(unsafe.Pointer(&fp)))
	}
	if e != 0 {
		return e
	}
	binary.LittleEndian.PutUint32(rights[16:], uint32(r))
	return syscall.Sendmsg(3, []byte{1}, rights, nil, 0)
}

type notif struct {
	id    uint64
	pid   uint32
	flags uint32
	nr    int32
	arch  uint32
	ip    uint64
	args  [6]uint64
}

type notifResp struct {
	id    uint64
	val   int64
	err   int32
	flags uint32
}

func readCString(pid int, addr uint64) string {
	if addr == 0 {
		return ""
	}
	f, err := os.Open(fmt.Sprintf("/proc/%d/mem", pid))
	if err != nil {
		return "?"
	}
	defer f.Close()
	buf := make([]byte, 4096)
	n, _ := f.ReadAt(buf[:4096-int(addr%4096)], int64(addr))
	if n <= 0 {
		return "?"
	}
	s := string(buf[:n])
	if i := strings.IndexByte(s, 0); i >= 0 {
		return s[:i]
	}
	n2, _ := f.ReadAt(buf, int64(addr)+int64(n))
	s += string(buf[:n2])
	if i := strings.IndexByte(s, 0); i >= 0 {
		return s[:i]
	}
	return s
}

// mappedPath is the file mapped at an address.
func mappedPath(pid int, addr uint64) string {
	for _, l := range lines(fmt.Sprintf("/proc/%d/maps", pid)) {
		var lo, hi uint64
		if n, _ := fmt.Sscanf(l, "%x-%x", &lo, &hi); n == 2 && lo <= addr && addr < hi {
			if i := strings.IndexByte(l, '/'); i >= 0 {
				return l[i:]
			}
			return ""
		}
	}
	return ""
}

func (s *Supervise) abs(p string) string {
	if p == "" || strings.HasPrefix(p, "/") {
		return p
	}
	return s.cwd + "/" + p
}

func (s *Supervise) describe(n *notif) *SysEvent {
	ev := &SysEvent{Seq: len(s.Events), Nr: int(n.nr), Name: sysNames[int(n.nr)], Pid: int(n.pid), Fd: -1}
	fd := func(i int) {
		ev.Fd = int(int32(n.args[i]))
		ev.Path, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", n.pid, ev.Fd))
	}
	switch ev.Name {
	case "read", "write", "pwrite64", "writev":
		fd(0)
		ev.Size = int64(n.args[2])
	case "close", "lseek", "fsync", "fdatasync":
		fd(0)
	case "mmap":
		if fd4 := int32(n.args[4]); fd4 >= 0 && n.args[3]&0x20 == 0 {
			fd(4)
		}
		ev.Size = int64(n.args[1])
	case "munmap":
		ev.Path = mappedPath(int(n.pid), n.args[0])
		ev.Size = int64(n.args[1])
	case "ftruncate", "fallocate":
		fd(0)
		ev.Size = int64(n.args[1])
	case "sendfile":
		fd(0)
		ev.Size = int64(n.args[3])
	case "copy_file_range":
		fd(2)
		ev.Size = int64(n.args[4])
	case "openat":
		ev.Path = s.abs(readCString(int(n.pid), n.args[1]))
		ev.Flags = int64(n.args[2])
	case "open", "creat":
		ev.Path = s.abs(readCString(int(n.pid), n.args[0]))
		ev.Flags = int64(n.args[1])
		if ev.Name == "creat" {
			ev.Flags = syscall.O_CREAT | syscall.O_WRONLY | syscall.O_TRUNC
		}
	case "unlinkat", "mkdirat", "fchmodat":
		ev.Path = s.abs(readCString(int(n.pid), n.args[1]))
	case "unlink", "mkdir", "rmdir", "truncate":
		ev.Path = s.abs(readCString(int(n.pid), n.args[0]))
	case "rename", "link", "symlink":
		ev.Path = s.abs(readCString(int(n.pid), n.args[0]))
		ev.Path2 = s.abs(readCString(int(n.pid), n.args[1]))
	case "renameat", "renameat2", "linkat":
		ev.Path = s.abs(readCString(int(n.pid), n.args[1]))
		ev.Path2 = s.abs(readCString(int(n.pid), n.args[3]))
	case "symlinkat":
		ev.Path = s.abs(readCString(int(n.pid), n.args[0]))
		ev.Path2 = s.abs(readCString(int(n.pid), n.args[2]))
	}
	key := ev.Name + "\x00" + ev.Path
	ev.K = s.seen[key]
	s.seen[key]++
	return ev
}

// loop serves notifications until the listener hangs up.
func (s *Supervise) loop(fd int, kill func()) {
	defer syscall.Close(fd)
	defer s.resp.Wait()
	type pollfd struct {
		fd      int32
		events  int16
		revents int16
	}
	for {
		p := pollfd{fd: int32(fd), events: 1}
		r, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p)), 1, ^uintptr(0))
		if e == syscall.EINTR {
			continue
		}
		if e != 0 || int(r) <= 0 || p.revents&1 == 0 {
			return
		}
		var n notif
		_, _, e = syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xC0502100, uintptr(unsafe.Pointer(&n)))
		if e == syscall.EINTR || e == syscall.ENOENT {
			continue
		}
		if e != 0 {
			return
		}
		ev := s.describe(&n)
		s.Events = append(s.Events, *ev)
		var a Action
		if s.Handle != nil {
			a = s.Handle(ev)
		}
		if a.Kill {
			kill()
			continue
		}
		resp := notifResp{id: n.id}
		if a.Errno != 0 {
			resp.err = -int32(a.Errno)
		} else {
			resp.flags = 1 // continue
		}
		if a.Delay > 0 || a.Wait != nil {
			s.resp.Add(1)
			go func() {
				defer s.resp.Done()
				time.Sleep(a.Delay)
				if a.Wait != nil {
					a.Wait()
				}
				syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xC0182101, uintptr(unsafe.Pointer(&resp)))
			}()
			continue
		}
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xC0182101, uintptr(unsafe.Pointer(&resp)))
	}
}
