// Package steer drives the hooks that tools/overlay.py adds to the standard library:
// it observes, delays and fails the file operations of the code under test, and
// spreads the moments at which goroutines take locks.
package steer

import (
	"math/rand/v2"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Op is a file operation that is about to happen.
type Op struct {
	Trap   uintptr
	Name   string
	Path   string // the file operated on
	Path2  string // the new name, for renames and links
	Mutate bool   // whether it may change the file system
	Len    int    // the number of bytes, for reads and writes
	Flags  int

	a [6]uintptr
}

// Do executes the operation.
func (op *Op) Do() (uintptr, syscall.Errno) {
	r, _, e := syscall.RawSyscall6(op.Trap, op.a[0], op.a[1], op.a[2], op.a[3], op.a[4], op.a[5])
	return r, e
}

// DoShort executes a read or write on fewer bytes.
func (op *Op) DoShort(n int) (uintptr, syscall.Errno) {
	a := op.a
	switch op.Trap {
	case sysCopyFileRange, syscall.SYS_SPLICE:
		a[4] = uintptr(n)
	case syscall.SYS_SENDFILE:
		a[3] = uintptr(n)
	default:
		a[2] = uintptr(n)
	}
	r, _, e := syscall.RawSyscall6(op.Trap, a[0], a[1], a[2], a[3], a[4], a[5])
	return r, e
}

// IsWrite reports whether the operation writes bytes.
func (op *Op) IsWrite() bool { return op.Name == "write" || op.Name == "pwrite" || op.Name == "copy" }

// Handler decides what becomes of an operation: handled is false to let it happen.
type Handler func(op *Op) (r1 uintptr, errno syscall.Errno, handled bool)

// FS is a set of paths under observation.
type FS struct {
	Root    string // operations outside are not seen, unless Outside is set
	Outside bool
	Handle  Handler
}

var current atomic.Pointer[FS]

// Observe directs file operations to fs until the returned function is called; nil
// stops observation.
func Observe(fs *FS) (stop func()) {
	old := current.Swap(fs)
	return func() { current.Store(old) }
}

// Quiet runs f unobserved.
func Quiet(f func()) {
	defer Observe(nil)()
	f()
}

const (
	sysStatx         = 332
	sysCopyFileRange = 326
	sysRenameat2     = 316
)

func init() {
	syscall.VerifHook = hook
	sync.VerifLock = lockHook
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	q := (*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p)))
	n := 0
	for *(*byte)(unsafe.Add(unsafe.Pointer(q), n)) != 0 {
		n++
	}
	return string(unsafe.Slice(q, n))
}

func rawReadlink(name string) string {
	b := append([]byte(name), 0)
	var buf [4096]byte
	atFdcwd := -100
	n, _, e := syscall.RawSyscall6(syscall.SYS_READLINKAT, uintptr(atFdcwd), uintptr(unsafe.Pointer(&b[0])), uintptr(unsafe.Pointer(&buf[0])), uintptr(len(buf)), 0, 0)
	if e != 0 {
		return ""
	}
	return string(buf[:n])
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for ; n > 0; n /= 10 {
		i--
		b[i] = byte('0' + n%10)
	}
	return string(b[i:])
}

// FdPath returns the path of an open file.
func FdPath(fd int) string { return rawReadlink("/proc/self/fd/" + itoa(fd)) }

func at(dirfd, p uintptr) string {
	s := cstr(p)
	if strings.HasPrefix(s, "/") {
		return filepath.Clean(s)
	}
	base := ""
	if int32(dirfd) == -100 {
		base = rawReadlink("/proc/self/cwd")
	} else {
		base = FdPath(int(dirfd))
	}
	if s == "" {
		return base
	}
	return filepath.Join(base, s)
}

func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1 uintptr, errno syscall.Errno, handled bool) {
	fs := current.Load()
	if fs == nil {
		return 0, 0, false
	}
	op := Op{Trap: trap, a: [6]uintptr{a1, a2, a3, a4, a5, a6}}
	switch trap {
	case syscall.SYS_OPENAT:
		op.Name, op.Path, op.Flags = "open", at(a1, a2), int(a3)
		op.Mutate = op.Flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0
		if op.Mutate {
			op.Name = "create"
		} else if op.Flags&syscall.O_ACCMODE != syscall.O_RDONLY {
			op.Name = "openw"
		}
	case syscall.SYS_READ:
		op.Name, op.Path, op.Len = "read", FdPath(int(a1)), int(a3)
	case syscall.SYS_PREAD64:
		op.Name, op.Path, op.Len = "pread", FdPath(int(a1)), int(a3)
	case syscall.SYS_WRITE:
		op.Name, op.Path, op.Len, op.Mutate = "write", FdPath(int(a1)), int(a3), true
	case syscall.SYS_PWRITE64:
		op.Name, op.Path, op.Len, op.Mutate = "pwrite", FdPath(int(a1)), int(a3), true
	case syscall.SYS_FTRUNCATE:
		op.Name, op.Path, op.Mutate = "ftruncate", FdPath(int(a1)), true
	case syscall.SYS_FALLOCATE:
		op.Name, op.Path, op.Mutate = "fallocate", FdPath(int(a1)), true
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		op.Name, op.Path = "fsync", FdPath(int(a1))
	case syscall.SYS_FCHMOD:
		op.Name, op.Path, op.Mutate = "fchmod", FdPath(int(a1)), true
	case syscall.SYS_FCHMODAT:
		op.Name, op.Path, op.Mutate = "chmod", at(a1, a2), true
	case syscall.SYS_MKDIRAT:
		op.Name, op.Path, op.Mutate = "mkdir", at(a1, a2), true
	case syscall.SYS_UNLINKAT:
		op.Name, op.Path, op.Mutate = "unlink", at(a1, a2), true
	case syscall.SYS_RENAMEAT, sysRenameat2:
		op.Name, op.Path, op.Path2, op.Mutate = "rename", at(a1, a2), at(a3, a4), true
	case syscall.SYS_LINKAT:
		op.Name, op.Path, op.Path2, op.Mutate = "link", at(a1, a2), at(a3, a4), true
	case syscall.SYS_SYMLINKAT:
		op.Name, op.Path, op.Path2, op.Mutate = "symlink", at(a2, a3), cstr(a1), true
	case syscall.SYS_TRUNCATE:
		op.Name, op.Path, op.Mutate = "truncate", at(^uintptr(99), a1), true
	case syscall.SYS_NEWFSTATAT, sysStatx:
		op.Name, op.Path = "stat", at(a1, a2)
	case syscall.SYS_FSTAT:
		op.Name, op.Path = "fstat", FdPath(int(a1))
	case syscall.SYS_GETDENTS64:
		op.Name, op.Path = "readdir", FdPath(int(a1))
	case syscall.SYS_LSEEK:
		op.Name, op.Path = "seek", FdPath(int(a1))
	case sysCopyFileRange, syscall.SYS_SPLICE:
		op.Name, op.Path, op.Path2, op.Len, op.Mutate = "copy", FdPath(int(a3)), FdPath(int(a1)), int(a5), true
	case syscall.SYS_SENDFILE:
		op.Name, op.Path, op.Path2, op.Len, op.Mutate = "copy", FdPath(int(a1)), FdPath(int(a2)), int(a4), true
	case syscall.SYS_UTIMENSAT:
		op.Name, op.Path, op.Mutate = "utimens", at(a1, a2), true
	default:
		return 0, 0, false
	}
	if !fs.Outside && !Within(op.Path, fs.Root) && (op.Path2 == "" || !Within(op.Path2, fs.Root)) {
		return 0, 0, false
	}
	return fs.Handle(&op)
}

// Within reports whether a path is root or below it.
func Within(path, root string) bool {
	return path == root || strings.HasPrefix(path, root) && len(path) > len(root) && path[len(root)] == '/'
}

// Sched spreads lock acquisitions and file operations in (virtual or real) time.
type Sched struct {
	Seed   uint64
	Real   bool // delay goroutines outside of bubbles
	FSOnly bool
	Loose  bool // hold goroutines back without any synchronization between them
	n      atomic.Uint64
}

var sched atomic.Pointer[Sched]

// Spread makes s delay goroutines until the returned function is called.
func Spread(s *Sched) (stop func()) {
	old := sched.Swap(s)
	return func() { sched.Store(old) }
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Points returns how often goroutines were held back.
func (s *Sched) Points() int { return int(s.n.Load()) }

// Delay sleeps for a pseudo-random time: in a bubble, that decides which goroutine
// goes on next, since virtual time passes only when all of them are blocked.
func (s *Sched) Delay() {
	r := mix(s.Seed + s.n.Add(1)*0x632be59bd9b4e019)
	d := time.Duration(1 + r>>8%1000)
	switch r & 15 {
	case 0, 1:
		d *= 1000
	case 2:
		d *= 100000
	case 3, 4, 5:
		return
	}
	time.Sleep(d)
}

func lockHook(inBubble bool) {
	s := sched.Load()
	if s == nil || s.FSOnly {
		return
	}
	if s.Real {
		if !inBubble {
			realDelay(8)
		}
		return
	}
	if inBubble && s.Loose {
		looseDelay()
	} else if inBubble {
		s.Delay()
	}
}

// looseDelay is Delay without what the race detector takes for synchronization.
func looseDelay() {
	d := time.Duration(1 + rand.Uint32N(1000))
	switch rand.Uint32N(16) {
	case 0, 1:
		d *= 1000
	case 2:
		d *= 100000
	case 3, 4, 5, 6, 7, 8:
		return
	}
	time.Sleep(d)
}

// realDelay must not synchronize goroutines in the race detector's eyes.
func realDelay(odds uint32) {
	if rand.Uint32N(odds) == 0 {
		time.Sleep(time.Duration(rand.Uint32N(60)) * time.Microsecond)
	}
}

// FSDelay is for handlers: it holds a file operation back.
func (s *Sched) FSDelay() {
	if s.Real {
		realDelay(4)
		return
	}
	s.Delay()
}
