"""Overlays of the standard library that let the monitors observe and steer the code
under test from outside: they add hook variables, which do nothing until a monitor
sets them, and make lock waits count as idle in testing/synctest's bubbles (so that a
deadlock on mutexes is reported there). The code of /repo is not touched."""
import json, os, subprocess

SYSCALL_HOOK = '''
// VerifHook, if set, sees every system call that may block, and may stand in for it.
var VerifHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1 uintptr, errno Errno, handled bool)

'''

SYNC_HOOK = '''package sync

import "internal/synctest"

// VerifLock, if set, is called before a lock is taken.
var VerifLock func(inBubble bool)

func verifLock() {
	if VerifLock != nil {
		VerifLock(synctest.IsInBubble())
	}
}

// VerifInBubble reports whether the calling goroutine is in a synctest bubble.
func VerifInBubble() bool { return synctest.IsInBubble() }
'''

NET_HOOK = '''package net

import "context"

// VerifDial and VerifListen, if set, may stand in for the network.
var (
	VerifDial   func(ctx context.Context, network, address string) (Conn, error, bool)
	VerifListen func(ctx context.Context, network, address string) (Listener, error, bool)
)
'''


def sub(text, old, new, n=1):
    if text.count(old) != n:
        raise SystemExit("overlay: the Go sources differ from those this was written for: %r occurs %d times" % (old, text.count(old)))
    return text.replace(old, new)


def runtime2(t):
    return sub(t, "\twaitReasonSyncCondWait:          true,\n",
               "\twaitReasonSyncCondWait:          true,\n\twaitReasonSyncMutexLock:         true,\n"
               "\twaitReasonSyncRWMutexRLock:      true,\n\twaitReasonSyncRWMutexLock:       true,\n")


def syscall_linux(t):
    call = ("\tif VerifHook != nil {\n\t\tif r1, errno, handled := VerifHook(trap, a1, a2, a3, %s); handled {\n"
            "\t\t\treturn r1, 0, errno\n\t\t}\n\t}\n")
    for name, sig, extra in (("Syscall", "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n", "0, 0, 0"),
                             ("Syscall6", "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n", "a4, a5, a6")):
        # The hook may grow the stack, so pointer arguments have to be on the heap
        t = sub(t, "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname %s\n%s" % (name, sig),
                "//go:uintptrescapes\n//go:linkname %s\n%s%s" % (name, sig, call % extra))
    return sub(t, "func rawSyscallNoError(", SYSCALL_HOOK + "func rawSyscallNoError(")


def mutex(t):
    return sub(t, "func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tverifLock()\n")


def rwmutex(t):
    t = sub(t, "func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\tverifLock()\n")
    t = sub(t, "\trw.w.Lock()\n", "\trw.w.mu.Lock()\n")
    return sub(t, "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tverifLock()\n")


def dial(t):
    t = sub(t, "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
            "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
            "\tif VerifDial != nil {\n\t\tctx, cancel := d.dialCtx(ctx)\n\t\tdefer cancel()\n"
            "\t\tif c, err, ok := VerifDial(ctx, network, address); ok {\n\t\t\treturn c, err\n\t\t}\n\t}\n")
    return sub(t, "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
               "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n"
               "\tif VerifListen != nil {\n\t\tif l, err, ok := VerifListen(ctx, network, address); ok {\n\t\t\treturn l, err\n\t\t}\n\t}\n")


PATCHES = {
    "sync": [("runtime/runtime2.go", runtime2), ("sync/mutex.go", mutex), ("sync/rwmutex.go", rwmutex), ("sync/verif_hook.go", SYNC_HOOK)],
    "fs": [("syscall/syscall_linux.go", syscall_linux)],
    "net": [("net/dial.go", dial), ("net/verif_hook.go", NET_HOOK)],
}


def make(scratch, env, which):
    root = subprocess.run(["go", "env", "GOROOT"], env=env, cwd=scratch, capture_output=True, text=True, check=True).stdout.strip()
    d = os.path.join(scratch, "overlay")
    os.makedirs(d, exist_ok=True)
    rep = {}
    for w in which:
        for i, (name, patch) in enumerate(PATCHES[w]):
            src = os.path.join(root, "src", name)
            if isinstance(patch, str):
                text = patch
            else:
                with open(src) as f:
                    text = patch(f.read())
            dst = os.path.join(d, "%s_%d_%s" % (w, i, os.path.basename(name)))
            with open(dst, "w") as f:
                f.write(text)
            rep[src] = dst
    path = os.path.join(d, "overlay.json")
    with open(path, "w") as f:
        json.dump({"Replace": rep}, f, indent=1)
    return path


if __name__ == "__main__":
    import sys
    print(make(sys.argv[1], dict(os.environ), sys.argv[2:]))
