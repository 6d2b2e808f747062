package store

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"testing"

	"verif/harness/steer"
	"verif/harness/vk"
)

// openFiles names what this process has open within a directory.
func openFiles(dir string) (res []string) {
	steer.Quiet(func() {
		es, err := os.ReadDir("/proc/self/fd")
		must(err)
		for _, e := range es {
			if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && steer.Within(strings.TrimSuffix(l, " (deleted)"), dir) {
				res = append(res, strings.TrimPrefix(l, dir))
			}
		}
	})
	return res
}

// workFiles counts the files in the work directory.
func (w *world) workFiles() (n int, names []string) {
	steer.Quiet(func() {
		must(filepath.WalkDir(w.work, func(p string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				n++
				names = append(names, w.rel(p))
			}
			return nil
		}))
	})
	return n, names
}

// residue describes what an operation has left behind; files tells whether to look
// for files as well.
func (w *world) residue(pieces int, files bool) (sig, what string) {
	if l := openFiles(w.dir); len(l) > 0 {
		return "files left open", fmt.Sprintf("with no operation under way, these are open: %q", l)
	}
	if !files {
		return "", ""
	}
	if rawExists(filepath.Join(w.target, w.info.Name)) {
		pieces = 0
	}
	if n, names := w.workFiles(); n != pieces {
		return "temporary files left behind", fmt.Sprintf("with no operation under way, the work directory has %d files for %d pieces: %q", n, pieces, names)
	}
	return "", ""
}

func TestS12(t *testing.T) {
	r := vk.Start(t, "S12", "distinct histories (with and without failing file operations) after each operation of which the open files of the process and the files of the work directory were listed; finalizers, which close forgotten files at some time, are held off")
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	r.Cases("history", r.N(500, 30000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{zero: true})
		defer w.drop()
		defer runtime.GC()
		m := newMachine(c, w)
		m.after = func() {
			n := 0
			if !m.all() {
				n = m.count()
			}
			if sig, what := w.residue(n, len(m.log) > 0); sig != "" {
				m.fail(sig, "%s", what)
			}
			c.Evals(1)
			c.Count("looks", 1)
		}
		m.history(5+c.IntN(30), weights{put: 8, bad: 3, again: 2, reset: 3, read: 3, load: 1, oddPut: 1, oddGet: 1})
	})
	r.Cases("faults", r.N(48, 2400), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 4, multi: c.Index%2 == 0, single: c.Index%2 == 1})
		defer w.drop()
		defer runtime.GC()
		steps := script(c, w, true)
		var ops []steer.Op
		e := &exec{c: c, w: w, what: "no fault", reported: map[int]bool{}, stop: func() bool { return false }}
		stop := steer.Observe(&steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
			ops = append(ops, *op)
			return 0, 0, false
		}})
		func() { defer stop(); e.run(steps) }()
		ks := make([]int, len(ops))
		for i := range ks {
			ks[i] = i
		}
		c.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
		ks = ks[:min(len(ks), map[bool]int{false: 40, true: 400}[c.Run.Thorough])]
		for _, k := range ks {
			w.fresh()
			n, until := 0, 1
			if c.IntN(4) == 0 {
				until = 1 << 30
			}
			errno := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EMFILE, syscall.EACCES}[c.IntN(4)]
			// Where removing is not what fails, nothing is to remain
			files := until == 1
			switch ops[k].Name {
			case "write", "copy", "read", "pread", "rename", "create", "mkdir", "seek":
			case "open":
				files = files && strings.HasSuffix(ops[k].Path, ".piece")
			default:
				files = false
			}
			e := &exec{c: c, w: w, lenient: true, reported: map[int]bool{}, stop: func() bool { return false }}
			e.what = fmt.Sprintf("file operation %d (%s %s) fails with %q, and %d in all", k, ops[k].Name, strings.TrimPrefix(ops[k].Path, scratch), errno, until)
			short := ops[k].IsWrite() && ops[k].Len > 1 && c.IntN(2) == 0
			hit := 0
			e.after = func() {
				if hit == 0 || !e.loaded {
					return
				}
				if sig, what := w.residue(len(set(e.s, w.pieces())), files); sig != "" {
					e.fail(sig, "%s", what)
				}
				c.Evals(1)
				c.Count("looks_after_a_failure", 1)
			}
			stop := steer.Observe(&steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
				n++
				if n-1 < k || n-1 >= k+until {
					return 0, 0, false
				}
				hit++
				if short && hit == 1 && op.IsWrite() && op.Len > 1 {
					until = max(until, 2) // the rest of it fails
					r, e := op.DoShort(1 + op.Len/2)
					return r, e, true
				}
				return ^uintptr(0), errno, true
			}})
			func() { defer stop(); e.run(steps) }()
			c.Count("failures", min(hit, 1))
			c.Count("failing_"+ops[k].Name, min(hit, 1))
			c.Seen(len(w.content), w.info.PieceLength, len(w.info.Files), k, until, errno, short)
		}
		c.Sample("%v: %d operations, %d made to fail", w, len(ops), len(ks))
	})
}
