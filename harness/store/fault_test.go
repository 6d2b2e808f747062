package store

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"syscall"
	"testing"

	"github.com/browles/drip/storage"

	"verif/harness/steer"
	"verif/harness/vk"
)

// step is one operation of a script that is run again and again with a crash or a
// fault at each of its file operations.
type step struct {
	kind byte // 'p' put, 'b' put with wrong data, 'r' reset, 'g' get a piece, 'l' load
	b    blk
	data []byte
}

// script makes a history that completes the torrent, with detours.
func script(c *vk.Case, w *world, gets bool) []step {
	var res []step
	bs := w.allBlocks()
	c.Shuffle(len(bs), func(a, b int) { bs[a], bs[b] = bs[b], bs[a] })
	if c.IntN(3) == 0 { // piece by piece
		bs = w.allBlocks()
	}
	missing := map[int]int{}
	bad := map[int]bool{}
	for i := range w.pieces() {
		missing[i] = len(w.blocks(i))
		bad[i] = c.IntN(5) == 0
	}
	loaded := false
	for k, b := range bs {
		if bad[b.i] && missing[b.i] == 1 {
			res = append(res, step{'b', b, w.bad(c, b)}, step{kind: 'r', b: blk{i: b.i}})
			for _, x := range w.blocks(b.i) {
				res = append(res, step{'p', x, w.good(x)})
			}
		} else {
			res = append(res, step{'p', b, w.good(b)})
		}
		missing[b.i]--
		if gets && c.IntN(3) == 0 {
			res = append(res, step{kind: 'g', b: blk{i: c.IntN(w.pieces())}})
		}
		if !loaded && c.IntN(8) == 0 && k < len(bs)-1 {
			res = append(res, step{kind: 'l'})
			loaded = true
		}
	}
	if loaded { // what was not yet a piece is lost
		for _, b := range bs {
			res = append(res, step{'p', b, w.good(b)})
		}
	}
	if gets {
		res = append(res, step{kind: 'g', b: blk{i: c.IntN(w.pieces())}})
	}
	return res
}

// exec is one run of a script.
type exec struct {
	c        *vk.Case
	w        *world
	s        *storage.Storage
	what     string
	reported map[int]bool // pieces whose completion was reported
	stop     func() bool
	lenient  bool // operations may fail with errors
	after    func()
	log      []string
	loaded   bool
	held     []map[int]bool // blocks admitted: whether good; nil if unknown after an error
}

func (e *exec) fail(sig, format string, args ...any) {
	e.c.Fail(sig, "%s\n%s\ntorrent: %v\nhistory:\n  %s", fmt.Sprintf(format, args...), e.what, e.w, strings.Join(e.log, "\n  "))
}

func (e *exec) logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	e.log = append(e.log, s)
	e.c.Logf("%s", s)
}

func (e *exec) load() error {
	s := e.w.open()
	err := s.Load()
	e.logf("load -> %v", err)
	e.s, e.loaded = s, err == nil
	e.held = make([]map[int]bool, e.w.pieces())
	for i := range e.held {
		e.held[i] = map[int]bool{}
	}
	if err == nil && !e.stop() {
		// It has had its full effect
		have := set(s, e.w.pieces())
		for i := range e.reported {
			if !have[i] {
				e.fail("load reported wrongly", "load returned no error, and piece %d, whose completion was reported, is not there", i)
			}
		}
		if len(have) == e.w.pieces() {
			steer.Quiet(func() {
				if ts := e.w.targetState(); ts != "exact" {
					e.fail("load reported wrongly", "load returned no error, all pieces are there, target directory: %s", ts)
				}
			})
		}
	}
	return err
}

// note records what became of pieces: those complete now count as reported if the
// operation told so.
func (e *exec) run(steps []step) {
	if err := e.load(); err != nil {
		if e.stop() {
			return
		}
		if !e.lenient {
			e.fail("load fails", "load returned %v", err)
		}
		// A failed load leaves nothing to work with: try again like a user would
		for range 3 {
			if err = e.load(); err == nil {
				break
			}
		}
		if err != nil {
			return
		}
	}
	for i := range set(e.s, e.w.pieces()) {
		e.reported[i] = true
	}
	for _, st := range steps {
		if e.after != nil {
			e.after()
		}
		if e.stop() {
			return
		}
		switch st.kind {
		case 'p', 'b':
			err := e.s.PutBlock(st.b.i, st.b.begin, bytes.Clone(st.data))
			e.logf("put piece=%d begin=%d good=%v -> %v", st.b.i, st.b.begin, st.kind == 'p', err)
			if e.stop() {
				return
			}
			if err != nil {
				if !errors.Is(err, storage.ErrBlockExists) {
					e.held[st.b.i] = nil
				}
				continue
			}
			if e.s.Torrent.HasPiece(st.b.i) {
				e.reported[st.b.i] = true
			}
			if e.lenient {
				e.c.Count("puts_ok", 1)
			}
			if h := e.held[st.b.i]; h != nil {
				h[st.b.begin] = st.kind == 'p'
				full := len(h) == len(e.w.blocks(st.b.i))
				for _, good := range h {
					full = full && good
				}
				if has := e.s.Torrent.HasPiece(st.b.i); has != full {
					e.fail("put reported wrongly", "put returned no error, blocks held: %v of %d, piece complete: %v", h, len(e.w.blocks(st.b.i)), has)
				}
			}
			if len(set(e.s, e.w.pieces())) == e.w.pieces() {
				steer.Quiet(func() {
					if ts := e.w.targetState(); ts != "exact" {
						e.fail("put reported wrongly", "put completed the torrent without an error, target directory: %s", ts)
					}
				})
			}
		case 'r':
			e.s.ResetPiece(st.b.i)
			e.logf("reset piece=%d", st.b.i)
			e.held[st.b.i] = map[int]bool{}
		case 'g':
			n := e.w.pieceLen(st.b.i)
			d, err := e.s.GetBlock(st.b.i, 0, n)
			e.logf("get piece=%d -> %v", st.b.i, err)
			if err == nil && !bytes.Equal(d, e.w.piece(st.b.i)) {
				e.fail("wrong data served", "piece %d read back differs", st.b.i)
			}
			if err == nil {
				e.c.Count("reads_exact", 1)
			}
			if err != nil && !e.lenient && e.reported[st.b.i] && !e.stop() {
				e.fail("complete piece not readable", "piece %d: %v", st.b.i, err)
			}
		case 'l':
			err := e.load()
			if e.stop() {
				return
			}
			if err != nil {
				for range 3 {
					if err = e.load(); err == nil {
						break
					}
				}
				if err != nil {
					return
				}
			}
		}
	}
	if e.after != nil {
		e.after()
	}
}

// settled checks what an open storage shows when nothing fails: all pieces reported
// are there, everything advertised is exact.
func (e *exec) settled(when string) {
	e.c.Evals(1)
	have := set(e.s, e.w.pieces())
	for i := range e.reported {
		if !have[i] {
			e.fail("completed piece lost", "%s: piece %d, whose completion was reported, is not there", when, i)
		}
	}
	var sum int64
	for i := range have {
		sum += int64(e.w.pieceLen(i))
		d, err := e.s.GetBlock(i, 0, e.w.pieceLen(i))
		if err != nil {
			e.fail("advertised piece not readable", "%s: piece %d: %v", when, i, err)
		}
		if !bytes.Equal(d, e.w.piece(i)) {
			e.fail("wrong data served", "%s: piece %d differs from the content", when, i)
		}
	}
	for i := range e.w.pieces() {
		if !have[i] {
			if _, err := e.s.GetBlock(i, 0, 1); err == nil {
				e.fail("unverified data served", "%s: piece %d is not complete but readable", when, i)
			}
		}
	}
	if d := e.s.Downloaded(); d != sum {
		e.fail("wrong downloaded count", "%s: downloaded=%d, held %d", when, d, sum)
	}
	if st := e.w.targetState(); st != "absent" && st != "exact" {
		e.fail("partial data under the target name", "%s: %s", when, st)
	}
}

// complete finishes the download from here, without faults.
func (e *exec) complete(when string) {
	for i := range e.w.pieces() {
		if e.s.Torrent.HasPiece(i) {
			continue
		}
		e.s.ResetPiece(i)
		for _, b := range e.w.blocks(i) {
			if err := e.s.PutBlock(i, b.begin, e.w.good(b)); err != nil {
				e.fail("download cannot be finished", "%s: put of piece %d begin=%d after a reset: %v", when, i, b.begin, err)
			}
		}
		if !e.s.Torrent.HasPiece(i) {
			e.fail("download cannot be finished", "%s: piece %d was put again and is not complete", when, i)
		}
	}
	if e.w.targetState() == "absent" {
		if err := e.load(); err != nil {
			e.fail("download cannot be finished", "%s: all pieces complete, load: %v", when, err)
		}
	}
	if st := e.w.targetState(); st != "exact" {
		e.fail("finished torrent differs", "%s: target directory: %s", when, st)
	}
	for i := range e.w.pieces() {
		e.reported[i] = true
	}
	e.settled(when + ", finished")
}

func TestS06(t *testing.T) {
	r := vk.Start(t, "S06", "distinct (history, layout, crash point, kind): the process 'dies' before, in the middle of (torn writes) or after a file operation, everything after it has no effect, and the directories are opened again and finished")
	crashes := func(c *vk.Case, w *world) {
		steps := script(c, w, false)
		// once without a crash, to count the operations
		var ops []steer.Op
		dry := func() {
			e := &exec{c: c, w: w, what: "no crash", reported: map[int]bool{}, stop: func() bool { return false }}
			stop := steer.Observe(&steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
				if op.Mutate {
					ops = append(ops, *op)
				}
				return 0, 0, false
			}})
			func() { defer stop(); e.run(steps) }()
			e.settled("no crash")
			if w.targetState() != "exact" {
				e.fail("finished torrent differs", "without any crash: %s", w.targetState())
			}
		}
		dry()
		type point struct {
			k    int
			kind string
		}
		var points []point
		for k, op := range ops {
			points = append(points, point{k, "before"})
			if op.IsWrite() && op.Len > 1 {
				points = append(points, point{k, "torn"})
			}
		}
		points = append(points, point{len(ops) - 1, "after"})
		c.Count("operations_enumerated", len(ops))
		limit := 60
		if c.Run.Thorough {
			limit = 400
		}
		if len(points) > limit {
			c.Shuffle(len(points), func(a, b int) { points[a], points[b] = points[b], points[a] })
			points = points[:limit]
		}
		// crash arms a crash at the k-th mutating operation
		crash := func(p point) (stop func(), dead func() bool) {
			n, isDead := 0, false
			stop = steer.Observe(&steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
				if isDead {
					return ^uintptr(0), syscall.EIO, true
				}
				if !op.Mutate {
					return 0, 0, false
				}
				n++
				if n-1 != p.k {
					return 0, 0, false
				}
				isDead = true
				switch p.kind {
				case "torn":
					if op.IsWrite() && op.Len > 1 {
						op.DoShort(1 + p.k*7919%min(op.Len-1, 20000))
					}
				case "after":
					op.Do()
				}
				return ^uintptr(0), syscall.EIO, true
			}})
			return stop, func() bool { return isDead }
		}
		for _, p := range points {
			w.fresh()
			what := fmt.Sprintf("crash %s mutating operation %d (%s %s)", p.kind, p.k, ops[p.k].Name, strings.TrimPrefix(ops[p.k].Path, scratch))
			e := &exec{c: c, w: w, what: what, reported: map[int]bool{}}
			stop, dead := crash(p)
			e.stop = dead
			func() { defer stop(); e.run(steps) }()
			c.Count("crashes_"+p.kind, 1)
			c.Count("crash_at_"+ops[p.k].Name, 1)
			// perhaps once more, while recovering or finishing
			for n := 1 + c.IntN(2); n > 1; n-- {
				q := point{c.IntN(len(ops)), []string{"before", "torn", "after"}[c.IntN(3)]}
				e.what += fmt.Sprintf("; then, opened again, %s mutating operation %d", q.kind, q.k)
				stop, dead := crash(q)
				e.stop = dead
				func() { defer stop(); e.run(steps) }()
				c.Count("second_crashes", 1)
			}
			if st := w.targetState(); st != "absent" && st != "exact" {
				e.fail("partial data under the target name", "after the crash: %s", st)
			}
			e.stop = func() bool { return false }
			if err := e.load(); err != nil {
				e.fail("load fails after a crash", "load returned %v", err)
			}
			e.settled("after the crash")
			if c.IntN(4) == 0 {
				if err := e.s.Load(); err != nil {
					e.fail("load fails after a crash", "second load returned %v", err)
				}
				e.settled("after a second load")
			}
			e.complete("after the crash")
			c.Seen(len(w.content), w.info.PieceLength, len(w.info.Files), p.k, p.kind, ops[p.k].Name, len(steps))
		}
		c.Sample("%v: %d steps, %d mutating operations, %d crash points", w, len(steps), len(ops), len(points))
	}
	r.Cases("single", r.N(24, 800), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 3, single: true})
		defer w.drop()
		crashes(c, w)
	})
	r.Cases("multi", r.N(32, 1200), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 4, multi: true})
		defer w.drop()
		crashes(c, w)
	})
}

type fault struct {
	k     int // first operation that fails
	n     int // how many do
	errno syscall.Errno
	short bool // writes and reads: do a part first
	name  string
}

func TestS07(t *testing.T) {
	r := vk.Start(t, "S07", "distinct (history, layout, failing operation, error, duration): one file operation, a few, or all from then on fail (or write only a part), after which the storage is recovered")
	errnos := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS, syscall.EDQUOT}
	faults := func(c *vk.Case, w *world) {
		steps := script(c, w, true)
		var ops []steer.Op
		// Some begin with all pieces in the work directory, and no target
		whole := c.IntN(4) == 0
		prepare := func() {
			if !whole {
				return
			}
			defer steer.Observe(&steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
				if op.Name == "rename" && strings.HasPrefix(op.Path2, w.target) {
					return ^uintptr(0), syscall.EIO, true
				}
				return 0, 0, false
			}})()
			s := w.open()
			must(s.Load())
			for _, b := range w.allBlocks() {
				s.PutBlock(b.i, b.begin, w.good(b))
			}
		}
		prepare()
		e := &exec{c: c, w: w, what: "no fault", reported: map[int]bool{}, stop: func() bool { return false }}
		stop := steer.Observe(&steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
			ops = append(ops, *op)
			return 0, 0, false
		}})
		func() { defer stop(); e.run(steps) }()
		e.settled("no fault")
		c.Count("operations_enumerated", len(ops))
		var fs []fault
		for k, op := range ops {
			f := fault{k: k, n: 1, errno: errnos[c.IntN(len(errnos))], name: op.Name}
			fs = append(fs, f)
			f.errno = errnos[c.IntN(len(errnos))]
			f.n = []int{2, 3 + c.IntN(5), 1 << 30}[c.IntN(3)]
			fs = append(fs, f)
			if op.IsWrite() && op.Len > 1 {
				fs = append(fs, fault{k: k, n: 1, errno: syscall.ENOSPC, short: true, name: op.Name}, fault{k: k, n: 1, errno: 0, short: true, name: op.Name})
			}
			if c.IntN(6) == 0 {
				fs = append(fs, fault{k: k, n: 1, errno: syscall.EINTR, name: op.Name})
			}
		}
		limit := 80
		if c.Run.Thorough {
			limit = 600
		}
		if len(fs) > limit {
			c.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
			fs = fs[:limit]
		}
		for _, f := range fs {
			w.fresh()
			prepare()
			e := &exec{c: c, w: w, lenient: true, reported: map[int]bool{}, stop: func() bool { return false }}
			e.what = fmt.Sprintf("file operation %d (%s %s) fails with %q, and %d in all; short=%v", f.k, f.name, strings.TrimPrefix(ops[f.k].Path, scratch), f.errno, f.n, f.short)
			n, hit, bad := 0, 0, ""
			shortDone := false
			stop := steer.Observe(&steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
				n++
				if op.Mutate && bad == "" && (op.Name == "rename" || op.Name == "create" || op.Name == "mkdir") {
					// nothing partial under the target name, at any time
					defer steer.Quiet(func() {
						if st := w.targetState(); st != "absent" && st != "exact" {
							bad = st
						}
					})
				}
				if shortDone && f.errno != 0 { // the rest of a short write
					shortDone = false
					return ^uintptr(0), f.errno, true
				}
				if n-1 < f.k || n-1 >= f.k+f.n {
					return 0, 0, false
				}
				hit++
				if f.short && op.IsWrite() && op.Len > 1 {
					r, e := op.DoShort(1 + f.k*7919%min(op.Len-1, 20000))
					shortDone = true
					return r, e, true
				}
				if f.errno == 0 {
					return 0, 0, false
				}
				return ^uintptr(0), f.errno, true
			}})
			func() { defer stop(); e.run(steps) }()
			if hit == 0 {
				continue
			}
			c.Count("faults_hit", hit)
			c.Count("fault_at_"+f.name, 1)
			if bad != "" {
				e.fail("partial data under the target name", "while operations failed: %s", bad)
			}
			// the failure is gone
			if !e.loaded { // a storage that could not be loaded is not usable
				if err := e.load(); err != nil {
					e.fail("load fails after an I/O error", "load returned %v", err)
				}
			}
			e.settled("after the failure")
			switch c.IntN(3) {
			case 0: // a new process
				if err := e.load(); err != nil {
					e.fail("load fails after an I/O error", "load returned %v", err)
				}
				e.settled("loaded after the failure")
			case 1:
				if err := e.s.Load(); err != nil {
					e.fail("load fails after an I/O error", "load of the same storage returned %v", err)
				}
				e.settled("loaded again after the failure")
			}
			e.complete("after the failure")
			c.Seen(len(w.content), w.info.PieceLength, len(w.info.Files), f.k, f.n, f.errno, f.short, len(steps))
		}
		c.Sample("%v: %d steps, %d operations, %d faults", w, len(steps), len(ops), len(fs))
	}
	r.Cases("single", r.N(100, 800), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 3, single: true})
		defer w.drop()
		faults(c, w)
	})
	r.Cases("multi", r.N(140, 1200), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 4, multi: true})
		defer w.drop()
		faults(c, w)
	})
}
