package store

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/browles/drip/storage"

	"verif/harness/steer"
	"verif/harness/vk"
)

// bubble runs f, and what it starts with spawn, in virtual time, and reports a deadlock.
func bubble(c *vk.Case, f func(spawn func(func()))) (deadlock string) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if !strings.Contains(s, "deadlock") {
				panic(p)
			}
			deadlock = s
		}
	}()
	synctest.Test(c.Run.T, func(*testing.T) {
		var wg sync.WaitGroup // time stops when this goroutine ends
		c.Protect(func() {
			f(func(g func()) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.Protect(g)
				}()
			})
		})
		wg.Wait()
	})
	return ""
}

// spread makes goroutines in bubbles yield at locks and file operations.
func spread(c *vk.Case, w *world) (s *steer.Sched, stop func()) {
	s = &steer.Sched{Seed: c.Uint64()}
	a := steer.Spread(s)
	b := steer.Observe(&steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
		s.Delay()
		return 0, 0, false
	}})
	return s, func() { a(); b() }
}

const (
	opPut = iota
	opGet
	opReset
	opHas
	opBits
)

type in struct {
	kind, i, begin, n int
	good              bool
}

type out struct {
	ok, checksum bool
	bits         string
}

func (x in) String() string {
	switch x.kind {
	case opPut:
		return fmt.Sprintf("put(%d,%d,good=%v)", x.i, x.begin, x.good)
	case opGet:
		return fmt.Sprintf("get(%d,%d,%d)", x.i, x.begin, x.n)
	case opReset:
		return fmt.Sprintf("reset(%d)", x.i)
	case opHas:
		return fmt.Sprintf("has(%d)", x.i)
	}
	return "bits()"
}

// The sequential specification; a state is a string with one letter per block (. not
// held, g good, b bad), pieces separated by spaces, in capitals once complete.
func model(w *world) porcupine.Model {
	off := make([]int, w.pieces()+1)
	var init []byte
	for i := range w.pieces() {
		off[i] = len(init)
		init = append(init, bytes.Repeat([]byte{'.'}, len(w.blocks(i)))...)
	}
	off[w.pieces()] = len(init)
	bits := func(st string) string {
		r := ""
		for i := range w.pieces() {
			if st[off[i]] == 'C' {
				r += "1"
			} else {
				r += "0"
			}
		}
		return r
	}
	return porcupine.Model{
		Init: func() any { return string(init) },
		Step: func(state, input, output any) (bool, any) {
			st, x, y := state.(string), input.(in), output.(out)
			switch x.kind {
			case opPut:
				j := off[x.i] + x.begin/blockLen
				if st[j] != '.' {
					return !y.ok && !y.checksum, st
				}
				b := []byte(st)
				b[j] = 'b'
				if x.good {
					b[j] = 'g'
				}
				p := b[off[x.i]:off[x.i+1]]
				if bytes.IndexByte(p, '.') < 0 {
					if bytes.IndexByte(p, 'b') >= 0 {
						return y.checksum, string(b)
					}
					for k := range p {
						p[k] = 'C'
					}
				}
				return y.ok, string(b)
			case opGet, opHas:
				return y.ok == (st[off[x.i]] == 'C'), st
			case opReset:
				if st[off[x.i]] == 'C' {
					return true, st
				}
				b := []byte(st)
				for k := off[x.i]; k < off[x.i+1]; k++ {
					b[k] = '.'
				}
				return true, string(b)
			default:
				return y.bits == bits(st), st
			}
		},
		Equal:             func(a, b any) bool { return a.(string) == b.(string) },
		DescribeOperation: func(a, b any) string { return fmt.Sprintf("%v -> %+v", a, b) },
	}
}

// do runs one operation on the real storage; data is what a put puts.
func do(c *vk.Case, w *world, s *storage.Storage, x in, data []byte) (y out) {
	switch x.kind {
	case opPut:
		err := s.PutBlock(x.i, x.begin, data)
		y.ok, y.checksum = err == nil, isChecksum(err)
	case opGet:
		d, err := s.GetBlock(x.i, x.begin, x.n)
		y.ok = err == nil
		if err == nil && !bytes.Equal(d, w.piece(x.i)[x.begin:x.begin+x.n]) {
			c.Report("wrong data served", fmt.Sprintf("%v returned other bytes; torrent %v", x, w))
		}
	case opReset:
		s.ResetPiece(x.i)
		y.ok = true
	case opHas:
		y.ok = s.Torrent.HasPiece(x.i)
	default:
		bf := s.Torrent.CompletePieces()
		for i := range w.pieces() {
			if bf.Has(i) {
				y.bits += "1"
			} else {
				y.bits += "0"
			}
		}
	}
	return y
}

type planned struct {
	in
	data []byte
}

// plan deals out operations to clients, so that pieces and often the torrent get
// completed, by different clients.
func plan(c *vk.Case, w *world, clients, extra int, bad bool) [][]planned {
	res := make([][]planned, clients)
	add := func(p planned) {
		k := c.IntN(clients)
		res[k] = append(res[k], p)
	}
	bs := w.allBlocks()
	c.Shuffle(len(bs), func(a, b int) { bs[a], bs[b] = bs[b], bs[a] })
	if c.IntN(2) == 0 {
		bs = w.allBlocks()
	}
	random := func() planned {
		b := bs[c.IntN(len(bs))]
		switch k := c.IntN(12); {
		case k < 3:
			n := w.pieceLen(b.i)
			a := c.IntN(n)
			return planned{in{kind: opGet, i: b.i, begin: a, n: 1 + c.IntN(n-a)}, nil}
		case k < 5:
			return planned{in{kind: opHas, i: b.i}, nil}
		case k < 6:
			return planned{in{kind: opBits}, nil}
		case k < 8 && bad:
			return planned{in{kind: opReset, i: b.i}, nil}
		case k < 9 && bad:
			return planned{in{kind: opPut, i: b.i, begin: b.begin, good: false}, w.bad(c, b)}
		default:
			return planned{in{kind: opPut, i: b.i, begin: b.begin, good: true}, w.good(b)}
		}
	}
	for _, b := range bs {
		add(planned{in{kind: opPut, i: b.i, begin: b.begin, good: true}, w.good(b)})
		for range extra {
			if c.IntN(2) == 0 {
				add(random())
			}
		}
	}
	for range extra {
		add(random())
	}
	return res
}

func describe(ops []porcupine.Operation) string {
	s := ""
	for _, o := range ops {
		s += fmt.Sprintf("\n  client %d [%d,%d] %v -> %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
	}
	return s
}

func TestS04(t *testing.T) {
	r := vk.Start(t, "S04", "distinct interleavings (order of all calls and returns, with results) of concurrent histories judged by a linearizability checker; and, in real parallel runs under the race detector, distinct histories of results")
	judge := func(c *vk.Case, w *world, s *storage.Storage, ops []porcupine.Operation) {
		c.Count("operations", len(ops))
		switch porcupine.CheckOperationsTimeout(model(w), ops, 20*time.Second) {
		case porcupine.Illegal:
			c.Report("not linearizable", fmt.Sprintf("torrent: %v\nno order of these operations one at a time explains their results:%s", w, describe(ops)))
		case porcupine.Unknown:
			c.Inconclusive("linearizability of %s:%d not decided in time", c.Group, c.Index)
		}
	}
	finish := func(c *vk.Case, w *world, s *storage.Storage) {
		for i := range w.pieces() {
			if s.Torrent.HasPiece(i) {
				continue
			}
			s.ResetPiece(i)
			for _, b := range w.blocks(i) {
				if err := s.PutBlock(i, b.begin, w.good(b)); err != nil {
					c.Fail("valid block refused", "after the concurrent part, piece %d reset: %v", i, err)
				}
			}
		}
		if st := w.targetState(); st != "exact" {
			c.Fail("finished torrent differs", "%v: target %s", w, st)
		}
		if s.Downloaded() != int64(len(w.content)) {
			c.Fail("wrong downloaded count", "%v: downloaded=%d", w, s.Downloaded())
		}
	}
	r.Cases("lin", r.N(1200, 60000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 3})
		defer w.drop()
		var s *storage.Storage
		clients := 2 + c.IntN(4)
		plans := plan(c, w, clients, 1+c.IntN(3), c.IntN(3) > 0)
		var clock atomic.Int64
		ops := make([][]porcupine.Operation, clients)
		sp, stop := spread(c, w)
		dead := bubble(c, func(spawn func(func())) {
			var wg sync.WaitGroup
			s = w.open() // its channels have to belong to the bubble
			must(s.Load())
			for k := range plans {
				wg.Add(1)
				spawn(func() {
					defer wg.Done()
					for _, p := range plans[k] {
						sp.Delay()
						call := clock.Add(1)
						y := do(c, w, s, p.in, p.data)
						ops[k] = append(ops[k], porcupine.Operation{ClientId: k, Input: p.in, Call: call, Output: y, Return: clock.Add(1)})
					}
				})
			}
			wg.Wait()
			finish(c, w, s)
		})
		stop()
		if dead != "" {
			c.Fail("deadlock", "%s\n%s", dead, vk.Stacks())
		}
		if c.Run.Failed() {
			return
		}
		var all []porcupine.Operation
		for _, o := range ops {
			all = append(all, o...)
		}
		c.Count("yield_points", sp.Points())
		judge(c, w, s, all)
		key := fmt.Sprint(w.pieces())
		ev := make([]string, clock.Load()+1)
		overlap := 0
		for _, o := range all {
			ev[o.Call] = fmt.Sprint("c", o.ClientId, o.Input)
			ev[o.Return] = fmt.Sprint("r", o.ClientId, o.Output)
			for _, p := range all {
				if o.ClientId < p.ClientId && o.Call < p.Return && p.Call < o.Return {
					overlap++
				}
			}
		}
		c.Count("overlapping_pairs", overlap)
		c.Seen(key, ev)
		c.Sample("%d clients, %d operations, %d overlapping pairs on %v", clients, len(all), overlap, w)
	})
	r.Cases("race", r.N(240, 12000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 3})
		defer w.drop()
		s := w.open()
		must(s.Load())
		clients := 3 + c.IntN(4)
		plans := plan(c, w, clients, 2, c.IntN(3) > 0)
		ops := make([][]porcupine.Operation, clients)
		sp := &steer.Sched{Real: true}
		a := steer.Spread(sp)
		b := steer.Observe(&steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
			sp.FSDelay()
			return 0, 0, false
		}})
		start := time.Now()
		var wg, waiters sync.WaitGroup
		for k := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Protect(func() {
					for _, p := range plans[k] {
						// Clocks, unlike a shared counter, do not order goroutines for the race detector
						call := 2 * int64(time.Since(start))
						y := do(c, w, s, p.in, p.data)
						ops[k] = append(ops[k], porcupine.Operation{ClientId: k, Input: p.in, Call: call, Output: y, Return: 2*int64(time.Since(start)) + 1})
					}
				})
			}()
		}
		for i := range w.pieces() {
			waiters.Add(2)
			go func() { // every state that may be looked at from outside
				defer waiters.Done()
				c.Protect(func() {
					s.GetPiece(i).Wait()
					s.Downloaded()
					s.Torrent.CompletePieces().Items()
					s.GetBlock(i, 0, 1)
				})
			}()
			go func() {
				defer waiters.Done()
				c.Protect(func() {
					if err := s.Torrent.Wait(); err == nil {
						s.GetBlock(i, 0, 1)
						s.Downloaded()
					}
				})
			}()
		}
		wg.Wait()
		a()
		b()
		var all []porcupine.Operation
		for _, o := range ops {
			all = append(all, o...)
		}
		judge(c, w, s, all)
		finish(c, w, s)
		waiters.Wait()
		c.Count("parallel_runs", 1)
		c.Seen(describe(all))
	})
}

func TestS05(t *testing.T) {
	r := vk.Start(t, "S05", "distinct schedules (sequence of operations finished, per goroutine) of concurrent mixes in which, with every lock acquisition and file operation a point of preemption in virtual time, no operation was left blocked")
	r.Cases("mix", r.N(1600, 100000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 1 + c.IntN(3)})
		defer w.drop()
		clients := 2 + c.IntN(6)
		plans := plan(c, w, clients, 1+c.IntN(4), c.IntN(2) > 0)
		doing := make([]atomic.Pointer[string], clients)
		var mu sync.Mutex
		var order strings.Builder
		waits := atomic.Int64{}
		sp, stop := spread(c, w)
		dead := bubble(c, func(spawn func(func())) {
			var wg sync.WaitGroup
			s := w.open() // its channels have to belong to the bubble
			must(s.Load())
			for k := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.Protect(func() {
						for n, p := range plans[k] {
							sp.Delay()
							if n%4 == 1 { // waits of data that is to come
								waits.Add(1)
								spawn(func() {
									if p.kind == opBits {
										s.Torrent.Wait()
									} else {
										s.GetPiece(p.i).Wait()
									}
									waits.Add(-1)
								})
							}
							d := p.in.String()
							doing[k].Store(&d)
							y := do(c, w, s, p.in, p.data)
							doing[k].Store(nil)
							mu.Lock()
							fmt.Fprint(&order, k, p.kind, y.ok, ";")
							mu.Unlock()
							c.Evals(0)
						}
					})
				}()
			}
			wg.Wait()
			// all that is waited for arrives
			for i := range w.pieces() {
				s.ResetPiece(i)
				for _, b := range w.blocks(i) {
					s.PutBlock(i, b.begin, w.good(b))
				}
			}
		})
		stop()
		if dead != "" {
			what := ""
			for k := range doing {
				if d := doing[k].Load(); d != nil {
					what += fmt.Sprintf("\n  client %d is blocked in %s", k, *d)
				}
			}
			if what == "" {
				what = fmt.Sprintf("\n  %d waits were not answered although everything is complete", waits.Load())
			}
			c.Fail("deadlock", "%s:%s\ntorrent: %v\n%s", dead, what, w, blocked(vk.Stacks()))
		}
		for k := range plans {
			c.Count("operations", len(plans[k]))
		}
		c.Count("yield_points", sp.Points())
		if !c.Run.Failed() && waits.Load() != 0 {
			c.Fail("deadlock", "%d waits were not answered", waits.Load())
		}
		c.Seen(order.String(), len(w.content))
		c.Sample("%d clients on %v", clients, w)
	})
}

// blocked keeps the goroutines of the storage.
func blocked(stacks string) string {
	res := ""
	for _, g := range strings.Split(stacks, "\n\n") {
		if strings.Contains(g, "drip/storage") {
			res += g + "\n\n"
		}
	}
	return res
}

// waiter is a goroutine that waits for a piece, or for the torrent (i < 0).
type waiter struct {
	i      int
	late   bool
	done   atomic.Bool
	err    error
	has    bool
	expect int // 0 pending, 1 success, 2 failure
	exact  bool
}

func TestS08(t *testing.T) {
	r := vk.Start(t, "S08", "distinct histories (operations, outcomes, I/O faults) after each step of which every waiter, early and late, was found answered, with the right outcome, or still waiting, as the model says; and concurrent histories in which every waiter was answered rightly")
	r.Cases("steps", r.N(1200, 80000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 1 + c.IntN(4), zero: true, small: c.IntN(2) == 0})
		defer w.drop()
		var log []string
		n := w.pieces()
		held := make([]map[int]bool, n)
		complete := make([]bool, n)
		failed := make([]bool, n)
		for i := range held {
			held[i] = map[int]bool{}
		}
		finished := false
		var spawn func(func())
		var loading atomic.Bool
		var ws []*waiter
		var s *storage.Storage
		var failK atomic.Int64 // the mutating operation to fail; counts down
		failK.Store(-1)
		failN := 1
		faulted := false
		obs := &steer.FS{Root: w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
			if !op.Mutate {
				return 0, 0, false
			}
			k := failK.Load()
			if k < 0 {
				return 0, 0, false
			}
			if k > int64(0) && !faulted {
				failK.Store(k - 1)
				return 0, 0, false
			}
			faulted = true
			if failN--; failN <= 0 {
				failK.Store(-1)
			}
			return ^uintptr(0), syscall.EIO, true
		}}
		bad := false
		fail := func(sig, format string, args ...any) {
			if !bad {
				c.Report(sig, fmt.Sprintf("%s\ntorrent: %v\nhistory:\n  %s", fmt.Sprintf(format, args...), w, strings.Join(log, "\n  ")))
			}
			bad = true
		}
		logf := func(format string, args ...any) {
			log = append(log, fmt.Sprintf(format, args...))
			c.Logf(format, args...)
		}
		settle := func(i, expect int) {
			for _, x := range ws {
				if x.i == i && x.expect == 0 {
					x.expect = expect
				}
			}
		}
		check := func() {
			synctest.Wait()
			for _, x := range ws {
				c.Evals(1)
				done := x.done.Load()
				name := fmt.Sprintf("a waiter of piece %d", x.i)
				if x.i < 0 {
					name = "a waiter of the torrent"
				}
				switch {
				case !done && x.expect != 0:
					fail("waiter left behind", "%s is not answered", name)
				case done && x.expect == 0:
					fail("waiter answered early", "%s was answered (%v)", name, x.err)
				case done && x.expect == 1 && x.err != nil:
					fail("waiter told wrongly", "%s got %v", name, x.err)
				case done && x.expect == 2 && x.err == nil:
					fail("waiter told wrongly", "%s got no error", name)
				}
				if done && x.i < 0 && !x.exact {
					fail("waiter answered early", "%s was answered while the target did not have the content", name)
				}
				if done && x.i >= 0 && x.err == nil && !x.has {
					fail("waiter answered early", "%s was answered while the piece was not readable", name)
				}
			}
		}
		join := func(i int) {
			x := &waiter{i: i}
			switch {
			case i < 0 && finished, i >= 0 && complete[i]:
				x.expect = 1
				x.late = true
			case i >= 0 && failed[i]:
				x.expect = 2
				x.late = true
			}
			ws = append(ws, x)
			st := s
			spawn(func() {
				if i < 0 {
					x.err = st.Torrent.Wait()
					x.exact = rawExists(filepath.Join(w.target, w.info.Name))
				} else {
					x.err = st.GetPiece(i).Wait()
					ld := loading.Load() // whose steps need not look like one
					x.has = x.err != nil || st.Torrent.HasPiece(i) || ld
				}
				x.done.Store(true)
			})
			c.Count("waiters", 1)
			if x.late {
				c.Count("late_waiters", 1)
			}
		}
		crowd := func() {
			for range c.IntN(4) {
				join(c.IntN(n+1) - 1)
			}
			synctest.Wait() // they are waiting
		}
		// after tells what an operation that may have failed did
		after := func(err error) {
			for i := range n {
				if !complete[i] && s.Torrent.HasPiece(i) {
					complete[i], failed[i] = true, false
					settle(i, 1)
				}
			}
			if !finished && rawExists(filepath.Join(w.target, w.info.Name)) {
				finished = true
				settle(-1, 1)
			}
		}
		put := func(b blk, good bool) {
			d := w.good(b)
			if !good {
				d = w.bad(c, b)
			}
			faulted = false
			_, have := held[b.i][b.begin]
			last := !have && !complete[b.i] && len(held[b.i])+1 == len(w.blocks(b.i))
			if last && c.IntN(3) == 0 {
				failN = 1 + c.IntN(3)
				failK.Store(int64(c.IntN(8 + 3*n)))
			}
			err := s.PutBlock(b.i, b.begin, d)
			failK.Store(-1)
			if !have && !complete[b.i] {
				held[b.i][b.begin] = good
			}
			logf("put piece=%d begin=%d good=%v fault=%v -> %v", b.i, b.begin, good, faulted, err)
			if faulted {
				c.Count("faults", 1)
			}
			after(err)
			if last && !complete[b.i] && !failed[b.i] {
				failed[b.i] = true
				settle(b.i, 2)
			}
		}
		reset := func(i int) {
			logf("reset piece=%d", i)
			s.ResetPiece(i)
			if !complete[i] {
				held[i] = map[int]bool{}
				failed[i] = false
				settle(i, 2)
			}
		}
		load := func(fresh bool) {
			loading.Store(true)
			defer loading.Store(false)
			if fresh {
				// waiters of the old storage, if still waiting, are nobody's now
				for i := range n {
					if !complete[i] {
						reset(i)
					}
				}
				if !finished && len(ws) > 0 {
					for _, x := range ws {
						if x.i < 0 {
							return // only with all answered
						}
					}
				}
				check()
				ws = nil
				s = w.open()
				for i := range n {
					held[i] = map[int]bool{}
				}
				was := complete
				complete = make([]bool, n)
				fin := finished
				finished = false
				for range c.IntN(5) { // waiters before loading
					join(c.IntN(n+1) - 1)
				}
				check()
				logf("load of a new storage")
				if err := s.Load(); err != nil {
					fail("load fails", "%v", err)
					return
				}
				for i := range n {
					if was[i] {
						complete[i] = true
						settle(i, 1)
					}
				}
				if fin {
					finished = true
					settle(-1, 1)
				}
				after(nil)
				return
			}
			logf("load again")
			if err := s.Load(); err != nil {
				fail("load fails", "%v", err)
			}
			after(nil)
		}
		stop := steer.Observe(obs)
		dead := bubble(c, func(sp func(func())) {
			spawn = sp
			s = w.open()
			if c.IntN(2) == 0 {
				crowd()
			}
			if err := s.Load(); err != nil {
				fail("load fails", "%v", err)
				return
			}
			after(nil)
			check()
			bs := w.allBlocks()
			c.Shuffle(len(bs), func(a, b int) { bs[a], bs[b] = bs[b], bs[a] })
			for range 6 + c.IntN(20) {
				if bad || n == 0 {
					break
				}
				crowd()
				b := bs[c.IntN(len(bs))]
				switch k := c.IntN(14); {
				case k < 8:
					for _, x := range bs {
						if _, have := held[x.i][x.begin]; !have && !complete[x.i] {
							b = x
							break
						}
					}
					put(b, c.IntN(6) > 0)
				case k < 9:
					put(b, true)
				case k < 12:
					reset(b.i)
				case k < 13:
					load(true)
				default:
					all := true
					for i := range n {
						all = all && complete[i]
					}
					if all {
						load(false)
					}
				}
				check()
			}
			if bad {
				return
			}
			crowd()
			for i := range n {
				if !complete[i] {
					reset(i)
					for _, b := range w.blocks(i) {
						err := s.PutBlock(i, b.begin, w.good(b))
						logf("put piece=%d begin=%d -> %v", i, b.begin, err)
					}
					after(nil)
				}
			}
			if !finished && !bad {
				load(false)
			}
			check()
			if !bad && (!finished || w.targetState() != "exact") {
				fail("finished torrent differs", "target %s", w.targetState())
			}
			join(-1)
			for i := range n {
				join(i)
			}
			check()
		})
		stop()
		if dead != "" && !bad {
			c.Fail("waiter left behind", "%s\ntorrent: %v\nhistory:\n  %s", dead, w, strings.Join(log, "\n  "))
		}
		key := ""
		for _, l := range log {
			key += l[:min(len(l), 40)]
		}
		c.Seen(key, len(ws))
		c.Sample("%v: %d waiters, %s", w, len(ws), strings.Join(log[:min(5, len(log))], "; "))
	})
	r.Cases("concurrent", r.N(800, 50000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 1 + c.IntN(3)})
		defer w.drop()
		clients := 2 + c.IntN(4)
		plans := plan(c, w, clients, 1+c.IntN(3), c.IntN(4) > 0)
		var asked, answered, good, failing atomic.Int64
		resets := make([]atomic.Int64, w.pieces()) // reasons for an error: resets begun, corrupt blocks put
		sp, stop := spread(c, w)
		dead := bubble(c, func(spawn func(func())) {
			var wg sync.WaitGroup
			s := w.open() // its channels have to belong to the bubble
			must(s.Load())
			for k := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.Protect(func() {
						for _, p := range plans[k] {
							sp.Delay()
							if p.kind == opReset || p.kind == opPut && !p.good {
								resets[p.i].Add(1)
							}
							do(c, w, s, p.in, p.data)
						}
					})
				}()
			}
			for range 3 + c.IntN(8) {
				i := c.IntN(w.pieces()+1) - 1
				late := time.Duration(c.IntN(200000))
				asked.Add(1)
				spawn(func() {
					time.Sleep(late)
					if i < 0 {
						if err := s.Torrent.Wait(); err != nil {
							c.Report("waiter told wrongly", fmt.Sprintf("a waiter of the torrent got %v", err))
						}
						if !rawExists(filepath.Join(w.target, w.info.Name)) {
							c.Report("waiter answered early", "a waiter of the torrent was answered before it was in place")
						}
						answered.Add(1)
						return
					}
					err := s.GetPiece(i).Wait()
					has := s.Torrent.HasPiece(i)
					answered.Add(1)
					if err == nil {
						good.Add(1)
						if !has {
							c.Report("waiter answered early", fmt.Sprintf("a waiter of piece %d got no error, and the piece is not there", i))
						}
						if d, err := s.GetBlock(i, 0, w.pieceLen(i)); err != nil || !bytes.Equal(d, w.piece(i)) {
							c.Report("waiter answered early", fmt.Sprintf("a waiter of piece %d got no error, and the piece is not readable: %v", i, err))
						}
					} else {
						failing.Add(1)
						if resets[i].Load() == 0 {
							c.Report("waiter told wrongly", fmt.Sprintf("a waiter of piece %d got %v, and nothing was reset or corrupt", i, err))
						}
					}
				})
			}
			wg.Wait()
			for i := range w.pieces() {
				if !s.Torrent.HasPiece(i) {
					resets[i].Add(1)
					s.ResetPiece(i)
					for _, b := range w.blocks(i) {
						s.PutBlock(i, b.begin, w.good(b))
					}
				}
			}
			time.Sleep(time.Hour)
			synctest.Wait()
			if a, b := asked.Load(), answered.Load(); a != b {
				c.Report("waiter left behind", fmt.Sprintf("everything is complete, %d of %d waiters are answered; torrent %v", b, a, w))
			}
		})
		stop()
		if dead != "" && !c.Run.Failed() {
			c.Fail("deadlock", "%s\n%s", dead, blocked(vk.Stacks()))
		}
		c.Count("waiters", int(asked.Load()))
		c.Count("concurrent_successes", int(good.Load()))
		c.Count("concurrent_failures", int(failing.Load()))
		c.Count("yield_points", sp.Points())
		c.Seen(asked.Load(), good.Load(), failing.Load(), sp.Points(), len(w.content))
	})
}
