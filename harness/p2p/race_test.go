package p2p

import (
	"testing"
	"time"

	"verif/harness/steer"
	"verif/harness/vk"
)

// raced runs a mix for the race detector: nothing here is to synchronize goroutines of
// the server more than a real network and real peers would. So nothing is recorded, and
// nothing looks at the server's state while it runs.
func raced(c *vk.Case, m mix) {
	if c.IntN(3) == 0 {
		defer steer.Spread(&steer.Sched{Loose: true})()
	}
	bubble(c, func() {
		w := newWorld(c, m.o)
		defer w.drop()
		w.n.tap = nil
		w.blind = true
		w.shape()
		if m.tune != nil {
			m.tune(w)
		}
		w.populate(m)
		if c.IntN(3) == 0 { // somebody stops it, ordered by nothing
			d := time.Duration(c.IntN(int(m.stop)))
			if c.IntN(2) == 0 {
				d = time.Duration(c.IntN(1e6))
			}
			w.spawn(func() {
				time.Sleep(d)
				for k := 0; k < 10 && w.srv.Stop() != nil; k++ {
					time.Sleep(1)
				}
			})
		}
		w.start()
		ready := func() bool { // orders what follows after the start
			for w.sleep(100 * time.Millisecond) {
				w.n.lk.Lock()
				l := w.n.listeners[w.port]
				w.n.lk.Unlock()
				if l != nil {
					return true
				}
			}
			return false
		}
		if c.IntN(3) == 0 { // somebody watches its progress
			w.spawn(func() {
				for ready() && w.sleep(time.Second) {
					w.srv.Downloaded()
					w.srv.Uploaded()
				}
			})
		}
		if c.IntN(4) == 0 { // and does other things with the storage
			w.spawn(func() {
				for k := 0; ready() && w.sleep(3*time.Second); k++ {
					i := k % w.pieces()
					if w.st.Torrent.HasPiece(i) {
						w.st.GetBlock(i, 0, 1)
					}
				}
			})
		}
		time.Sleep(m.stop)
		for range c.IntN(3) {
			w.spawn(func() { w.srv.Stop() })
		}
		w.stop("")
		w.close()
		moved, conns := 0, 0
		var shape []int
		for _, l := range w.n.conns {
			if l.quiet {
				continue
			}
			conns++
			up, down := l.in.total, l.out.total
			moved += up + down
			shape = append(shape, up, down)
		}
		c.Evals(conns)
		c.Count("connections", conns)
		c.Count("bytes", moved)
		c.Count("announces", len(w.announces))
		c.Seen(shape)
		c.Sample("%d connections, %d bytes, %d announces in %v", conns, moved, len(w.announces), m.stop)
	})
}

func TestP10(t *testing.T) {
	r := vk.Start(t, "P10", "distinct runs (by the bytes that crossed on each connection) of servers among many peers and trackers under the race detector")
	r.Cases("mix", r.N(120, 20000), func(c *vk.Case) {
		plans := map[int]*plan{}
		o := options{maxPieces: 10, have: []float64{0, 0.3, 1}[c.IntN(3)], large: c.IntN(5) == 0}
		m := mix{o: o, seeders: c.IntN(4), leechers: c.IntN(4), hostiles: c.IntN(8), stop: secs(c, 5, 200)}
		if c.IntN(3) == 0 {
			m.o.layout = layout(c, plans)
			rl := newLock()
			m.tune = func(w *world) {
				for _, t := range w.trackers {
					t.decide = func(a *announce) reply {
						rl.Lock()
						defer rl.Unlock()
						var l []*agentAddr
						if p := w.trackers[0].peers; p != nil {
							l = p()
						}
						if a.event == "started" || w.agentRng.Float64() < plans[t.num].good {
							return t.behave(20, l)
						}
						return t.misbehave(20)
					}
				}
			}
		}
		m.extra = func(w *world, add func(s style, have map[int]bool, how int) *agent) {
			for range c.IntN(4) {
				add(rude(c), nil, 1+c.IntN(4))
			}
			for range c.IntN(3) {
				s := leecher(c)
				s.quit, s.quitHow, s.again = secs(c, 2, 30), c.IntN(3), secs(c, 1, 10)
				add(s, some(c, w.pieces(), 0.3), comes)
			}
		}
		raced(c, m)
	})
	r.Cases("churn", r.N(60, 8000), func(c *vk.Case) {
		// Many come and go while pieces are on their way, and some are wrong
		m := mix{o: options{maxPieces: 16, small: true, have: []float64{0, 0.3}[c.IntN(2)]}, stop: secs(c, 20, 100)}
		m.extra = func(w *world, add func(s style, have map[int]bool, how int) *agent) {
			for range 2 + c.IntN(6) {
				s := seeder(c)
				s.lat, s.drip = ms(0, 3000), 0
				add(s, all(w.pieces()), anyWay)
			}
			for range 1 + c.IntN(4) {
				s := seeder(c)
				s.name, s.corrupt, s.lat, s.drip, s.again = "corrupt", 0.5, ms(0, 2000), 0, time.Duration(1+c.IntN(1000))*time.Millisecond
				add(s, all(w.pieces()), anyWay)
			}
			for range 5 + c.IntN(30) {
				s := leecher(c)
				s.quit, s.quitHow, s.again = time.Duration(1+c.IntN(3000))*time.Millisecond, c.IntN(3), time.Duration(1+c.IntN(2000))*time.Millisecond
				add(s, some(c, w.pieces(), 0.5), comes)
			}
			for range c.IntN(4) {
				s := leecher(c)
				s.name, s.requests, s.upTo, s.deaf, s.again = "deaf", 20, 1000, secs(c, 1, 10), secs(c, 1, 5)
				add(s, nil, comes)
			}
			unreachable(c, w, c.IntN(30), m.stop)
		}
		raced(c, m)
	})
	r.Cases("crowd", r.N(12, 2000), func(c *vk.Case) {
		m := mix{o: options{maxPieces: 20, small: true, have: []float64{0, 0.5, 1}[c.IntN(3)]}, seeders: c.IntN(10), leechers: c.IntN(30), hostiles: c.IntN(40), stop: secs(c, 20, 120)}
		raced(c, m)
	})
}
