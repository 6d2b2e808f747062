package p2p

import (
	"fmt"
	"net/netip"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/vk"
)

// What is left of connections when they have ended: goroutines, the connections
// themselves (they can be collected, or not), and memory.

func heap() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// passer is a peer that comes and goes.
func passer(c *vk.Case) style {
	var s style
	switch c.IntN(6) {
	case 0:
		s = rude(c)
	case 1:
		s = leecher(c)
	case 2:
		s = seeder(c)
	case 3:
		s = style{name: "caller", quit: secs(c, 0, 20) + 1, quitHow: c.IntN(3), silent: []float64{0, 1, 0.5}[c.IntN(3)], bitsFirst: c.IntN(2) == 0}
	default:
		s = hostile(c)
	}
	s.corrupt = 0 // those are remembered
	if c.IntN(2) == 0 && s.again == 0 {
		s.again = time.Duration(200+c.IntN(9000)) * time.Millisecond
		if s.quit == 0 && s.garbage == 0 {
			s.quit, s.quitHow = secs(c, 0, 15)+1, c.IntN(3)
		}
	}
	return s
}

func TestP12(t *testing.T) {
	r := vk.Start(t, "P12", "distinct histories of crowds of peers that come, fail and go, after each of which the server's goroutines, the connections that cannot be collected and the memory in use are counted; non-trivial: crowds after the first three")
	r.Cases("crowds", r.N(32, 800), func(c *vk.Case) {
		sp, unspread := spread(c, 3)
		defer unspread()
		bubble(c, func() {
			w := newWorld(c, options{maxPieces: 24, small: true, have: []float64{0, 0.5, 1}[c.IntN(3)]})
			defer w.drop()
			w.shape()
			w.n.tap = nil
			w.blind = true
			var made, freed atomic.Int64
			w.n.made = func(l *local) {
				made.Add(1)
				runtime.AddCleanup(l, func(int) { freed.Add(1) }, 0)
			}
			var known []*agentAddr
			interval := 5 + c.IntN(40)
			w.trackers[0].decide = func(a *announce) reply {
				w.lk.Lock()
				defer w.lk.Unlock()
				named := false
				for _, k := range known {
					named = named || k.id != nil
				}
				return reply{body: answer(interval, known, !named), ok: true}
			}
			w.start()
			time.Sleep(time.Minute)
			synctest.Wait()
			// No server may be at an announce when it is looked at
			stacks := func() (int, string) {
				s := ""
				n := 1 << 30
				for range 5 {
					synctest.Wait()
					if t := serverStacks(); strings.Count(t, "\n\n") < n {
						s, n = t, strings.Count(t, "\n\n")
					}
					time.Sleep(1700 * time.Millisecond)
				}
				return n, s
			}
			idle, first := stacks()
			const rounds = 14
			var base, most, past, pastBase int
			var story []string
			for round := range rounds {
				end := w.rec.now() + secs(c, 40, 120)
				n := 30 + c.IntN(60)
				var agents []*agent
				for range n {
					s := passer(c)
					s.until = end - time.Duration(c.IntN(20000))*time.Millisecond
					a := w.newAgent(s, some(c, w.pieces(), []float64{0, 0.5, 1}[c.IntN(3)]))
					agents = append(agents, a)
					if k := c.IntN(4); k == 0 {
						a.listen()
						known = append(known, &agentAddr{ap: a.ap})
						if c.IntN(2) == 0 {
							id := a.id
							if c.IntN(3) == 0 {
								id[c.IntN(20)] ^= 1 << c.IntN(8)
							}
							known[len(known)-1].id = &id
						}
					} else {
						d := time.Duration(c.IntN(20000)) * time.Millisecond
						w.spawn(func() {
							if w.sleep(d) {
								a.connect()
							}
						})
						if k == 1 { // more than once at a time
							w.spawn(func() {
								if w.sleep(d + time.Second) {
									a.connect()
								}
							})
						}
					}
				}
				for k := range c.IntN(20) {
					ap := netip.AddrPortFrom(netip.AddrFrom4([4]byte{203, 0, 113, byte(k)}), uint16(1+c.IntN(60000)))
					if c.IntN(4) == 0 {
						w.n.host(ap, &host{hang: true})
					}
					known = append(known, &agentAddr{ap: ap})
				}
				time.Sleep(end - w.rec.now())
				w.lk.Lock()
				known = nil
				w.lk.Unlock()
				time.Sleep(5 * time.Minute)
				synctest.Wait()
				for _, a := range agents {
					w.n.unhost(a.ap)
				}
				agents = nil
				w.lk.Lock()
				if w.live > 0 {
					w.lk.Unlock()
					panic("harness: agents are still there\n" + vk.Stacks())
				}
				w.ends, w.announces = nil, nil
				w.lk.Unlock()
				w.n.lk.Lock()
				w.n.conns = nil
				for ap := range w.n.hosts {
					if ap != w.trackers[0].ap {
						delete(w.n.hosts, ap)
					}
				}
				w.n.lk.Unlock()
				w.rec.lk.Lock()
				w.rec.conns = nil
				w.rec.lk.Unlock()

				g, left := stacks()
				w.n.lk.Lock()
				w.n.conns = nil // announces
				w.n.lk.Unlock()
				c.Evals(1)
				if g > idle {
					c.Fail("goroutines stay", "all peers have been gone for 5 minutes, and the server has %d goroutines, %d before the first came:\n%s\nbefore:\n%s", g, idle, left, first)
				}
				in := heap()
				live := int64(0)
				for range 200 {
					runtime.Gosched()
					if live = made.Load() - freed.Load(); live <= 2 {
						break
					}
					runtime.GC()
				}
				c.Max("max_connections_kept", int(live))
				if live > 4 {
					c.Fail("connections stay", "all peers have been gone for 5 minutes, and %d of %d connections are still referred to", live, made.Load())
				}
				past = int(made.Load())
				story = append(story, fmt.Sprintf("after %d connections: %d bytes", past, in))
				if round < 3 {
					base, pastBase = max(base, in), past
				} else {
					most = in - base
					c.Seen(c.Index, round, past, w.pieces())
				}
			}
			c.Max("max_bytes_kept", max(0, most))
			c.Count("connections", past)
			c.Count("yield_points", sp.Points())
			if n := past - pastBase; most > n*15+128<<10 {
				c.Fail("memory grows with the past", "%d bytes in use more than after the first crowds, for %d connections that have ended\n%s", most, n, strings.Join(story, "\n"))
			}
			c.Sample("%d connections, %d bytes kept", past, most)
			w.stop("")
			w.close()
		})
	})
}
