package p2p

import (
	"bytes"
	"fmt"
	"net/netip"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"

	"verif/harness/vk"
)

func all(n int) map[int]bool {
	m := map[int]bool{}
	for i := range n {
		m[i] = true
	}
	return m
}

func some(c *vk.Case, n int, p float64) map[int]bool {
	m := map[int]bool{}
	for i := range n {
		if c.Float64() < p {
			m[i] = true
		}
	}
	return m
}

func secs(c *vk.Case, lo, hi int) time.Duration {
	return time.Duration(lo*1000+c.IntN((hi-lo)*1000+1)) * time.Millisecond
}

func ms(lo, hi int) [2]time.Duration {
	return [2]time.Duration{time.Duration(lo) * time.Millisecond, time.Duration(hi) * time.Millisecond}
}

// seeder is an honest source.
func seeder(c *vk.Case) style {
	s := style{name: "seeder", bitsFirst: c.IntN(2) == 0, lat: ms(0, 1+c.IntN(1500))}
	switch c.IntN(4) {
	case 0:
		s.lat = ms(0, 0)
	case 1:
		s.shuffle = true
	}
	if c.IntN(3) == 0 {
		s.drip = secs(c, 0, 10)
	}
	if c.IntN(4) == 0 {
		s.slowStart = secs(c, 0, 20)
	}
	if c.IntN(3) == 0 { // takes as well as gives
		s.requests, s.upTo, s.half = 1+c.IntN(16), 10+c.IntN(100), c.IntN(3) > 0
	}
	return s
}

// leecher is an honest sink.
func leecher(c *vk.Case) style {
	return style{name: "leecher", requests: 1 + c.IntN(8), upTo: 10 + c.IntN(60), cancels: []float64{0, 0.2, 0.6}[c.IntN(3)], bitsFirst: c.IntN(2) == 0, lat: ms(0, 500), half: c.IntN(4) == 0}
}

// hostile is any of those that disturb a download.
func hostile(c *vk.Case) style {
	s := style{bitsFirst: c.IntN(2) == 0, lat: ms(0, 1+c.IntN(1000))}
	switch c.IntN(15) {
	case 0:
		s.name, s.corrupt = "corrupt", []float64{1, 0.5, 0.1}[c.IntN(3)]
	case 1:
		s.name, s.silent = "silent", []float64{1, 0.5, 0.2}[c.IntN(3)]
	case 2:
		s.name, s.lie = "liar", true
	case 3:
		s.name, s.mute = "mute", true
	case 4:
		s.name, s.toggle = "choker", secs(c, 1, 15)
	case 5:
		s.name, s.toggle, s.toggleNow, s.silent = "rechoker", secs(c, 1, 12), true, 0.5
	case 6:
		s.name, s.unasked, s.unaskedOK, s.silent = "pusher", secs(c, 0, 5)+50*time.Millisecond, c.IntN(2) == 0, 0.5
	case 7:
		s.name, s.quit, s.quitHow, s.again = "quitter", secs(c, 0, 30)+1, c.IntN(3), secs(c, 1, 20)
	case 8:
		s.name, s.garbage, s.again = "garbler", secs(c, 0, 30)+1, secs(c, 1, 20)
	case 9:
		s.name, s.halt = "halter", secs(c, 0, 30)+1
	case 10:
		s.name, s.noise = "noisy", secs(c, 0, 5)+50*time.Millisecond
	case 11:
		s.name, s.twice, s.shuffle = "doubler", true, true
	case 12:
		s.name, s.deaf = "deaf", secs(c, 0, 30)+1
	case 13:
		s.name, s.lat, s.corrupt = "slow", ms(8000, 14000), []float64{0, 0, 0.3, 1}[c.IntN(4)]
	case 14:
		s.name, s.tail, s.lat = "tail", secs(c, 1, 6), ms(6500, 8500)
	}
	if c.IntN(3) == 0 && s.again == 0 {
		s.requests, s.upTo = 1+c.IntN(6), 1+c.IntN(40)
	}
	return s
}

// mix is a server among many peers.
type mix struct {
	o                           options
	seeders, leechers, hostiles int
	stop                        time.Duration // after; 0: when complete, or after a while
	max                         time.Duration
	noSpread                    bool
	quiet                       bool // stop while no announce is under way
	tune                        func(w *world)
	during                      func(w *world)
	extra                       func(w *world, add func(s style, have map[int]bool, how int) *agent)
	after                       func(w *world, j *judge)
}

// Ways a peer meets the server.
const (
	anyWay     = iota
	comes      // connects to the server
	listed     // named by the tracker
	listedID   // named with its id
	listedElse // named with another id
)

// play runs a mix and judges it by the rules of one property.
func play(c *vk.Case, prop string, m mix) {
	sp, stop := spread(c, 2)
	if m.noSpread {
		stop()
		stop = func() {}
	}
	defer stop()
	bubble(c, func() {
		w := newWorld(c, m.o)
		defer w.drop()
		w.shape()
		if m.tune != nil {
			m.tune(w)
		}
		w.populate(m)
		w.start()
		complete := func() bool {
			return len(w.held) > 0 && len(w.held[len(w.held)-1].have) == w.pieces()
		}
		if m.during != nil {
			m.during(w)
		}
		limit := m.max
		if limit == 0 {
			limit = 8 * time.Minute
		}
		if m.stop > 0 {
			w.advance(m.stop, 3*time.Second, nil)
		} else {
			w.advance(limit, 3*time.Second, complete)
			w.advance(secs(c, 5, 45), 3*time.Second, nil)
		}
		if m.quiet {
			w.advance(10*time.Minute, time.Second, func() bool { return !w.underway() })
		}
		w.poll()
		select {
		case err := <-w.startErr:
			w.startErr <- err
			w.failed = true
		default:
		}
		w.overlap = w.underway()
		at := w.rec.now()
		w.stop("")
		w.close()
		if c.Run.Failed() {
			return
		}
		j := newJudge(w, prop, at)
		j.calm = sp.Points() == 0
		j.all()
		if m.after != nil {
			m.after(w, j)
		}
		n := j.n
		c.Evals(n)
		c.Count("rules_evaluated", n)
		c.Count("events", len(w.rec.log))
		c.Count("connections", len(j.views))
		c.Count("yield_points", sp.Points())
		h := uint64(14695981039346656037)
		for _, e := range w.rec.log {
			h = (h ^ uint64(e.conn)<<16 ^ uint64(e.kind)<<8 ^ uint64(e.m.kind+2) ^ uint64(e.m.index)<<24) * 1099511628211
		}
		c.Seen(h)
		if n > 20 {
			s := ""
			for _, v := range j.views {
				s += fmt.Sprintf("; #%d %s %d events", v.num, v.who, len(v.evs))
			}
			c.Sample("%d pieces of %d bytes, %v events in %v%s", w.pieces(), w.info.PieceLength, len(w.rec.log), at, s)
		}
	})
}

// shape chooses how the network behaves.
func (w *world) shape() {
	c := w.c
	caps := []int{1 << 20, 1 << 16, 4096, 20000}
	w.n.capacity = func() int { return caps[w.n.rng.IntN(len(caps))] }
	switch c.IntN(3) {
	case 0:
		w.n.chunk = func() int { return []int{0, 1, 7, 1000, 20000}[w.n.rng.IntN(5)] }
	case 1:
		w.n.chunk = func() int { return []int{0, 5000}[w.n.rng.IntN(2)] }
	}
	if c.IntN(3) == 0 {
		w.n.latency = func() time.Duration { return time.Duration(w.n.rng.IntN(300)) * time.Millisecond }
	}
}

func (w *world) populate(m mix) (list []*agent) {
	c := w.c
	var known []*agentAddr
	add := func(s style, have map[int]bool, how int) *agent {
		a := w.newAgent(s, have)
		list = append(list, a)
		if how == anyWay {
			how = listed + c.IntN(2)
			if c.IntN(3) > 0 || s.again > 0 {
				how = comes
			}
		}
		if how == comes {
			d := secs(c, 0, 20)
			if s.from > 0 {
				d = s.from - time.Second
			}
			w.spawn(func() {
				// Not before the server listens
				if w.sleep(time.Second + d) {
					a.connect()
				}
			})
		} else {
			k := &agentAddr{ap: a.ap, until: s.until}
			if how == listedID || how == listedElse {
				id := a.id
				if how == listedElse {
					id[c.IntN(20)] ^= 1 << c.IntN(8)
				}
				k.id, a.named = &id, &id
			}
			a.listen()
			known = append(known, k)
		}
		return a
	}
	for range m.seeders {
		add(seeder(c), all(w.pieces()), anyWay)
	}
	for range m.leechers {
		add(leecher(c), some(c, w.pieces(), []float64{0, 0.3, 0.8}[c.IntN(3)]), anyWay)
	}
	for range m.hostiles {
		h := all(w.pieces())
		if c.IntN(3) == 0 {
			h = some(c, w.pieces(), 0.5)
		}
		add(hostile(c), h, anyWay)
	}
	if len(w.trackers) > 0 {
		w.trackers[0].peers = func() (l []*agentAddr) {
			for _, k := range known {
				if k.until == 0 || w.rec.now() < k.until {
					l = append(l, k)
				}
			}
			return l
		}
		w.list = func(k *agentAddr) { known = append(known, k) }
	}
	if m.extra != nil {
		m.extra(w, add)
	}
	return list
}

// rude is a peer that does not get through its handshake, or more than one at a time.
func rude(c *vk.Case) style {
	s := leecher(c)
	s.hello = 1 + c.IntN(helloWays-1)
	s.name = fmt.Sprintf("rude (hello %d)", s.hello)
	if c.IntN(2) == 0 {
		s.again = secs(c, 0, 10) + time.Millisecond
	}
	return s
}

func TestP01(t *testing.T) {
	r := vk.Start(t, "P01", "distinct histories of messages in which well-behaved peers are watched while others violate the protocol, stall and disconnect")
	r.Cases("mix", r.N(400, 20000), func(c *vk.Case) {
		play(c, "P01", mix{o: options{maxPieces: 10, have: []float64{1, 0, 0.5}[c.IntN(3)]}, seeders: c.IntN(2), leechers: 1 + c.IntN(3), hostiles: 2 + c.IntN(8), stop: secs(c, 30, 200),
			extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
				for range c.IntN(4) {
					add(rude(c), nil, 1+c.IntN(4))
				}
				for range c.IntN(3) { // come and go
					s := leecher(c)
					s.quit, s.quitHow, s.again = secs(c, 5, 60), c.IntN(3), secs(c, 1, 20)
					add(s, some(c, w.pieces(), 0.3), comes)
				}
			}})
	})
}

func TestP03(t *testing.T) {
	r := vk.Start(t, "P03", "distinct histories of messages between the server and its peers, in which every block sent is matched with the requests read before it")
	r.Cases("mix", r.N(1600, 40000), func(c *vk.Case) {
		play(c, "P03", mix{o: options{maxPieces: 8, have: []float64{1, 0.7, 0.3}[c.IntN(3)]}, seeders: c.IntN(2), leechers: 1 + c.IntN(4), hostiles: c.IntN(3), max: 3 * time.Minute})
	})
	r.Cases("doze", r.N(200, 10000), func(c *vk.Case) {
		play(c, "P03", mix{o: options{maxPieces: 8, have: []float64{1, 0.7, 0.3}[c.IntN(3)]}, seeders: c.IntN(2), leechers: c.IntN(2), stop: 3 * time.Minute, tune: func(w *world) {
			if c.IntN(2) == 0 {
				narrow(w)
			}
		}, extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
			for range 1 + c.IntN(4) {
				add(dozer(c), some(c, w.pieces(), 0.3), anyWay)
			}
		}})
	})
}

func TestP04(t *testing.T) {
	r := vk.Start(t, "P04", "distinct histories of messages between the server and its peers, in which every announcement is compared with the blocks the server had read, and every completed piece is looked for on all connections")
	r.Cases("mix", r.N(400, 20000), func(c *vk.Case) {
		play(c, "P04", mix{o: options{maxPieces: 12, have: []float64{0, 0.7, 0.3}[c.IntN(3)]}, seeders: 1 + c.IntN(2), leechers: c.IntN(4), hostiles: c.IntN(4)})
	})
	r.Cases("doze", r.N(200, 10000), func(c *vk.Case) {
		play(c, "P04", mix{o: options{maxPieces: 40, small: true, have: []float64{0, 0.3}[c.IntN(2)]}, stop: 150 * time.Second, tune: narrow, extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
			for range 1 + c.IntN(2) {
				s := seeder(c)
				s.drip = secs(c, 0, 6)
				add(s, all(w.pieces()), anyWay)
			}
			for range 1 + c.IntN(4) {
				s := dozer(c)
				if c.IntN(3) > 0 {
					s.requests = 0
				}
				add(s, nil, anyWay)
			}
		}})
	})
	r.Cases("spam", r.N(200, 20000), func(c *vk.Case) {
		play(c, "P04", mix{o: options{maxPieces: 6}, leechers: 1 + c.IntN(2), max: 4 * time.Minute, extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
			for range 1 + c.IntN(3) {
				add(spammer(c), all(w.pieces()), anyWay)
			}
		}})
	})
}

// spammer sends what was not asked for in the hope that it is about to be.
func spammer(c *vk.Case) style {
	s := seeder(c)
	s.name, s.mute, s.unaskedOK, s.silent, s.spam = "spammer", true, c.IntN(3) > 0, 1, time.Duration(50+c.IntN(3000))*time.Millisecond
	return s
}

func TestP09(t *testing.T) {
	r := vk.Start(t, "P09", "distinct histories of messages between the server and its peers, in which every request is checked against what was announced, choked, complete and open elsewhere")
	r.Cases("mix", r.N(1200, 30000), func(c *vk.Case) {
		play(c, "P09", mix{o: options{maxPieces: 10, large: c.IntN(4) == 0, have: []float64{0, 0, 0.3}[c.IntN(3)]}, seeders: c.IntN(3), leechers: c.IntN(2), hostiles: c.IntN(5)})
	})
	r.Cases("tail", r.N(100, 4000), func(c *vk.Case) {
		play(c, "P09", mix{o: options{maxPieces: 3, large: true}, seeders: 1, hostiles: c.IntN(2), stop: secs(c, 30, 120),
			extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
				for range 1 + c.IntN(2) {
					add(style{name: "tail", tail: secs(c, 1, 6), lat: ms(6500, 8500), bitsFirst: true}, all(w.pieces()), anyWay)
				}
			}})
	})
	r.Cases("doze", r.N(300, 10000), func(c *vk.Case) {
		// Requests wait behind blocks that are not read, while the peer chokes
		play(c, "P09", mix{o: options{maxPieces: 10, have: 0.5}, seeders: c.IntN(2), stop: 2 * time.Minute,
			tune: func(w *world) {
				if c.IntN(2) == 0 {
					narrow(w)
				}
			},
			extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
				for range 1 + c.IntN(3) {
					s := dozer(c)
					s.doze[1] = secs(c, 2, 35)
					s.requests, s.upTo = 4+c.IntN(16), 100
					s.toggle = secs(c, 1, 12)
					s.naps = []float64{0, 0.1, 0.3}[c.IntN(3)]
					add(s, some(c, w.pieces(), 0.9), anyWay)
				}
			}})
	})
	r.Cases("choice", r.N(300, 15000), func(c *vk.Case) {
		// All pieces are known of before any is asked for, and little changes meanwhile
		play(c, "P09", mix{o: options{minPieces: 4, maxPieces: 24, small: c.IntN(2) == 0, have: []float64{0, 0.3}[c.IntN(2)]}, noSpread: c.IntN(4) > 0,
			tune: func(w *world) { w.n.capacity = func() int { return 1 << 20 } },
			extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
				for range 2 + c.IntN(6) {
					s := seeder(c)
					s.bitsFirst, s.drip, s.slowStart = true, 0, secs(c, 5, 40)
					s.lat = ms(200, 200+c.IntN(4000))
					if c.IntN(4) == 0 {
						s.mute = true
					}
					add(s, some(c, w.pieces(), []float64{0.2, 0.5, 0.9, 1}[c.IntN(4)]), anyWay)
				}
			}})
	})
}

func TestP08(t *testing.T) {
	r := vk.Start(t, "P08", "distinct histories of messages between the server and peers that shake hands in all sorts of ways, in which everything the server sends is compared with the handshakes it had read")
	r.Cases("mix", r.N(3000, 80000), func(c *vk.Case) {
		play(c, "P08", mix{o: options{maxPieces: 6, have: []float64{1, 0, 0.5}[c.IntN(3)]}, seeders: c.IntN(2), leechers: c.IntN(2), stop: secs(c, 5, 100),
			extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
				for range 2 + c.IntN(8) {
					s := seeder(c)
					if c.IntN(2) == 0 {
						s = leecher(c)
					}
					s.hello = c.IntN(helloWays)
					if c.IntN(4) == 0 {
						s.helloIn = secs(c, 0, 15)
					}
					if c.IntN(2) == 0 {
						s.again = secs(c, 1, 20)
					}
					s.name += fmt.Sprintf(" (hello %d after %v)", s.hello, s.helloIn)
					add(s, some(c, w.pieces(), 0.7), 1+c.IntN(4))
					w.c.Count(fmt.Sprintf("hello_%d", s.hello), 1)
				}
			}})
	})
}

// source is an honest peer that answers in good time.
func source(c *vk.Case) style {
	s := seeder(c)
	s.lat = ms(0, 1+c.IntN([]int{1000, 3000, 8000}[c.IntN(3)]))
	if c.IntN(3) == 0 {
		s.requests, s.upTo = 1+c.IntN(4), 1+c.IntN(30)
	}
	s.name = "source"
	return s
}

// onDisk compares what the server has stored with the content.
func (w *world) onDisk(rule string) {
	st := w.open()
	if err := st.Load(); err != nil {
		w.c.Report(rule+": the finished download does not load", err.Error())
		return
	}
	for i := range w.pieces() {
		b, err := st.GetBlock(i, 0, w.pieceLen(i))
		if err != nil || !bytes.Equal(b, w.piece(i)) {
			w.c.Report(rule+": the content differs", fmt.Sprintf("piece %d of the finished download: %v", i, err))
			return
		}
	}
	off := 0
	read := func(path string, n int) {
		b, err := os.ReadFile(path)
		if err != nil || !bytes.Equal(b, w.content[off:off+n]) {
			w.c.Report(rule+": a file differs", fmt.Sprintf("%s: %d bytes, want %d: %v", path, len(b), n, err))
		}
		off += n
	}
	if len(w.info.Files) == 0 {
		read(filepath.Join(w.dir, "target", w.info.Name), len(w.content))
		return
	}
	for _, f := range w.info.Files {
		read(filepath.Join(append([]string{w.dir, "target", w.info.Name}, f.Path...)...), int(f.Length))
	}
}

func TestP02(t *testing.T) {
	r := vk.Start(t, "P02", "distinct histories of downloads from honest sources among peers that disturb them, each of which must complete with the described content")
	one := func(c *vk.Case, m mix) {
		m.max = 15 * time.Minute
		m.after = func(w *world, j *judge) {
			last := w.held[len(w.held)-1]
			if len(last.have) < w.pieces() {
				c.Report("P02: does not complete", fmt.Sprintf("after %v, only %v of %d pieces are complete\n%s", last.t, keys(last.have), w.pieces(), w.story(0)))
				return
			}
			first := time.Duration(0)
			for _, h := range w.held {
				if len(h.have) == w.pieces() {
					first = h.t
					break
				}
			}
			c.Max("max_seconds_to_complete", int(first.Seconds()))
			if first > 10*time.Minute {
				c.Count("slower_than_10_minutes", 1)
			}
			w.onDisk("P02")
		}
		play(c, "P02", m)
	}
	sources := func(c *vk.Case, w *world, add func(s style, have map[int]bool, how int) *agent) {
		n := 1 + c.IntN(3)
		hold := make([]map[int]bool, n)
		for k := range hold {
			hold[k] = map[int]bool{}
		}
		p := c.Float64()
		for i := range w.pieces() {
			hold[c.IntN(n)][i] = true
			for k := range hold {
				if c.Float64() < p {
					hold[k][i] = true
				}
			}
		}
		for k := range hold {
			add(source(c), hold[k], anyWay)
		}
	}
	r.Cases("mix", r.N(1200, 40000), func(c *vk.Case) {
		one(c, mix{o: options{maxPieces: 8, large: c.IntN(4) == 0, have: []float64{0, 0, 0.3}[c.IntN(3)]}, leechers: c.IntN(2), hostiles: c.IntN(7),
			extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) { sources(c, w, add) }})
	})
	r.Cases("choke", r.N(300, 10000), func(c *vk.Case) {
		one(c, mix{o: options{maxPieces: 3},
			extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
				add(source(c), all(w.pieces()), anyWay)
				for range 1 + c.IntN(4) {
					s := seeder(c)
					s.name, s.toggle, s.toggleNow, s.silent = "rechoker", secs(c, 1, 9), true, 1
					add(s, all(w.pieces()), anyWay)
				}
			}})
	})
}

// served counts the connections of peers of some name that are served at some time.
func (j *judge) served(name string, at time.Duration) (n int) {
	for _, v := range j.views {
		if strings.HasPrefix(v.who, name+" ") && v.served <= at && v.left > at && v.closed > at {
			n++
		}
	}
	return n
}

// dozer is a peer that does not read for a while, and then goes on.
func dozer(c *vk.Case) style {
	s := style{name: "dozer", bitsFirst: c.IntN(2) == 0, lat: ms(0, 500), doze: [2]time.Duration{secs(c, 0, 40), secs(c, 25, 100)}}
	if c.IntN(2) == 0 {
		s.requests, s.upTo = 1+c.IntN(16), 10+c.IntN(60)
	}
	return s
}

// narrow has some connections with room for few bytes.
func narrow(w *world) {
	caps := []int{1 << 16, 20000, 1, 5, 10, 30, 100, 300}
	w.n.capacity = func() int { return caps[w.n.rng.IntN(len(caps))] }
	w.n.latency = func() time.Duration { return 0 }
	w.n.chunk = func() int { return 0 }
}

// settler is a peer that stays, and comes back when refused.
func settler(c *vk.Case, from time.Duration) style {
	return style{name: "settler", again: secs(c, 1, 3), from: from, quit: 0}
}

// unreachable has the tracker name peers that do not answer.
func unreachable(c *vk.Case, w *world, n int, until time.Duration) {
	for range n {
		a := w.newAgent(style{}, nil)
		switch c.IntN(3) {
		case 0:
			w.n.host(a.ap, &host{hang: true})
		case 1:
			w.n.host(a.ap, &host{refuse: true})
		}
		w.list(&agentAddr{ap: a.ap, until: until})
	}
}

func TestP05(t *testing.T) {
	r := vk.Start(t, "P05", "distinct histories of connections that come, fail and go in numbers around the limit, the open ones being counted at every moment")
	type adder = func(s style, have map[int]bool, how int) *agent
	expect := func(c *vk.Case, w *world, j *judge, at time.Duration, want int, why string) {
		c.Evals(1)
		if n := j.served("settler", at); n != want {
			j.fail("P05", "places are not used", []int{-1}, "at %v, %d peers that keep trying are served, and %d should be: %s", at, n, want, why)
		}
	}
	r.Cases("churn", r.N(80, 4000), func(c *vk.Case) {
		end := secs(c, 20, 120)
		check := end + 45*time.Second + 40*time.Second
		play(c, "P05", mix{o: options{maxPieces: 4, small: true, have: 1}, stop: check + 5*time.Second,
			extra: func(w *world, add adder) {
				for range 5 + c.IntN(60) {
					s := rude(c)
					switch c.IntN(3) {
					case 0:
						s = hostile(c)
					case 1:
						s = leecher(c)
						s.quit, s.quitHow = secs(c, 0, 10), c.IntN(3)
					}
					s.until = end
					if c.IntN(3) > 0 {
						s.again = time.Duration(100+c.IntN(5000)) * time.Millisecond
					}
					a := add(s, all(w.pieces()), 1+c.IntN(4))
					if c.IntN(5) == 0 { // more than once at a time
						w.spawn(func() {
							if w.sleep(time.Second) {
								a.connect()
							}
						})
					}
				}
				unreachable(c, w, c.IntN(100), end)
				for range c.IntN(3) {
					w.list(&agentAddr{ap: netip.AddrPortFrom(w.n.serverIP, w.port), until: end})
				}
				for range 53 {
					add(settler(c, end+45*time.Second), nil, comes)
				}
			},
			after: func(w *world, j *judge) {
				expect(c, w, j, check, 50, fmt.Sprintf("all earlier connections had ended by %v", end))
			}})
	})
	r.Cases("vanish", r.N(40, 4000), func(c *vk.Case) {
		play(c, "P05", mix{o: options{maxPieces: 4, small: true, have: []float64{0, 0.5, 1}[c.IntN(3)]}, seeders: c.IntN(2), stop: 6 * time.Minute,
			extra: func(w *world, add adder) {
				for range 1 + c.IntN(20) {
					s := leecher(c)
					if c.IntN(2) == 0 {
						s = hostile(c)
					}
					s.vanish = secs(c, 0, 60) + 1
					add(s, some(c, w.pieces(), 0.5), anyWay)
				}
			}})
	})
	r.Cases("flood", r.N(80, 4000), func(c *vk.Case) {
		first := 51 + c.IntN(30)
		quit := 1 + c.IntN(first-1)
		at := secs(c, 30, 60)
		play(c, "P05", mix{o: options{maxPieces: 4, small: true, have: []float64{0, 1}[c.IntN(2)]}, stop: at + 40*time.Second,
			extra: func(w *world, add adder) {
				for k := range first {
					s := settler(c, secs(c, 2, 10))
					if k < quit {
						s.until = at
					}
					if c.IntN(3) == 0 {
						s.requests, s.upTo = 2, 1000
					}
					add(s, nil, comes)
				}
				for range c.IntN(10) { // twins
					s := settler(c, secs(c, 2, 10))
					s.name, s.until = "twin", at
					a := add(s, nil, comes)
					w.spawn(func() {
						if w.sleep(secs(c, 2, 10)) {
							a.connect()
						}
					})
				}
			},
			after: func(w *world, j *judge) {
				expect(c, w, j, at+30*time.Second, min(50, first-quit), fmt.Sprintf("%d of %d left at %v", quit, first, at))
			}})
	})
	r.Cases("redial", r.N(80, 4000), func(c *vk.Case) {
		var list []*agent
		end := secs(c, 150, 300)
		play(c, "P05", mix{o: options{maxPieces: 4, small: true, have: []float64{0, 1}[c.IntN(2)]}, stop: end,
			extra: func(w *world, add adder) {
				for range 1 + c.IntN(10) {
					s := leecher(c)
					s.quit, s.quitHow = secs(c, 1, 20), c.IntN(3)
					if c.IntN(3) == 0 {
						s.hello, s.quit = []int{helloClose, helloHalf, helloNone, helloGarbage}[c.IntN(4)], 0
					}
					list = append(list, add(s, nil, listed+c.IntN(2)))
				}
				unreachable(c, w, c.IntN(40), end)
			},
			after: func(w *world, j *judge) {
				for _, a := range list {
					// At most 20 s, at most 31 s until the tracker is asked again, and 11 s of others that hang
					last := time.Duration(-1)
					for _, v := range j.views {
						if v.l.peer != a.ap || v.opened == never {
							continue
						}
						c.Evals(1)
						c.Count("dials", 1)
						if v.opened > last+75*time.Second && last >= 0 {
							j.fail("P05", "does not dial again", []int{v.num}, "%v was dialed at %v and next at %v", a.ap, last, v.opened)
						}
						last = v.opened
					}
					if end > last+75*time.Second {
						j.fail("P05", "does not dial again", nil, "%v (%s) was dialed at %v, and not again by %v, though the tracker names it", a.ap, a.s.name, last, end)
					}
				}
			}})
	})
}

// layout makes trackers in tiers, with how they are to behave.
func layout(c *vk.Case, plans map[int]*plan) func(w *world) [][]string {
	return func(w *world) (list [][]string) {
		health := []float64{1, 0.8, 0.5, 0.2, 0}
		for range 1 + c.IntN(3) {
			var tier []string
			for range []int{0, 1, 1, 2, 2, 3, 4}[c.IntN(7)] {
				if c.IntN(8) == 0 {
					tier = append(tier, []string{"", "udp://198.51.100.99:80/announce", "http://[::1", "%zz", "http://tracker.invalid:8080/announce", "wss://x/", "/announce", "http://198.51.100.77:99999/"}[c.IntN(8)])
					continue
				}
				t := w.newTracker(c.IntN(4))
				plans[t.num] = &plan{good: health[c.IntN(len(health))]}
				switch c.IntN(10) {
				case 0:
					plans[t.num].down = true
					w.n.host(t.ap, &host{refuse: true})
				case 1:
					plans[t.num].stuck = true
					w.n.host(t.ap, &host{hang: true})
				}
				tier = append(tier, t.url)
			}
			list = append(list, tier)
		}
		return list
	}
}

func TestP07(t *testing.T) {
	r := vk.Start(t, "P07", "distinct histories of announces to trackers in tiers that fail, hang and answer nonsense, each compared with a model of their order and with the traffic recorded")
	r.Cases("order", r.N(40, 400), func(c *vk.Case) {
		n := 2 + c.IntN(2)
		mi := &metainfo.Metainfo{Info: &metainfo.Info{}}
		for k := range 1 + c.IntN(3) {
			var l []string
			for i := range n {
				l = append(l, fmt.Sprintf("http://t%d-%d/", k, i))
			}
			mi.AnnounceList = append(mi.AnnounceList, l)
		}
		seen := make([]map[string]bool, len(mi.AnnounceList))
		for range 200 {
			mt := p2p.NewMultitracker(mi, nil)
			if len(mt.TrackerTiers) != len(mi.AnnounceList) {
				c.Fail("P07: tiers are lost", "%d of %d", len(mt.TrackerTiers), len(mi.AnnounceList))
			}
			for k, tier := range mt.TrackerTiers {
				var l []string
				for _, t := range tier {
					l = append(l, t.URL)
				}
				if seen[k] == nil {
					seen[k] = map[string]bool{}
				}
				seen[k][strings.Join(l, " ")] = true
				slices.Sort(l)
				if want := mi.AnnounceList[k]; !slices.Equal(l, slices.Sorted(slices.Values(want))) {
					c.Fail("P07: trackers are lost", "tier %d has %q, and %q was given", k, l, want)
				}
				c.Evals(1)
			}
		}
		for k := range seen {
			if want := []int{2: 2, 3: 6}[n]; len(seen[k]) != want {
				c.Fail("P07: a tier's order is not random", "%d trackers come in %d orders in 200 runs: %v", n, len(seen[k]), seen[k])
			}
			c.Seen(len(seen), k, n)
		}
	})
	r.Cases("mix", r.N(600, 20000), func(c *vk.Case) {
		plans := map[int]*plan{}
		asked := []int{5, 20, 60, 300}[c.IntN(4)]
		interval := time.Duration(asked) * time.Second
		switch c.IntN(10) {
		case 0:
			asked, interval = []int{0, -1, -300, 1 << 40, 9223372036854775807, 86400 * 365}[c.IntN(6)], 30*time.Minute
		}
		stop := secs(c, 1, 600)
		if c.IntN(4) == 0 {
			stop = secs(c, 1000, 6000)
		}
		play(c, "P07", mix{o: options{maxPieces: 6, have: []float64{1, 0, 0.5}[c.IntN(3)], layout: layout(c, plans)}, seeders: c.IntN(3), leechers: 1 + c.IntN(2), stop: stop, quiet: true,
			tune: func(w *world) {
				w.watch()
				for _, t := range w.trackers {
					t.decide = func(a *announce) reply {
						if a.event == "started" && c.Index%3 > 0 || w.agentRng.Float64() < plans[t.num].good {
							var l []*agentAddr
							if p := w.trackers[0].peers; p != nil {
								l = p()
							}
							return t.behave(asked, l)
						}
						return t.misbehave(asked)
					}
				}
			},
			after: func(w *world, j *judge) {
				j.announcesAre(plans, interval)
				if w.failed {
					return
				}
				p := newJudge(w, "P01", j.stop)
				p.name = "P07"
				p.polite()
				j.n += p.n
			}})
	})
}

// stall is a style in which a peer holds something up.
func stall(c *vk.Case) style {
	s := seeder(c)
	s.name = "staller"
	switch c.IntN(8) {
	case 0:
		s.silent = 1
	case 1:
		s.deaf, s.requests, s.upTo = secs(c, 0, 5)+1, 20, 1000
	case 2:
		s.halt = secs(c, 0, 20) + 1
	case 3:
		s.hello = helloNone
	case 4:
		s.hello, s.helloIn = helloGood, secs(c, 0, 30)
	case 5:
		s.lat = ms(5000, 15000)
	case 6:
		s.hello = helloDrip
	case 7:
		s.again, s.hello = time.Duration(1+c.IntN(1000))*time.Millisecond, c.IntN(helloWays)
	}
	return s
}

func TestP06(t *testing.T) {
	r := vk.Start(t, "P06", "distinct histories of servers stopped at some moment, in some state of their peers and trackers, after which everything is to have ended")
	r.Cases("stop", r.N(2400, 60000), func(c *vk.Case) {
		sp, stop := spread(c, 2)
		defer stop()
		bubble(c, func() {
			plans := map[int]*plan{}
			o := options{maxPieces: 8, have: []float64{0, 0.5, 1}[c.IntN(3)], large: c.IntN(4) == 0}
			if c.IntN(2) == 0 {
				o.layout = layout(c, plans)
			}
			w := newWorld(c, o)
			defer w.drop()
			w.shape()
			w.watch()
			m := mix{seeders: c.IntN(4), leechers: c.IntN(4), hostiles: c.IntN(4), extra: func(w *world, add func(s style, have map[int]bool, how int) *agent) {
				for range c.IntN(5) {
					add(stall(c), all(w.pieces()), 1+c.IntN(3))
				}
			}}
			w.populate(m)
			// Trackers that hang at some events
			started, regular, stopping := c.IntN(4), c.IntN(3), c.IntN(3)
			interval := []int{5, 60, 1800}[c.IntN(3)]
			for _, t := range w.trackers {
				g := 1.0
				if p := plans[t.num]; p != nil {
					g = p.good
				}
				t.decide = func(a *announce) reply {
					var l []*agentAddr
					if p := w.trackers[0].peers; p != nil {
						l = p()
					}
					r := reply{body: answer(interval, l, false), ok: true}
					k := regular
					switch a.event {
					case "started":
						k = started
						if g < 1 && k == 1 {
							k = 3
						}
					case "stopped":
						k = stopping
					}
					switch k {
					case 1:
						return reply{name: "hangs", hang: true}
					case 2:
						if w.agentRng.Float64() > g {
							return t.misbehave(interval)
						}
					}
					return r
				}
			}
			busy := c.IntN(12) == 0
			if busy {
				// Somebody else has the port
				l, err := w.n.listen("tcp", fmt.Sprint(":", w.port))
				must(err)
				defer l.Close()
			}
			tiers := 0
			for _, l := range w.mi.AnnounceList {
				tiers += len(l)
			}
			each := time.Duration(max(1, tiers)) * 31 * time.Second
			type call struct {
				at, back time.Duration
				err      error
			}
			var calls []*call
			lk := newLock()
			halt := func() *call {
				k := &call{at: w.rec.now(), back: never}
				lk.Lock()
				calls = append(calls, k)
				lk.Unlock()
				go c.Protect(func() {
					err := w.srv.Stop()
					lk.Lock()
					k.back, k.err = w.rec.now(), err
					lk.Unlock()
				})
				return k
			}
			if c.IntN(6) == 0 {
				k := halt() // before it has started
				time.Sleep(2 * time.Second)
				c.Evals(1)
				lk.Lock()
				if k.back == never {
					c.Report("P06: Stop does not return", "called before Start")
				}
				lk.Unlock()
			}
			w.start()
			switch c.IntN(6) {
			case 0:
			case 1:
				time.Sleep(time.Duration(c.IntN(1000)) * time.Microsecond)
			case 2:
				time.Sleep(time.Duration(c.IntN(200)) * time.Millisecond)
			case 3:
				w.advance(secs(c, 0, 3), time.Second, nil)
			case 4:
				w.advance(secs(c, 0, 40), 3*time.Second, nil)
			default:
				w.advance(secs(c, 20, 300), 5*time.Second, nil)
			}
			// Until one finds it started
			w.rec.lk.Lock()
			w.ending = true
			w.rec.lk.Unlock()
			at := time.Duration(-1)
			early := false
			for n := 0; ; n++ {
				select {
				case err := <-w.startErr:
					w.startErr <- err
					early = true
				default:
				}
				w.n.lk.Lock()
				listening := w.n.listeners[w.port] != nil && !busy
				w.n.lk.Unlock()
				lk.Lock()
				halted := slices.ContainsFunc(calls, func(k *call) bool {
					return k.back == never || k.err == nil || !strings.Contains(k.err.Error(), "not started")
				})
				lk.Unlock()
				if early || listening || halted && n > 100 { // a call may have ended it between two looks
					break
				}
				if n > 0 {
					if c.IntN(2) == 0 {
						halt()
					}
				}
				if n > 100 {
					if !early {
						c.Report("P06: does not start", "no listener and no error\n"+vk.Stacks())
						return
					}
					break
				}
				time.Sleep(time.Duration(1+c.IntN(3)) * time.Millisecond)
			}
			// Repeatedly, and from many goroutines
			for range 1 + c.IntN(3) {
				halt()
			}
			time.Sleep(time.Duration(c.IntN(3)) * time.Duration(c.IntN(3000)) * time.Millisecond)
			for range c.IntN(3) {
				halt()
			}
			begin := w.rec.now()
			// In the moment before the listener is known to Stop, it reports an error
			for n := 0; ; n++ {
				time.Sleep(time.Second) // what finds it not started returns by then
				lk.Lock()
				open := 0
				for _, k := range calls {
					if k.back == never || k.err == nil || !strings.Contains(k.err.Error(), "not started") {
						if at < 0 || k.at < at {
							at = k.at
						}
						open++
					}
				}
				lk.Unlock()
				if at >= 0 || early {
					break
				}
				if n > 50 {
					c.Report("P06: Stop does not stop", fmt.Sprintf("%d calls found the server not started, after it listens since %v\n%s", len(calls), begin, vk.Stacks()))
					return
				}
				halt()
			}
			if at < 0 {
				at = begin
			}
			var startErr error
			startBack := never
			wait := time.After(20 * time.Second)
			c.Evals(1)
			select {
			case startErr = <-w.startErr:
				startBack = w.rec.now()
			case <-wait:
				c.Report("P06: Start does not return", fmt.Sprintf("stopped at %v\n%s\n%s\n%s", at, w.trackerStory(), w.story(0), vk.Stacks()))
				return
			}
			_ = startErr
			if busy && startErr == nil {
				c.Report("P06: starts on a port that is taken", "Start returned nil")
			}
			// Until all calls have returned
			for n := 0; ; n++ {
				lk.Lock()
				var open *call
				for _, k := range calls {
					if k.back == never {
						open = k
					}
				}
				lk.Unlock()
				if open == nil {
					break
				}
				if w.rec.now() > open.at+each+40*time.Second {
					c.Report("P06: Stop does not return", fmt.Sprintf("called at %v, first at %v; now %v\n%s\n%s\n%s", open.at, at, w.rec.now(), w.trackerStory(), w.story(0), vk.Stacks()))
					return
				}
				time.Sleep(time.Second)
			}
			over := w.rec.now()
			c.Evals(len(calls))
			c.Count("stop_calls", len(calls))
			c.Max("max_seconds_to_stop", int((over - at).Seconds()))
			if early {
				c.Count("starts_that_failed", 1)
			}
			w.n.lk.Lock()
			if l := w.n.listeners[w.port]; l != nil && !busy {
				c.Report("P06: still listening", fmt.Sprintf("stopped at %v, now %v", at, over))
			}
			w.n.lk.Unlock()
			// And again
			again := halt()
			time.Sleep(2 * time.Second)
			if early {
				time.Sleep(each + 40*time.Second) // nobody has waited for its end yet
			}
			lk.Lock()
			if again.back == never {
				c.Report("P06: Stop does not return", fmt.Sprintf("called at %v when all has ended: stopped at %v, Start has returned at %v, %d calls by %v\n%s\n%s", again.at, at, startBack, len(calls), over, w.trackerStory(), serverStacks()))
			}
			lk.Unlock()
			time.Sleep(45 * time.Second)
			w.stopped = true
			synctest.Wait()
			left := serverStacks()
			if left != "" {
				c.Report("P06: goroutines are left", fmt.Sprintf("stopped at %v, returned by %v, now %v:\n%s", at, over, w.rec.now(), left))
			}
			now := w.rec.now()
			w.close()
			j := newJudge(w, "P06", at)
			for _, v := range j.views {
				if v.opened == never {
					continue
				}
				j.n++
				one := []int{v.num}
				if v.closed > now {
					j.fail("P06", "a connection is left open", one, "#%d, opened at %v, is open at %v; stopped at %v", v.num, v.opened, now, at)
				}
				if v.served < at-tol && v.closed > at+5*time.Second {
					j.fail("P06", "a connection is kept for long", one, "#%d is closed at %v; stopped at %v", v.num, v.closed, at)
				}
				if v.opened > at+2*time.Second && !early {
					j.fail("P06", "a connection is made after the stop", one, "#%d is opened at %v; stopped at %v", v.num, v.opened, at)
				}
			}
			told := map[int]int{}
			okd := 0
			for _, a := range w.announces {
				if a.event == "stopped" {
					j.n++
					told[a.tracker]++
					if told[a.tracker] > 1 {
						c.Report("P06: tells a tracker twice", w.trackerStory())
					}
					if a.ok {
						okd++
					}
				}
				if a.event != "stopped" && a.began > at+tol {
					c.Report("P06: announces after the stop", fmt.Sprintf("%q at %v, and the server was stopped at %v\n%s", a.event, a.t, at, w.trackerStory()))
				}
				if a.began > max(startBack, over) {
					c.Report("P06: announces after it has ended", fmt.Sprintf("made at %v; Start returned at %v, and all calls of Stop by %v\n%s", a.began, startBack, over, w.trackerStory()))
				}
			}
			if okd > 1 {
				c.Report("P06: tells more than one tracker", w.trackerStory())
			}
			reach := 0
			for _, t := range w.trackers {
				if p := plans[t.num]; p == nil || !p.down && !p.stuck {
					reach++
				}
			}
			if reach > 0 && len(told) == 0 && !busy {
				c.Report("P06: does not tell the tracker", fmt.Sprintf("stopped at %v\n%s", at, w.trackerStory()))
			}
			c.Evals(j.n)
			c.Count("connections", len(j.views))
			c.Count("yield_points", sp.Points())
			c.Seen(len(w.rec.log), at, over, len(calls), len(w.attempts))
			c.Sample("stopped at %v with %d connections and %d trackers, returned by %v (%d calls)", at, len(j.views), len(w.trackers), over, len(calls))
		})
	})
}
