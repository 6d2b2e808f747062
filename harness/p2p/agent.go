package p2p

import (
	"fmt"
	"math/rand/v2"
	"net/netip"
	"sort"
	"time"
)

// style is how a scripted peer behaves.
type style struct {
	name string

	// As a source
	lat       [2]time.Duration // how long answers take
	corrupt   float64          // share of the blocks that are wrong
	silent    float64          // share of the requests that are not answered
	shuffle   bool             // answers out of order
	lie       bool             // announces what it does not have, and does not answer for it
	mute      bool             // never unchokes
	slowStart time.Duration    // unchokes only after
	toggle    time.Duration    // chokes now and then
	toggleNow bool             // ... and unchokes at once
	drip      time.Duration    // announces its pieces one at a time, so far apart
	bitsFirst bool             // announces with a bitfield
	unasked   time.Duration    // sends blocks that nobody asked for, so far apart
	unaskedOK bool             // ... which are right
	twice     bool             // answers everything twice
	tail      time.Duration    // sends the blocks of a piece it is asked for that it is not asked for yet after, and not again
	spam      time.Duration    // unchokes, sends a piece and chokes, so far apart

	// As a sink
	requests int     // how many requests it keeps open; 0 for none
	upTo     int     // how many it makes in all
	cancels  float64 // share of the requests it cancels
	bad      float64 // share of requests that are out of range, or for pieces it was not told of
	eager    bool    // requests without waiting to be unchoked

	// As a connection
	half    bool             // does not read while it writes
	deaf    time.Duration    // stops reading after
	doze    [2]time.Duration // stops reading after the first, and reads on after the second
	naps    float64          // stops reading for seconds before so many of the messages
	vanish  time.Duration    // does nothing any more after
	quit    time.Duration    // leaves after
	quitHow int              // 0 close, 1 reset, 2 closes its writing side
	again   time.Duration    // and comes back after
	from    time.Duration    // comes then
	until   time.Duration    // leaves for good then
	garbage time.Duration    // sends something malformed after
	halt    time.Duration    // sends half a message after, and then nothing
	noise   time.Duration    // sends random but well-formed messages, so far apart
	hello   int              // how it shakes hands: see below
	helloIn time.Duration    // waits so long before
}

// Ways to shake hands.
const (
	helloGood = iota
	helloNone
	helloPart
	helloHash
	helloProto
	helloSelf    // with the server's own id
	helloOther   // with another id than the tracker named
	helloDrip    // one byte at a time, each in time, all together too late
	helloClose   // closes at once
	helloGarbage // random bytes
	helloHalf    // sends half and closes
	helloWays
)

func (s style) polite() bool {
	return s.corrupt == 0 && s.silent == 0 && !s.lie && s.unasked == 0 && s.bad == 0 && !s.eager && s.deaf == 0 && s.doze[1] == 0 && s.naps == 0 && s.vanish == 0 && s.garbage == 0 && s.halt == 0 && s.noise == 0 && s.hello == helloGood && !s.twice && s.spam == 0 && s.tail == 0 && s.helloIn < 9*time.Second
}

type agent struct {
	w    *world
	num  int
	ap   netip.AddrPort // where it listens, or comes from
	id   [20]byte
	have map[int]bool
	s    style
	rng  *rand.Rand

	named *[20]byte // the id the tracker names for it

	// What the harness may look at, under lk
	lk       lock
	sess     *session
	sessions int
	connects int
	refused  int
}

func (w *world) newAgent(s style, have map[int]bool) *agent {
	w.lk.Lock()
	defer w.lk.Unlock()
	k := w.agentRng.IntN(1 << 30)
	a := &agent{w: w, num: k, have: have, s: s, lk: newLock(), rng: rand.New(rand.NewPCG(w.agentRng.Uint64(), 3))}
	for i := range a.id {
		a.id[i] = byte(a.rng.Uint32())
	}
	a.ap = netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, byte(k >> 16), byte(k >> 8), byte(k)}), uint16(1+a.rng.IntN(65535)))
	return a
}

func (a *agent) listen() {
	a.w.n.host(a.ap, &host{accept: func(r *remote) {
		a.w.spawn(func() { a.run(r) })
	}})
}

// connect runs connections to the server, one after the other.
func (a *agent) connect() {
	a.w.spawn(func() {
		for a.s.until == 0 || a.w.rec.now() < a.s.until {
			r, err := a.w.n.connect(netip.AddrPortFrom(a.ap.Addr(), 0), a.w.port)
			a.lk.Lock()
			a.connects++
			if err != nil {
				a.refused++
			}
			a.lk.Unlock()
			if err == nil {
				a.run(r)
			}
			if a.s.again == 0 || !a.w.sleep(a.s.again) {
				return
			}
		}
	})
}

func (a *agent) between(d [2]time.Duration) time.Duration {
	if d[1] <= d[0] {
		return d[0]
	}
	return d[0] + time.Duration(a.rng.Int64N(int64(d[1]-d[0])))
}

// session is one connection of an agent.
type session struct {
	*agent
	r       *remote
	io      lock // held while it writes, if half
	queue   []msg
	ended   bool
	wake    chan struct{}
	actions []action
	over    bool

	// The agent's view
	choked    bool // by the server
	choking   bool
	wanted    bool // the server is interested
	pending   []msg
	theirs    map[int]bool
	asked     map[int]map[int]bool // piece: blocks
	pushed    map[int]map[int]bool
	told      map[int]bool
	open      []msg // requests to the server that are not answered
	made      int
	got       int
	wrong     string
	unchokeAt time.Duration // when the server unchoked this peer
	shook     time.Duration
	news      map[int]time.Duration
}

type action struct {
	at time.Time
	f  func()
}

func (s *session) at(d time.Duration, f func()) {
	s.actions = append(s.actions, action{time.Now().Add(d), f})
}

func (s *session) send(m msg) { s.raw(m.encode()) }

func (s *session) raw(b []byte) {
	if s.s.half {
		s.io.Lock()
		defer s.io.Unlock()
	}
	if _, err := s.r.Write(b); err != nil {
		s.over = true
	}
}

// shake shakes hands, and reports whether to go on.
func (s *session) shake() bool {
	w := s.w
	if s.s.helloIn > 0 && !w.sleep(s.s.helloIn) {
		return false
	}
	h := handshake(w.info.SHA1, s.id)
	switch s.s.hello {
	case helloGood:
		if s.rng.IntN(4) == 0 {
			h[20+s.rng.IntN(8)] = byte(s.rng.Uint32()) // reserved bits
		}
		if s.rng.IntN(4) == 0 { // in parts
			k := 1 + s.rng.IntN(67)
			s.raw(h[:k])
			w.sleep(time.Duration(s.rng.IntN(1000)) * time.Millisecond)
			h = h[k:]
		}
		s.raw(h)
	case helloNone:
		return true
	case helloPart:
		s.raw(h[:1+s.rng.IntN(67)])
		return true
	case helloHash:
		h[28+s.rng.IntN(20)] ^= 1 << s.rng.IntN(8)
		s.raw(h)
		s.burst()
		return true
	case helloProto:
		switch s.rng.IntN(4) {
		case 0:
			h[0] = byte(s.rng.IntN(256))
		case 1:
			h[1+s.rng.IntN(19)] ^= 0x20
		case 2:
			h[0] = 0
		default:
			h[0] = 18
		}
		if string(h[:20]) != pstr {
			s.raw(h)
			s.burst()
		}
		return true
	case helloSelf:
		copy(h[48:], w.id[:])
		s.raw(h)
		s.burst()
		return true
	case helloOther:
		copy(h[48:], w.id[:])
		h[48+s.rng.IntN(20)] ^= 1 << s.rng.IntN(8)
		s.raw(h)
		s.burst()
		return true
	case helloDrip:
		for _, b := range h {
			s.raw([]byte{b})
			if s.over || !w.sleep(time.Duration(200+s.rng.IntN(1500))*time.Millisecond) {
				return false
			}
		}
		s.burst()
		return true
	case helloClose:
		return false
	case helloGarbage:
		b := make([]byte, 1+s.rng.IntN(200))
		for i := range b {
			b[i] = byte(s.rng.Uint32())
		}
		s.raw(b)
		return true
	case helloHalf:
		s.raw(h[:1+s.rng.IntN(67)])
		return false
	}
	return true
}

// burst sends what a peer sends after a good handshake.
func (s *session) burst() {
	all := map[int]bool{}
	for i := range s.w.pieces() {
		all[i] = true
	}
	s.send(msg{kind: mBitfield, data: bits(all, s.w.pieces())})
	s.send(msg{kind: mUnchoke})
	s.send(msg{kind: mInterest})
	s.send(msg{kind: mRequest, index: 0, begin: 0, n: 1})
}

func bits(m map[int]bool, n int) []byte {
	b := make([]byte, (n+7)/8)
	for i := range m {
		if m[i] {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return b
}

func (a *agent) run(r *remote) {
	w := a.w
	s := &session{agent: a, r: r, io: newLock(), wake: make(chan struct{}, 1), choked: true, choking: true, theirs: map[int]bool{}, asked: map[int]map[int]bool{}, pushed: map[int]map[int]bool{}, told: map[int]bool{}, news: map[int]time.Duration{}}
	a.lk.Lock()
	a.sess = s
	a.sessions++
	if a.connects == 0 {
		a.connects = 1
	}
	a.lk.Unlock()
	w.lk.Lock()
	w.ends = append(w.ends, r)
	w.lk.Unlock()
	w.rec.mark(r, func(c *record) {
		c.who = fmt.Sprintf("%s %q", a.s.name, a.id[:])
		if r.local.dialed {
			c.named = a.named
		}
		c.polite = a.s.polite() && (c.named == nil || *c.named == a.id)
	})
	defer r.Close()
	var naps *rand.Rand
	if a.s.naps > 0 {
		naps = rand.New(rand.NewPCG(a.rng.Uint64(), 5))
	}
	if w.ended() {
		return
	}
	// Reads everything, unless deaf
	w.spawn(func() {
		defer s.notify(msg{}, true)
		if s.s.deaf > 0 {
			end := time.Now().Add(s.s.deaf)
			r.rd.set(end)
		}
		stall := func(err error) {
			if s.s.deaf > 0 && !w.ended() && !s.r.isClosed() {
				for w.sleep(time.Second) && !r.local.isClosed() && !r.isClosed() {
				}
			}
		}
		if s.s.hello != helloGood {
			b := make([]byte, 4096)
			for {
				if _, err := r.Read(b); err != nil {
					stall(err)
					return
				}
			}
		}
		m, err := readHandshake(r)
		doze := time.Now().Add(s.s.doze[0])
		for dozed := s.s.doze[1] == 0; err == nil; {
			if !dozed && !time.Now().Before(doze) {
				dozed = true
				w.sleep(s.s.doze[1])
			}
			if naps != nil && naps.Float64() < s.s.naps {
				w.sleep(time.Duration(200+naps.IntN(6000)) * time.Millisecond)
			}
			s.notify(m, false)
			if s.s.half {
				s.io.Lock()
				s.io.Unlock()
			}
			m, err = readMsg(r)
		}
		stall(err)
	})
	if s.s.until > 0 {
		s.at(s.s.until-w.rec.now(), s.leave)
	}
	if !s.shake() {
		if s.s.hello == helloClose || s.s.hello == helloHalf {
			s.leave()
		}
		return
	}
	if s.s.hello == helloGood {
		s.begin()
	}
	s.loop()
}

func (s *session) notify(m msg, end bool) {
	s.lk.Lock()
	if end {
		s.ended = true
	} else {
		s.queue = append(s.queue, m)
	}
	s.lk.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (s *session) loop() {
	for !s.over && !s.w.ended() {
		s.lk.Lock()
		q, ended := s.queue, s.ended
		s.queue = nil
		s.lk.Unlock()
		for _, m := range q {
			s.handle(m)
		}
		if ended {
			return
		}
		if len(q) > 0 {
			continue
		}
		sort.SliceStable(s.actions, func(i, j int) bool { return s.actions[i].at.Before(s.actions[j].at) })
		var next <-chan time.Time
		var tm *time.Timer
		if len(s.actions) > 0 {
			d := time.Until(s.actions[0].at)
			if d <= 0 {
				f := s.actions[0].f
				s.actions = s.actions[1:]
				f()
				continue
			}
			tm = time.NewTimer(d)
			next = tm.C
		}
		select {
		case <-s.wake:
		case <-next:
		case <-s.w.done:
		}
		if tm != nil {
			tm.Stop()
		}
	}
}

func (s *session) tell(i int) {
	s.told[i] = true
	s.send(msg{kind: mHave, index: i})
}

func (s *session) begin() {
	st := s.s
	n := s.w.pieces()
	announce := map[int]bool{}
	for i := range n {
		if s.have[i] || st.lie {
			announce[i] = true
		}
	}
	list := keys(announce)
	s.rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	now := len(list)
	if st.drip > 0 && len(list) > 0 {
		now = s.rng.IntN(len(list))
	}
	first := map[int]bool{}
	for _, i := range list[:now] {
		first[i] = true
		s.told[i] = true
	}
	if st.bitsFirst && len(first) > 0 || s.rng.IntN(2) == 0 {
		s.send(msg{kind: mBitfield, data: bits(first, n)})
	} else {
		for _, i := range list[:now] {
			s.tell(i)
		}
	}
	for k, i := range list[now:] {
		s.at(time.Duration(k+1)*st.drip, func() { s.tell(i) })
	}
	if !st.mute {
		s.at(st.slowStart+time.Duration(s.rng.IntN(2000))*time.Millisecond, func() {
			s.choking = false
			s.send(msg{kind: mUnchoke})
		})
	}
	if st.toggle > 0 {
		var f func()
		f = func() {
			if s.choking {
				s.choking = false
				s.send(msg{kind: mUnchoke})
			} else if st.toggleNow {
				s.pending = nil
				s.raw(append(msg{kind: mChoke}.encode(), msg{kind: mUnchoke}.encode()...))
			} else {
				s.choking, s.pending = true, nil
				s.send(msg{kind: mChoke})
			}
			s.at(st.toggle/2+time.Duration(s.rng.Int64N(int64(st.toggle))), f)
		}
		s.at(st.slowStart+3*time.Second, f)
	}
	var alive func()
	alive = func() {
		s.send(msg{kind: mKeepalive})
		s.at(time.Duration(30+s.rng.IntN(60))*time.Second, alive)
	}
	s.at(time.Duration(s.rng.IntN(60))*time.Second, alive)
	if st.requests > 0 {
		s.at(time.Duration(s.rng.IntN(3000))*time.Millisecond, func() { s.send(msg{kind: mInterest}) })
		if st.eager {
			s.at(time.Duration(s.rng.IntN(5000))*time.Millisecond, s.ask)
		}
	}
	if st.unasked > 0 {
		var f func()
		f = func() {
			i := s.rng.IntN(n)
			b := s.rng.IntN(s.w.blocks(i)) * blockLen
			s.send(s.block(i, b, len(s.w.blockAt(i, b)), !st.unaskedOK))
			s.at(st.unasked/2+time.Duration(s.rng.Int64N(int64(st.unasked))), f)
		}
		s.at(st.unasked, f)
	}
	if st.spam > 0 {
		var f func()
		f = func() {
			i := s.rng.IntN(n)
			b := msg{kind: mUnchoke}.encode()
			for range s.rng.IntN(4) {
				b = append(b, msg{kind: mKeepalive}.encode()...)
			}
			for k := range s.w.blocks(i) {
				b = append(b, s.block(i, k*blockLen, len(s.w.blockAt(i, k*blockLen)), !st.unaskedOK && s.rng.IntN(2) == 0).encode()...)
			}
			if s.rng.IntN(4) > 0 {
				b = append(b, msg{kind: mChoke}.encode()...)
			}
			s.raw(b)
			s.at(st.spam/2+time.Duration(s.rng.Int64N(int64(st.spam))), f)
		}
		s.at(st.spam, f)
	}
	if st.noise > 0 {
		var f func()
		f = func() {
			s.noisy()
			s.at(st.noise/2+time.Duration(s.rng.Int64N(int64(st.noise))), f)
		}
		s.at(st.noise, f)
	}
	if st.garbage > 0 {
		s.at(st.garbage, func() { s.raw(s.malformed()) })
	}
	if st.halt > 0 {
		s.at(st.halt, func() {
			s.raw(msg{kind: mPiece, data: make([]byte, 5000)}.encode()[:1+s.rng.IntN(4000)])
			s.actions = nil
			if st.until > 0 {
				s.at(st.until-s.w.rec.now(), s.leave)
			}
			s.s.quit = 0
			s.pending = nil
			s.s.silent = 1
			s.s.requests = 0
		})
	}
	if st.vanish > 0 {
		s.at(st.vanish, func() {
			s.actions, s.pending = nil, nil
			s.s.silent, s.s.requests = 1, 0
			if st.until > 0 {
				s.at(st.until-s.w.rec.now(), s.leave)
			}
		})
	}
	if st.quit > 0 {
		s.at(st.quit, s.leave)
	}
}

func (s *session) leave() {
	s.over = true
	switch s.s.quitHow {
	case 0:
		s.r.Close()
	case 1:
		s.r.Reset()
	case 2:
		s.r.CloseWrite()
		s.w.sleep(time.Duration(s.rng.IntN(5000)) * time.Millisecond)
	}
}

// block makes a PIECE message.
func (s *session) block(i, begin, n int, wrong bool) msg {
	m := msg{kind: mPiece, index: i, begin: begin, data: make([]byte, n)}
	if i >= 0 && i < s.w.pieces() && begin >= 0 && begin < s.w.pieceLen(i) {
		copy(m.data, s.w.piece(i)[begin:])
	}
	if wrong && n > 0 {
		switch s.rng.IntN(3) {
		case 0:
			m.data[s.rng.IntN(n)] ^= 1 << s.rng.IntN(8)
		case 1:
			m.data[n-1]++
		default:
			for k := range m.data {
				m.data[k] = byte(s.rng.Uint32())
			}
			m.data[0] = 1 + s.w.piece(i)[min(begin, s.w.pieceLen(i)-1)]
		}
	}
	return m
}

// malformed makes bytes that violate the protocol.
func (s *session) malformed() []byte {
	n := s.w.pieces()
	switch s.rng.IntN(16) {
	case 0:
		return []byte{0xff, 0xff, 0xff, 0xff, 7, 0, 0}
	case 1:
		return frame(4, []byte{0, 0, 0}[:s.rng.IntN(4)])
	case 2:
		return frame(6, make([]byte, s.rng.IntN(12)))
	case 3:
		return frame(7, make([]byte, s.rng.IntN(8)))
	case 4:
		return frame(byte(9+s.rng.IntN(247)), make([]byte, s.rng.IntN(20)))
	case 5:
		return msg{kind: mHave, index: []int{n, n + 1, n + 7, n + 8, 1 << 31, 1<<32 - 1}[s.rng.IntN(6)]}.encode()
	case 6:
		b := make([]byte, (n+7)/8)
		b[len(b)-1] = 0xff
		return msg{kind: mBitfield, data: b}.encode()
	case 7:
		b := make([]byte, (n+7)/8+1+s.rng.IntN(5))
		for i := range b {
			b[i] = 0xff
		}
		return msg{kind: mBitfield, data: b}.encode()
	case 8:
		return msg{kind: mBitfield, data: make([]byte, s.rng.IntN((n+7)/8))}.encode()
	case 9:
		return msg{kind: mRequest, index: s.wild(n), begin: s.wild(s.w.info.PieceLength), n: s.wild(blockLen)}.encode()
	case 10:
		return msg{kind: mPiece, index: s.wild(n), begin: s.wild(s.w.info.PieceLength), data: make([]byte, s.rng.IntN(2*blockLen))}.encode()
	case 11:
		return msg{kind: mCancel, index: s.wild(n), begin: s.wild(s.w.info.PieceLength), n: s.wild(blockLen)}.encode()
	case 12:
		return handshake(s.w.info.SHA1, s.id)
	case 13:
		return frame(byte(s.rng.IntN(4)), make([]byte, 1+s.rng.IntN(5)))
	case 14:
		return frame(8, make([]byte, s.rng.IntN(12)))
	}
	b := make([]byte, 1+s.rng.IntN(300))
	for i := range b {
		b[i] = byte(s.rng.Uint32())
	}
	return b
}

func (s *session) wild(n int) int {
	return []int{0, 1, n - 1, n, n + 1, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 14, s.rng.IntN(n + 1)}[s.rng.IntN(10)]
}

// noisy sends a message that is well-formed, but not what a peer would send.
func (s *session) noisy() {
	n := s.w.pieces()
	i := s.rng.IntN(n)
	b := s.rng.IntN(s.w.blocks(i)) * blockLen
	switch s.rng.IntN(12) {
	case 0:
		s.send(msg{kind: mChoke})
	case 1:
		s.send(msg{kind: mUnchoke})
	case 2:
		s.send(msg{kind: mInterest})
	case 3:
		s.send(msg{kind: mNot})
	case 4:
		s.send(msg{kind: mHave, index: i})
	case 5:
		all := map[int]bool{}
		for k := range n {
			all[k] = s.rng.IntN(2) == 0
		}
		s.send(msg{kind: mBitfield, data: bits(all, n)})
	case 6, 7:
		s.send(s.block(i, b, len(s.w.blockAt(i, b)), s.rng.IntN(2) == 0))
	case 8:
		s.send(msg{kind: mCancel, index: i, begin: b, n: len(s.w.blockAt(i, b))})
	case 9:
		s.send(msg{kind: mKeepalive})
	case 10:
		s.raw(append(msg{kind: mChoke}.encode(), msg{kind: mUnchoke}.encode()...))
	case 11:
		for range 20 {
			s.send(msg{kind: mKeepalive})
		}
	}
}

// ask makes requests to the server.
func (s *session) ask() {
	st := s.s
	for (len(s.open) < st.requests) && s.made < st.upTo && (!s.choked || st.eager) {
		l := keys(s.theirs)
		var m msg
		switch {
		case st.bad > 0 && s.rng.Float64() < st.bad:
			m = msg{kind: mRequest, index: s.wild(s.w.pieces()), begin: s.wild(s.w.info.PieceLength), n: s.wild(blockLen)}
			if s.rng.IntN(2) == 0 {
				i := s.rng.IntN(s.w.pieces())
				m = msg{kind: mRequest, index: i, begin: 0, n: min(blockLen, s.w.pieceLen(i))}
			}
		case len(l) == 0:
			return
		default:
			i := l[s.rng.IntN(len(l))]
			n := s.w.pieceLen(i)
			b := s.rng.IntN(s.w.blocks(i)) * blockLen
			m = msg{kind: mRequest, index: i, begin: b, n: len(s.w.blockAt(i, b))}
			if s.rng.IntN(3) == 0 {
				m.begin = s.rng.IntN(n)
				m.n = 1 + s.rng.IntN(n-m.begin)
			}
			if len(s.open) > 0 && s.rng.IntN(5) == 0 {
				m = s.open[s.rng.IntN(len(s.open))]
			}
		}
		s.made++
		s.open = append(s.open, m)
		s.send(m)
		if s.rng.Float64() < st.cancels {
			k := m
			k.kind = mCancel
			s.send(k)
			if s.rng.IntN(3) == 0 {
				s.made++
				s.open = append(s.open, m)
				s.send(m)
			}
		}
	}
}

// answer answers one of the server's requests.
func (s *session) answer() {
	if len(s.pending) == 0 {
		return
	}
	k := 0
	if s.s.shuffle {
		k = s.rng.IntN(len(s.pending))
	}
	m := s.pending[k]
	s.pending = append(s.pending[:k:k], s.pending[k+1:]...)
	if s.choking {
		return
	}
	b := s.block(m.index, m.begin, m.n, s.s.corrupt > 0 && s.rng.Float64() < s.s.corrupt)
	s.send(b)
	if s.s.twice {
		s.send(b)
	}
}

func (s *session) handle(m msg) {
	switch m.kind {
	case mHandshake:
		s.lk.Lock()
		s.shook = s.w.rec.now()
		s.lk.Unlock()
	case mBitfield:
		s.lk.Lock()
		for i := range s.w.pieces() {
			if i/8 < len(m.data) && m.data[i/8]&(0x80>>(i%8)) != 0 {
				s.theirs[i] = true
				s.news[i] = s.w.rec.now()
			}
		}
		s.lk.Unlock()
	case mHave:
		s.lk.Lock()
		s.theirs[m.index] = true
		s.news[m.index] = s.w.rec.now()
		s.lk.Unlock()
		if !s.choked {
			s.ask()
		}
	case mUnchoke:
		s.choked = false
		s.lk.Lock()
		s.unchokeAt = s.w.rec.now()
		s.lk.Unlock()
		s.ask()
	case mChoke:
		s.choked = true
		s.open = nil
	case mInterest:
		s.wanted = true
	case mNot:
		s.wanted = false
	case mRequest:
		if s.s.tail > 0 && !s.choking && m.index >= 0 && m.index < s.w.pieces() {
			if s.asked[m.index] == nil {
				s.asked[m.index], s.pushed[m.index] = map[int]bool{}, map[int]bool{}
				s.at(s.s.tail, func() {
					for k := range s.w.blocks(m.index) {
						if b := k * blockLen; !s.asked[m.index][b] {
							s.pushed[m.index][b] = true
							s.send(s.block(m.index, b, len(s.w.blockAt(m.index, b)), false))
						}
					}
				})
			}
			s.asked[m.index][m.begin] = true
			if s.pushed[m.index][m.begin] {
				return
			}
		}
		if s.choking || s.s.silent > 0 && s.rng.Float64() < s.s.silent || s.s.lie && !s.have[m.index] {
			return
		}
		s.pending = append(s.pending, m)
		s.at(s.between(s.s.lat), s.answer)
	case mPiece:
		s.lk.Lock()
		s.got++
		s.lk.Unlock()
		for k, o := range s.open {
			if o.index == m.index && o.begin == m.begin && o.n == m.n {
				s.open = append(s.open[:k:k], s.open[k+1:]...)
				break
			}
		}
		s.ask()
	}
}
