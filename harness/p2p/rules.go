package p2p

import (
	"fmt"
	"strings"
	"time"
)

// tol is the time after which the server has taken note of what it read: goroutines
// are held back for less.
const tol = time.Second

const never = time.Duration(1 << 62)

// view is one connection as the rules look at it.
type view struct {
	*record
	evs              []event
	opened           time.Duration
	closed           time.Duration // by the server
	left             time.Duration // by the remote, or failed
	shook            time.Duration // a fitting handshake was read
	hello            *msg          // the first handshake read
	served           time.Duration // the first message after the handshake was sent
	slow             bool          // a write took long or failed
	bad              time.Duration // something malformed was read
	dup              bool
	unchoked         time.Duration
	id               [20]byte
	lastRead, lastRq time.Duration
}

// judge looks at everything that was recorded, under the rules of one property.
type judge struct {
	w     *world
	prop  string
	name  string // of the property to report; that of prop if empty
	views []*view
	end   time.Duration
	stop  time.Duration // when the server was being stopped
	n     int           // rules evaluated
	at    int           // the event under judgement
	fails int
	calm  bool // no goroutines were held back
}

func (j *judge) fail(prop, sig string, conns []int, format string, args ...any) {
	if !strings.Contains(prop, j.prop) {
		return
	}
	j.fails++
	if j.fails > 2 {
		return
	}
	name := j.prop
	if j.name != "" {
		name = j.name
	}
	j.w.c.Report(name+": "+sig, fmt.Sprintf(format, args...)+"\n"+j.w.story(j.at, conns...))
}

// stopping notes when the server was asked to stop: what it does from then on is
// not held against the rules for a running one.
func newJudge(w *world, prop string, stop time.Duration) *judge {
	j := &judge{w: w, prop: prop, stop: stop}
	w.rec.lk.Lock()
	j.end = w.rec.now()
	for _, c := range w.rec.conns {
		if c == nil {
			continue
		}
		v := &view{record: c, opened: never, closed: never, left: never, shook: never, served: never, bad: never, unchoked: never, lastRead: -1, lastRq: -1}
		for _, k := range c.events {
			v.evs = append(v.evs, w.rec.log[k])
		}
		j.views = append(j.views, v)
	}
	w.rec.lk.Unlock()
	for _, v := range j.views {
		for _, e := range v.evs {
			switch e.kind {
			case 'o':
				v.opened = e.t
			case 'c':
				v.closed = min(v.closed, e.t)
			case 'x', 'h':
				v.left = min(v.left, e.t)
			case 'f':
				v.left = min(v.left, e.t)
			case 'g':
				v.left = min(v.left, e.t)
				if e.t-e.t0 > tol/2 {
					v.slow = true
				}
			case 's':
				if e.t-e.t0 > tol/2 {
					v.slow = true
				}
				if e.m.kind != mHandshake {
					v.served = min(v.served, e.t)
				}
				if e.m.kind == mUnchoke {
					v.unchoked = min(v.unchoked, e.t)
				}
				if e.m.kind == mRequest {
					v.lastRq = e.t
				}
			case 'r':
				v.lastRead = e.t
				if e.m.kind == mHandshake && v.hello == nil {
					m := e.m
					v.hello, v.id = &m, m.id
					if m.hash == w.info.SHA1 && m.id != w.id && (v.named == nil || *v.named == m.id) {
						v.shook = e.t
					}
				}
				if e.m.kind == mBad {
					v.bad = min(v.bad, e.t)
				}
			}
		}
	}
	return j
}

// until is when the rules stop applying to a connection.
func (j *judge) until(v *view) time.Duration {
	return min(j.end, j.stop, v.left, v.closed)
}

func (j *judge) all() int {
	p := j.possible()
	for _, r := range []struct {
		props string
		judge func()
	}{
		{"P08 P01", j.handshakes},
		{"P05", j.connections},
		{"P03 P04 P09", j.framing},
		{"P03 P01", func() { j.uploads(p) }},
		{"P04 P01 P02", func() { j.news(p) }},
		{"P09", func() { j.requests(p) }},
		{"P09", j.rarest},
		{"P01 P05", j.polite},
	} {
		if strings.Contains(r.props, j.prop) {
			r.judge()
		}
	}
	return j.n
}

// P08
func (j *judge) handshakes() {
	w := j.w
	for _, v := range j.views {
		if v.opened == never {
			continue
		}
		one := []int{v.num}
		j.n++
		first := true
		hello := never
		for _, e := range v.evs {
			switch {
			case e.kind == 's' && first:
				first = false
				hello = e.t
				if e.m.kind != mHandshake || e.m.hash != w.info.SHA1 || e.m.id != w.id {
					j.fail("P08", "does not begin with its handshake", one, "the server's first message is %v", e.m)
					break
				}
			case e.kind == 's':
				j.n++
				if e.m.kind == mHandshake {
					j.fail("P08", "two handshakes", one, "a second handshake at %v", e.t)
				}
				if v.shook == never || v.shook > e.t {
					j.fail("P08", "serves a peer that has not shaken hands", one, "the server sends %v at %v without having read a fitting handshake (the tracker named %v)", e.m, e.t, v.named)
				}
			}
		}
		life := min(v.closed, v.left, j.end, j.stop)
		if hello > v.opened+tol && life > v.opened+tol {
			j.fail("P08 P01", "no handshake", one, "open for %v without the server's handshake", life-v.opened)
		}
		limit := min(v.left, j.end, j.stop)
		if v.hello != nil && v.shook == never {
			for _, e := range v.evs {
				if e.kind == 'r' && e.m.kind == mHandshake {
					if v.closed > e.t+tol && limit > e.t+tol {
						j.fail("P08", "keeps a peer whose handshake does not fit", one, "the handshake read at %v does not fit (the tracker named %v), and the connection is kept", e.t, v.named)
					}
					break
				}
			}
		}
		if v.hello == nil && v.bad != never && v.closed > v.bad+tol+10*time.Second && limit > v.bad+tol+10*time.Second {
			j.fail("P08", "keeps a peer that sends no handshake", one, "what was read by %v is not a handshake, and the connection is kept", v.bad)
		}
		if v.shook > v.opened+15*time.Second && v.closed > v.opened+15*time.Second && limit > v.opened+15*time.Second {
			j.fail("P08", "waits for a handshake beyond its time limit", one, "open since %v, and no fitting handshake 15 s later", v.opened)
		}
	}
}

// framing: what follows a message that was cut off would be taken for a part of it.
func (j *judge) framing() {
	for _, v := range j.views {
		j.n++
		if v.torn {
			j.w.c.Count("messages_cut_off", 1)
		}
		if v.beyond > 0 {
			j.fail("P03 P04 P09", "goes on after a message that was cut off", []int{v.num}, "a write failed after a part of a message, and %d more bytes follow on that connection", v.beyond)
		}
	}
}

// P05
func (j *judge) connections() {
	w := j.w
	for _, v := range j.views {
		if v.opened == never {
			continue
		}
		one := []int{v.num}
		wait := 5 * time.Second
		if v.slow {
			wait = 70 * time.Second
		}
		j.n++
		if v.left != never && v.closed > v.left+wait && j.end > v.left+wait {
			j.fail("P05", "does not close a connection that ended", one, "ended or failed at %v, and still open on the server's side %v later", v.left, min(v.closed, j.end)-v.left)
		}
		if idle := max(v.lastRead, v.lastRq, v.opened) + 200*time.Second; !v.slow && v.closed > idle && j.end > idle {
			j.fail("P05", "keeps a silent connection", one, "nothing was read since %v, nor requested since %v, and the connection is still open", v.lastRead, v.lastRq)
		}
		if v.shook == never && v.closed > v.opened+30*time.Second && j.end > v.opened+30*time.Second {
			j.fail("P05", "keeps a connection without a handshake", one, "open since %v without a fitting handshake, and still open 30 s later", v.opened)
		}
	}
	// One that is refused is open until it is closed
	w.rec.lk.Lock()
	log := w.rec.log
	w.rec.lk.Unlock()
	open := map[int]bool{}
	for _, e := range log {
		switch e.kind {
		case 'o':
			open[e.conn] = true
		case 'c':
			delete(open, e.conn)
		}
		w.c.Max("max_open_at_once", len(open))
		if len(open) > 51 {
			j.at = e.seq
			j.fail("P05", "more than 50 connections", []int{-1}, "%d connections are open at %v", len(open), e.t)
			break
		}
	}
	j.at = 0
	for _, h := range w.held {
		open := 0
		peers := map[string]*view{}
		for _, v := range j.views {
			if v.opened > h.t || v.closed <= h.t {
				continue
			}
			open++
			if v.served > h.t-tol || v.left <= h.t {
				continue
			}
			k := fmt.Sprintf("%x %v", v.id, v.l.peer.Addr())
			if o := peers[k]; o != nil {
				j.fail("P05", "two connections to one peer", []int{o.num, v.num}, "at %v the server serves both", h.t)
			}
			peers[k] = v
			if v.id == w.id {
				j.fail("P05", "a connection to itself", []int{v.num}, "at %v the server serves a peer with its own id", h.t)
			}
		}
		j.n++
		w.c.Max("max_connections", open)
		if open > 50 {
			j.fail("P05", "more than 50 connections", []int{-1}, "%d connections are open at %v", open, h.t)
		}
	}
}

// possible computes when each piece could first be complete: when all of its blocks
// had been read, right and requested on that connection.
type possibility struct {
	at    map[int]int           // piece: sequence number of the event, -1 for from the start
	known map[int]time.Duration // piece: when it was observed to be complete
	loose map[int]int           // as at, with blocks that were not requested
}

func (j *judge) possible() *possibility {
	w := j.w
	p := &possibility{map[int]int{}, map[int]time.Duration{}, map[int]int{}}
	have, loose := make([]map[int]bool, w.pieces()), make([]map[int]bool, w.pieces())
	for i := range have {
		have[i], loose[i] = map[int]bool{}, map[int]bool{}
		if w.initial[i] {
			p.at[i], p.loose[i] = -1, -1
			p.known[i] = w.startAt
		}
	}
	type rq struct{ conn, index, begin, n int }
	asked := map[rq]bool{}
	early := map[rq]event{} // blocks that were not asked for
	last := map[int]int{}
	got := func(k rq, seq int) {
		have[k.index][k.begin] = true
		last[k.index] = max(last[k.index], seq)
		if _, ok := p.at[k.index]; !ok && len(have[k.index]) == w.blocks(k.index) {
			p.at[k.index] = last[k.index]
		}
	}
	w.rec.lk.Lock()
	log := w.rec.log
	w.rec.lk.Unlock()
	for _, e := range log {
		switch {
		case e.kind == 's' && e.m.kind == mRequest:
			k := rq{e.conn, e.m.index, e.m.begin, e.m.n}
			asked[k] = true
			if o, ok := early[k]; ok && e.t0 < o.t+tol { // it was about to be sent when the block came
				got(k, o.seq)
			}
		case e.kind == 's' && e.m.kind == mHave:
			if _, ok := p.known[e.m.index]; !ok {
				p.known[e.m.index] = e.t
			}
		case e.kind == 'r' && e.m.kind == mPiece && e.m.good && e.m.n > 0 && e.m.begin%blockLen == 0 && e.m.n == len(w.blockAt(e.m.index, e.m.begin)):
			i := e.m.index
			loose[i][e.m.begin] = true
			if _, ok := p.loose[i]; !ok && len(loose[i]) == w.blocks(i) {
				p.loose[i] = e.seq
			}
			if k := (rq{e.conn, i, e.m.begin, e.m.n}); asked[k] {
				got(k, e.seq)
			} else {
				early[k] = e
			}
		}
	}
	for _, h := range w.held {
		for i := range h.have {
			if k, ok := p.known[i]; !ok || h.t < k {
				p.known[i] = h.t
			}
			if s, ok := p.at[i]; !ok || s >= 0 && log[s].t > h.t {
				if s, ok := p.loose[i]; ok && (s < 0 || log[s].t <= h.t) {
					j.fail("P09", "a block that was not asked for entered the storage", nil, "piece %d is complete at %v, but not all of its blocks were requested from those who sent them", i, h.t)
				} else {
					j.fail("P02", "a piece is complete that nobody sent", nil, "piece %d is complete at %v, but its blocks were not received", i, h.t)
				}
			}
		}
	}
	return p
}

// P03
func (j *judge) uploads(p *possibility) {
	w := j.w
	type rq struct {
		e    event
		must bool
	}
	w.rec.lk.Lock()
	log := w.rec.log
	w.rec.lk.Unlock()
	for _, v := range j.views {
		one := []int{v.num}
		var queue []rq
		free := false // after what the server may close the connection for
		for _, e := range v.evs {
			switch {
			case e.kind == 'r' && e.m.kind == mRequest:
				m := e.m
				inside := m.index < w.pieces() && m.begin <= w.pieceLen(max(0, min(m.index, w.pieces()-1))) && m.n <= w.pieceLen(min(m.index, w.pieces()-1))-m.begin
				known, complete := p.known[m.index]
				must := inside && m.n > 0 && complete && known <= e.t && v.unchoked < e.t && !free
				could := inside
				if s, ok := p.loose[m.index]; !ok || s >= 0 && log[s].t > e.t+31*time.Second {
					could = false
				}
				if v.unchoked == never || v.unchoked > e.t+31*time.Second {
					could = false
				}
				if could {
					queue = append(queue, rq{e, must})
				}
				if !must {
					free = true
				}
			case e.kind == 'r' && e.m.kind == mBad:
				free = true
			case e.kind == 's' && e.m.kind == mPiece:
				j.n++
				w.c.Count("blocks_sent", 1)
				if v.unchoked > e.t {
					j.fail("P03", "a block for a choked peer", one, "the server sends %v at %v, before it unchokes the peer", e.m, e.t)
				}
				if !e.m.good && e.m.n > 0 {
					j.fail("P03", "wrong bytes", one, "the server sends %v at %v, which is not the torrent's content", e.m, e.t)
					continue
				}
				k := 0
				for k < len(queue) && !(queue[k].e.m.index == e.m.index && queue[k].e.m.begin == e.m.begin && queue[k].e.m.n == e.m.n) {
					if queue[k].must {
						break
					}
					k++
				}
				if k == len(queue) {
					j.fail("P03", "a block that was not requested", one, "the server sends %v at %v, for which there is no request", e.m, e.t)
				} else if q := queue[k].e.m; q.index != e.m.index || q.begin != e.m.begin || q.n != e.m.n {
					j.fail("P03", "not in the order of the requests", one, "the server sends %v at %v, when %v was requested first", e.m, e.t, q)
					queue = nil
					free = true
				} else {
					queue = queue[k+1:]
				}
			}
		}
		for _, q := range queue {
			j.n++
			limit := q.e.t + 5*time.Second
			if v.slow {
				limit = q.e.t + 100*time.Second
			}
			if !q.must {
				continue
			}
			if j.until(v) > limit {
				j.fail("P03 P01", "a request is not answered", one, "%v, read at %v, is not answered %v later", q.e.m, q.e.t, j.until(v)-q.e.t)
			} else if v.polite && !v.slow && v.closed < j.stop && v.closed <= v.left {
				j.fail("P03", "a request is answered by closing", one, "%v, read at %v; the server closes the connection at %v", q.e.m, q.e.t, v.closed)
			}
		}
	}
}

// P04
func (j *judge) news(p *possibility) {
	w := j.w
	stalled := 0
	for _, v := range j.views {
		if v.slow {
			stalled++
		}
	}
	bound := 10*time.Second + time.Duration(stalled)*35*time.Second
	for _, v := range j.views {
		one := []int{v.num}
		told := map[int]bool{}
		could := func(i int, e event) bool {
			if i < 0 || i >= w.pieces() {
				return false
			}
			s, ok := p.loose[i]
			return ok && s < e.seq
		}
		k := 0
		for _, e := range v.evs {
			if e.kind != 's' || e.m.kind == mHandshake {
				continue
			}
			k++
			switch e.m.kind {
			case mBitfield:
				j.n++
				if k > 1 {
					j.fail("P04", "a bitfield that is not the first message", one, "message %d after the handshake, at %v", k, e.t)
				}
				if len(e.m.data) != (w.pieces()+7)/8 {
					j.fail("P04", "a bitfield of the wrong size", one, "%v for %d pieces", e.m, w.pieces())
				}
				for i := range 8 * len(e.m.data) {
					if e.m.data[i/8]&(0x80>>(i%8)) == 0 {
						continue
					}
					if !could(i, e) {
						j.fail("P04", "announces a piece it does not have", one, "the bitfield sent at %v has piece %d", e.t, i)
					}
					told[i] = true
				}
			case mHave:
				j.n++
				w.c.Count("haves_sent", 1)
				if !could(e.m.index, e) {
					j.fail("P04", "announces a piece it does not have", one, "%v sent at %v", e.m, e.t)
				}
				told[e.m.index] = true
			}
			if k == 1 && e.m.kind != mBitfield {
				for i := range p.known {
					if p.known[i] < e.t-tol {
						j.fail("P04", "no bitfield", one, "the first message after the handshake, at %v, is %v, though the server has piece %d", e.t, e.m, i)
						break
					}
				}
			}
		}
		if v.served == never || v.slow {
			continue
		}
		for i, at := range p.known {
			j.n++
			if t := max(at, v.served) + bound; j.until(v) > t && !told[i] {
				j.fail("P04 P01", "a piece is not announced", one, "piece %d is complete since %v at the latest, and was not announced on connection #%d by %v (%d connections do not read)", i, at, v.num, j.until(v), stalled)
				break
			}
		}
	}
}

// P09
func (j *judge) requests(p *possibility) {
	w := j.w
	type key struct{ index, begin, n int }
	type ask struct {
		open  map[key]time.Duration
		got   map[int]map[int]bool // piece: block: good
		since map[int]time.Duration
		over  map[int]time.Duration // until when requests belong to an ask that is over
		last  time.Duration         // when a block arrived
		push  map[key]time.Duration // when it arrived unasked
	}
	asks := map[int]*ask{}
	byNum := map[int]*view{}
	choked := map[int]bool{}
	chokedAt := map[int]time.Duration{}
	// stray tells of a request that was about to be sent when a choke failed it, and
	// sent when the peer unchoked at once.
	stray := func(conn int, t time.Duration) bool {
		return chokedAt[conn] >= 0 && t >= chokedAt[conn] && t < chokedAt[conn]+tol
	}
	wanted := map[int]bool{}
	unsure := map[int]bool{}
	gone := map[int]bool{}
	claims := map[int]map[int]bool{}
	corrupt := map[int]time.Duration{}
	for _, v := range j.views {
		asks[v.num] = &ask{map[key]time.Duration{}, map[int]map[int]bool{}, map[int]time.Duration{}, map[int]time.Duration{}, -1, map[key]time.Duration{}}
		byNum[v.num] = v
		choked[v.num] = true
		chokedAt[v.num] = -1
		claims[v.num] = map[int]bool{}
	}
	// An ask for a piece is over when no block arrives in time
	expire := func(a *ask, now time.Duration) {
		for k, t := range a.open {
			t = max(t, a.last)
			if t > now-9*time.Second {
				continue
			}
			for o := range a.open {
				if o.index == k.index {
					delete(a.open, o)
				}
			}
			a.over[k.index] = t + 10*time.Second + tol
		}
	}
	w.rec.lk.Lock()
	log := w.rec.log
	w.rec.lk.Unlock()
	for _, e := range log {
		v := byNum[e.conn]
		a := asks[e.conn]
		if v == nil {
			continue
		}
		if expire(a, e.t0); e.kind == 'r' {
			expire(a, e.t) // while the message was on its way
		}
		j.at = e.seq
		one := []int{e.conn}
		m := e.m
		switch e.kind {
		case 'c', 'x', 'h', 'f', 'g':
			gone[e.conn] = true
			a.open = map[key]time.Duration{}
		case 'r':
			switch m.kind {
			case mBad:
				unsure[e.conn] = true
			case mChoke:
				if !choked[e.conn] {
					choked[e.conn] = true
					chokedAt[e.conn] = e.t
				}
				a.open = map[key]time.Duration{}
			case mUnchoke:
				choked[e.conn] = false
			case mHave:
				claims[e.conn][m.index] = true
			case mBitfield:
				for i := range 8 * len(m.data) {
					if m.data[i/8]&(0x80>>(i%8)) != 0 {
						claims[e.conn][i] = true
					}
				}
			case mPiece:
				k := key{m.index, m.begin, m.n}
				at, ok := a.open[k]
				if !ok {
					w.c.Count("unasked_blocks", 1)
					a.push[k] = e.t
					continue
				}
				delete(a.open, k)
				a.last = e.t
				if a.got[m.index] == nil {
					a.got[m.index] = map[int]bool{}
					a.since[m.index] = at
				}
				a.got[m.index][m.begin] = m.good
				a.since[m.index] = min(a.since[m.index], at)
				if len(a.got[m.index]) == w.blocks(m.index) {
					right := true
					for _, g := range a.got[m.index] {
						right = right && g
					}
					if !right && e.t-a.since[m.index] < 9*time.Second && e.t < j.stop {
						w.c.Count("corrupt_pieces", 1)
						if v.closed > e.t+5*time.Second && min(j.end, v.left, j.stop) > e.t+5*time.Second && !v.slow {
							j.fail("P09", "keeps a peer that delivers a corrupt piece", one, "piece %d was complete at %v, and corrupt; the connection is kept", m.index, e.t)
						}
						if _, ok := corrupt[e.conn]; !ok {
							corrupt[e.conn] = e.t
						}
					}
					delete(a.got, m.index)
				}
			}
		case 's':
			switch m.kind {
			case mInterest:
				wanted[e.conn] = true
			case mNot:
				wanted[e.conn] = false
			case mRequest:
				j.n++
				w.c.Count("requests_sent", 1)
				if m.index < 0 || m.index >= w.pieces() || m.begin%blockLen != 0 || m.begin >= w.pieceLen(m.index) || m.n != len(w.blockAt(m.index, m.begin)) {
					j.fail("P09", "a request that is not for a block", one, "%v at %v", m, e.t)
					continue
				}
				if k, ok := p.known[m.index]; ok && k < e.t0-tol {
					j.fail("P09", "requests what it has", one, "%v at %v, when the piece is complete since %v", m, e.t0, k)
				}
				if !claims[e.conn][m.index] && !unsure[e.conn] {
					j.fail("P09", "requests what the peer does not have", one, "%v at %v, which this peer did not announce", m, e.t)
				}
				if !wanted[e.conn] {
					j.fail("P09", "requests without interest", one, "%v at %v, when the server is not interested", m, e.t)
				}
				if choked[e.conn] && e.t0 > chokedAt[e.conn]+tol && !unsure[e.conn] {
					j.fail("P09", "requests while choked", one, "%v at %v; choked since %v", m, e.t0, chokedAt[e.conn])
				}
				if at, ok := a.open[key{m.index, m.begin, m.n}]; ok && e.t0 < at+8*time.Second && !stray(e.conn, at) && !stray(e.conn, e.t0) && !v.slow && !unsure[e.conn] {
					j.fail("P09", "requests a block twice", one, "%v at %v, which is open since %v", m, e.t0, at)
				}
				if b := a.got[m.index]; b != nil {
					if _, ok := b[m.begin]; ok {
						delete(a.got, m.index) // begins anew
					}
				}
				k := key{m.index, m.begin, m.n}
				at, pushed := a.push[k]
				pushed = pushed && e.t0 < at+tol // it was about to be sent when the block came
				if e.t0 > a.over[m.index] && !pushed {
					a.open[k] = e.t0
				}
				n := len(a.open)
				w.c.Max("max_open_requests", n)
				limit := 16
				if chokedAt[e.conn] >= 0 {
					limit *= 2 // some were about to be sent when they were failed
				}
				if n > limit && !v.slow {
					j.fail("P09", "too many open requests", one, "%d requests are open at %v", n, e.t)
				}
				for num, o := range asks {
					if num == e.conn || stray(e.conn, e.t0) || gone[num] || byNum[num].slow || byNum[num].bad < e.t {
						continue
					}
					expire(o, e.t0)
					first := never
					for k, t := range o.open {
						if k.index == m.index && !stray(num, t) {
							first = min(first, t)
						}
					}
					if first != never && e.t0 > first && e.t0 < j.stop {
						j.fail("P09", "one piece is requested from two peers", []int{num, e.conn}, "%v on #%d at %v, when piece %d is being requested from #%d since %v", m, e.conn, e.t0, m.index, num, first)
					}
				}
			}
		}
	}
	j.at = 0
	for num, at := range corrupt {
		v := byNum[num]
		if !v.l.dialed {
			continue
		}
		for _, o := range j.views {
			if o.l.dialed && o.l.peer == v.l.peer && o.opened > at+tol && o.opened != never {
				j.fail("P09", "dials a peer again that delivered a corrupt piece", []int{num, o.num}, "#%d delivered a corrupt piece by %v, and %v is dialed again at %v", num, at, v.l.peer, o.opened)
			}
		}
	}
}

// rarest compares the pieces that are chosen with those that were there to choose from,
// where nothing has changed for a while that could be known to some goroutines only.
func (j *judge) rarest() {
	w := j.w
	near := tol
	if j.calm {
		near = 20 * time.Millisecond
	}
	byNum := map[int]*view{}
	claims := map[int]map[int]bool{}
	for _, v := range j.views {
		if v.slow {
			return
		}
		byNum[v.num] = v
		claims[v.num] = map[int]bool{}
	}
	w.rec.lk.Lock()
	log := w.rec.log
	w.rec.lk.Unlock()
	first := map[int]time.Duration{}
	for _, e := range log {
		if _, ok := first[e.m.index]; e.kind == 's' && e.m.kind == mRequest && !ok {
			first[e.m.index] = e.t0
		}
	}
	judged := map[int]bool{}
	changed := time.Duration(-1 << 40)
	for _, e := range log {
		if byNum[e.conn] == nil {
			continue
		}
		switch e.kind {
		case 'c', 'x', 'h', 'f', 'g':
			claims[e.conn] = map[int]bool{}
			changed = e.t
		case 'o':
			changed = e.t
		case 'r':
			switch e.m.kind {
			case mHave:
				claims[e.conn][e.m.index] = true
				changed = e.t
			case mBitfield:
				for i := range 8 * len(e.m.data) {
					if e.m.data[i/8]&(0x80>>(i%8)) != 0 {
						claims[e.conn][i] = true
					}
				}
				changed = e.t
			case mChoke, mBad:
				changed = e.t
			}
		case 's':
			i := e.m.index
			if e.m.kind != mRequest || first[i] != e.t0 || judged[i] || e.t0 < changed+near || e.t0 > j.stop-near {
				continue
			}
			judged[i] = true
			held := func(i int) (n int) {
				for _, c := range claims {
					if c[i] {
						n++
					}
				}
				return n
			}
			n, others := held(i), 0
			for k := range claims[e.conn] {
				if t, ok := first[k]; k == i || w.initial[k] || k >= w.pieces() || ok && t < e.t+near {
					continue
				}
				others++
				if m := held(k); m < n {
					j.at = e.seq
					j.fail("P09", "not the rarest piece", []int{e.conn}, "%v at %v, a piece that %d connected peers have announced; of piece %d, which nobody was asked for so far, there are %d", e.m, e.t0, n, k, m)
				}
			}
			if others > 0 {
				j.n++
				w.c.Count("choices_judged", 1)
			}
		}
	}
}

// P01
func (j *judge) polite() {
	w := j.w
	stalled := 0
	for _, v := range j.views {
		if v.slow {
			stalled++
		}
	}
	for _, v := range j.views {
		if !v.polite || v.shook == never {
			continue
		}
		j.n++
		one := []int{v.num}
		if v.served == never && j.until(v) > v.shook+2*tol {
			j.fail("P01", "does not welcome a peer", one, "#%d has shaken hands at %v, and was sent nothing by %v", v.num, v.shook, j.until(v))
		}
		if v.served == never && v.closed < j.stop && v.closed < v.left && v.closed >= v.shook {
			// Only where it is already connected, or there are too many
			others, twins := 0, 0
			for _, o := range j.views {
				if o == v || o.opened > v.closed || o.closed < v.opened {
					continue
				}
				others++
				if o.id == v.id && o.l.peer.Addr() == v.l.peer.Addr() {
					twins++
				}
			}
			if others < 49 && twins == 0 {
				j.fail("P01 P05", "refuses a peer", one, "#%d has shaken hands at %v, and is closed at %v, with %d other connections", v.num, v.shook, v.closed, others)
			}
		}
		if v.served == never {
			continue
		}
		w.c.Count("polite_connections", 1)
		wait := 12*time.Second + time.Duration(min(stalled, 2))*31*time.Second
		if v.unchoked > v.served+wait && j.until(v) > v.served+wait {
			j.fail("P01", "does not unchoke a peer", one, "#%d is served since %v, and was not unchoked by %v", v.num, v.served, j.until(v))
		}
		if v.closed < j.stop && v.closed < v.left && !v.slow {
			why := ""
			for _, e := range v.evs {
				if e.t > v.closed-2*tol {
					why += e.String() + "\n"
				}
			}
			j.fail("P01", "drops a peer that keeps to the protocol", []int{v.num}, "the server closes #%d at %v\n%s", v.num, v.closed, strings.TrimSpace(why))
		}
	}
}
