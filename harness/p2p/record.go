package p2p

import (
	"bytes"
	"fmt"
	"strings"
	"time"
)

// event is one thing that happened on the server's side of a connection.
//
//	o opened              s the server wrote a message (t0: when it began to)
//	r the server read it  c the server closed the connection
//	x the remote closed   h the remote closed its writing side
//	f a read failed       g a write failed
type event struct {
	seq   int
	t0, t time.Duration
	conn  int
	kind  byte
	m     msg
}

func (e event) String() string {
	name := map[byte]string{'o': "open", 's': "server sends", 'r': "server reads", 'c': "server closes", 'x': "remote closes", 'h': "remote ends writing", 'f': "read fails", 'g': "write fails"}[e.kind]
	s := fmt.Sprintf("%10.4fs #%d %s", e.t.Seconds(), e.conn, name)
	if e.kind == 's' || e.kind == 'r' {
		s += " " + e.m.String()
	}
	if e.t0 != e.t {
		s += fmt.Sprintf(" (since %.4fs)", e.t0.Seconds())
	}
	return s
}

// record is what is known of a connection.
type record struct {
	num      int
	l        *local
	out, in  parser
	named    *[20]byte // the id a tracker named for the address dialed
	polite   bool      // the remote keeps to the protocol
	who      string
	events   []int // into the log
	openSeen bool
	torn     bool // a message of the server was cut off by a write that failed
	beyond   int  // bytes it sent after that
}

// recorder collects the events of one case.
type recorder struct {
	w     *world
	lk    lock
	start time.Time
	log   []event
	conns []*record
}

func newRecorder(w *world) *recorder {
	return &recorder{w: w, lk: newLock(), start: time.Now()}
}

func (r *recorder) now() time.Duration { return time.Since(r.start) }

func (r *recorder) get(l *local) *record {
	for len(r.conns) <= l.num {
		r.conns = append(r.conns, nil)
	}
	if r.conns[l.num] == nil {
		r.conns[l.num] = &record{num: l.num, l: l}
	}
	return r.conns[l.num]
}

func (r *recorder) tap(l *local, kind byte, b []byte, t0 time.Time) {
	r.lk.Lock()
	defer r.lk.Unlock()
	c := r.get(l)
	now := r.now()
	add := func(m msg, since time.Time) {
		if m.kind == mPiece {
			m.good = r.w.isGood(m.index, m.begin, m.data)
			m.data = nil
		}
		c.events = append(c.events, len(r.log))
		r.log = append(r.log, event{seq: len(r.log), t0: since.Sub(r.start), t: now, conn: l.num, kind: kind, m: m})
	}
	switch kind {
	case 's':
		if c.torn {
			c.beyond += len(b)
		}
		c.out.feed(b, t0, add)
	case 'r':
		c.in.feed(b, t0, add)
	default:
		if kind == 'g' && len(c.out.buf) > 0 {
			c.torn = true
		}
		add(msg{}, t0)
	}
}

// mark says something about a connection.
func (r *recorder) mark(rem *remote, f func(c *record)) {
	r.lk.Lock()
	defer r.lk.Unlock()
	f(r.get(rem.local))
}

// story writes out the events of some connections, or of all.
func (r *recorder) story(until int, conns ...int) string {
	var b strings.Builder
	var l []event
	const last = 160
	for _, e := range r.log {
		if until > 0 && e.seq > until {
			break
		}
		ok := len(conns) == 0
		for _, c := range conns {
			ok = ok || c == e.conn
		}
		if ok {
			l = append(l, e)
		}
	}
	for _, c := range r.conns {
		if c == nil {
			continue
		}
		ok := len(conns) == 0 && len(r.conns) < 12
		for _, k := range conns {
			ok = ok || c.num == k
		}
		if ok {
			fmt.Fprintf(&b, "#%d is %s at %v (dialed by the server: %v)\n", c.num, c.who, c.l.peer, c.l.dialed)
		}
	}
	if len(l) > last {
		fmt.Fprintf(&b, "... %d earlier events\n", len(l)-last)
		l = l[len(l)-last:]
	}
	for _, e := range l {
		fmt.Fprintln(&b, e)
	}
	return b.String()
}

func (w *world) isGood(i, begin int, data []byte) bool {
	if i < 0 || i >= w.pieces() || begin < 0 {
		return false
	}
	p := w.piece(i)
	return begin+len(data) <= len(p) && bytes.Equal(p[begin:begin+len(data)], data)
}
