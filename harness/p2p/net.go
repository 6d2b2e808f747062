// Package p2p monitors the peer-to-peer server on a network in memory, in virtual time.
package p2p

import (
	"context"
	"io"
	"math/rand/v2"
	"net"
	"net/netip"
	"os"
	"sync/atomic"
	"syscall"
	"time"
)

// lock is a mutex that the hooks in package sync do not see.
type lock chan struct{}

func newLock() lock { return make(lock, 1) }

func (l lock) Lock()   { l <- struct{}{} }
func (l lock) Unlock() { <-l }

// network connects the server under test (the local side) to remote hosts.
type network struct {
	lk        lock
	rng       *rand.Rand
	serverIP  netip.Addr
	listeners map[uint16]*listener
	hosts     map[netip.AddrPort]*host
	nextPort  uint16
	conns     []*local
	made      func(c *local)
	tap       func(c *local, kind byte, b []byte, t0 time.Time)
	dials     func(addr string)
	capacity  func() int           // of each direction of a new connection
	latency   func() time.Duration // of each direction of a new connection
	chunk     func() int           // the most bytes one read returns; 0 for any
}

type host struct {
	accept func(c *remote) // runs in its own goroutine
	hang   bool            // does not answer at all
	quiet  bool            // not a peer: the tap does not see its connections
	refuse bool
}

var installed atomic.Pointer[network]

func init() {
	net.VerifListen = func(ctx context.Context, nw, address string) (net.Listener, error, bool) {
		n := installed.Load()
		if n == nil {
			return nil, nil, false
		}
		l, err := n.listen(nw, address)
		return l, err, true
	}
	net.VerifDial = func(ctx context.Context, nw, address string) (net.Conn, error, bool) {
		n := installed.Load()
		if n == nil {
			return nil, nil, false
		}
		c, err := n.dial(ctx, nw, address)
		return c, err, true
	}
}

func newNetwork(rng *rand.Rand) *network {
	return &network{lk: newLock(), rng: rng, serverIP: netip.MustParseAddr("192.0.2.1"), listeners: map[uint16]*listener{}, hosts: map[netip.AddrPort]*host{}, nextPort: 30000,
		capacity: func() int { return 1 << 20 }, latency: func() time.Duration { return 0 }, chunk: func() int { return 0 }}
}

func (n *network) host(ap netip.AddrPort, h *host) {
	n.lk.Lock()
	n.hosts[ap] = h
	n.lk.Unlock()
}

func (n *network) unhost(ap netip.AddrPort) {
	n.lk.Lock()
	delete(n.hosts, ap)
	n.lk.Unlock()
}

type listener struct {
	n      *network
	port   uint16
	lk     lock
	queue  []*local
	wait   chan struct{}
	closed bool
}

func (n *network) listen(nw, address string) (net.Listener, error) {
	_, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := net.LookupPort("tcp", p)
	if err != nil {
		return nil, err
	}
	n.lk.Lock()
	defer n.lk.Unlock()
	if l := n.listeners[uint16(port)]; l != nil {
		return nil, &net.OpError{Op: "listen", Net: nw, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &listener{n: n, port: uint16(port), lk: newLock(), wait: make(chan struct{})}
	n.listeners[l.port] = l
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	for {
		l.lk.Lock()
		if l.closed {
			l.lk.Unlock()
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.lk.Unlock()
			l.n.event(c, 'o', nil, time.Now())
			return c, nil
		}
		w := l.wait
		l.lk.Unlock()
		<-w
	}
}

func (l *listener) Close() error {
	l.lk.Lock()
	defer l.lk.Unlock()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
	}
	l.closed = true
	close(l.wait)
	for _, c := range l.queue {
		c.shut()
	}
	l.n.lk.Lock()
	delete(l.n.listeners, l.port)
	l.n.lk.Unlock()
	return nil
}

func (l *listener) Addr() net.Addr {
	return &net.TCPAddr{IP: net.IPv6zero, Port: int(l.port)}
}

// event hands something that happened on a connection to the tap.
func (n *network) event(c *local, kind byte, b []byte, t0 time.Time) {
	if n.tap != nil && !c.quiet {
		n.tap(c, kind, b, t0)
	}
}

// pair makes a connection: the end the server holds, and the remote's.
func (n *network) pair(srv, rem netip.AddrPort, dialed bool) (*local, *remote) {
	up, down := newPipe(n.capacity(), n.latency(), n.chunk(), n.rng.Uint64()), newPipe(n.capacity(), n.latency(), n.chunk(), n.rng.Uint64())
	c := &local{end: end{in: up, out: down, laddr: tcpAddr(srv), raddr: tcpAddr(rem), rd: newDeadline(), wd: newDeadline(), closed: make(chan struct{}), lk: newLock()},
		n: n, num: len(n.conns), dialed: dialed, peer: rem, opened: time.Now()}
	r := &remote{end: end{in: down, out: up, laddr: tcpAddr(rem), raddr: tcpAddr(srv), rd: newDeadline(), wd: newDeadline(), closed: make(chan struct{}), lk: newLock()}, local: c}
	c.remote = r
	n.conns = append(n.conns, c)
	if n.made != nil {
		n.made(c)
	}
	return c, r
}

func tcpAddr(a netip.AddrPort) *net.TCPAddr { return net.TCPAddrFromAddrPort(a) }

// connect is a remote host connecting to the server.
func (n *network) connect(from netip.AddrPort, port uint16) (*remote, error) {
	n.lk.Lock()
	defer n.lk.Unlock()
	l := n.listeners[port]
	if l == nil {
		return nil, syscall.ECONNREFUSED
	}
	if from.Port() == 0 {
		n.nextPort++
		from = netip.AddrPortFrom(from.Addr(), n.nextPort)
	}
	c, r := n.pair(netip.AddrPortFrom(n.serverIP, port), from, false)
	n.lk.Unlock()
	l.lk.Lock()
	refused := l.closed || len(l.queue) >= 128
	if !refused {
		l.queue = append(l.queue, c)
		close(l.wait)
		l.wait = make(chan struct{})
	}
	l.lk.Unlock()
	n.lk.Lock()
	if refused {
		return nil, syscall.ECONNREFUSED
	}
	return r, nil
}

// dial is the server connecting to a remote host.
func (n *network) dial(ctx context.Context, nw, address string) (net.Conn, error) {
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: nw, Err: err}
	}
	if err := ctx.Err(); err != nil {
		return fail(err)
	}
	if n.dials != nil {
		n.dials(address)
	}
	ap, err := netip.ParseAddrPort(address)
	if err != nil {
		return fail(&net.DNSError{Err: "no such host", Name: address, IsNotFound: true})
	}
	ap = netip.AddrPortFrom(ap.Addr().Unmap(), ap.Port())
	n.lk.Lock()
	h := n.hosts[ap]
	if h == nil && ap.Addr() == n.serverIP && n.listeners[ap.Port()] != nil {
		// The server connects to itself
		n.lk.Unlock()
		return n.loop(ap)
	}
	switch {
	case h == nil || h.refuse:
		n.lk.Unlock()
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case h.hang:
		n.lk.Unlock()
		select {
		case <-ctx.Done():
			return fail(ctx.Err())
		case <-time.After(127 * time.Second):
			return fail(os.NewSyscallError("connect", syscall.ETIMEDOUT))
		}
	}
	n.nextPort++
	c, r := n.pair(netip.AddrPortFrom(n.serverIP, n.nextPort), ap, true)
	if c.quiet = h.quiet; c.quiet { // a tracker is as slow as it decides to be, and not slower
		for _, p := range []*pipe{c.in, c.out} {
			p.cap = 1 << 20
			if p.chunk > 0 {
				p.chunk = max(p.chunk, 500)
			}
		}
	}
	n.lk.Unlock()
	n.event(c, 'o', nil, time.Now())
	go h.accept(r)
	return c, nil
}

// loop connects the server to itself: two local ends with a relay between.
func (n *network) loop(ap netip.AddrPort) (net.Conn, error) {
	n.lk.Lock()
	n.nextPort++
	from := netip.AddrPortFrom(n.serverIP, n.nextPort)
	a, ra := n.pair(from, ap, true)
	n.lk.Unlock()
	rb, err := n.connect(from, ap.Port())
	if err != nil {
		return nil, err
	}
	n.event(a, 'o', nil, time.Now())
	relay := func(dst, src *remote) {
		b := make([]byte, 4096)
		for {
			k, err := src.Read(b)
			if k > 0 {
				if _, err := dst.Write(b[:k]); err != nil {
					break
				}
			}
			if err != nil {
				break
			}
		}
		dst.Close()
		src.Close()
	}
	go relay(ra, rb)
	go relay(rb, ra)
	return a, nil
}

// pipe is one direction of a connection.
type pipe struct {
	lk      lock
	rng     *rand.Rand
	segs    []seg
	size    int
	total   int // of all bytes written
	cap     int
	latency time.Duration
	chunk   int
	eof     bool  // nothing more will be written
	err     error // both sides fail at once
	gone    bool  // nobody will read
	wait    chan struct{}
}

type seg struct {
	at time.Time
	b  []byte
}

func newPipe(capacity int, latency time.Duration, chunk int, seed uint64) *pipe {
	return &pipe{lk: newLock(), rng: rand.New(rand.NewPCG(seed, 1)), cap: capacity, latency: latency, chunk: chunk, wait: make(chan struct{})}
}

func (p *pipe) wake() {
	close(p.wait)
	p.wait = make(chan struct{})
}

func (p *pipe) set(f func()) {
	p.lk.Lock()
	f()
	p.wake()
	p.lk.Unlock()
}

// end is one side of a connection.
type end struct {
	in, out      *pipe
	laddr, raddr *net.TCPAddr
	rd, wd       *deadline
	lk           lock
	done         bool
	closed       chan struct{}
}

func (e *end) read(b []byte) (int, error) {
	for {
		select {
		case <-e.closed:
			return 0, net.ErrClosed
		case <-e.rd.passed():
			return 0, os.ErrDeadlineExceeded
		default:
		}
		p := e.in
		p.lk.Lock()
		if p.err != nil {
			err := p.err
			p.lk.Unlock()
			return 0, err
		}
		if len(b) == 0 {
			p.lk.Unlock()
			return 0, nil
		}
		var later <-chan time.Time
		if len(p.segs) > 0 {
			s := &p.segs[0]
			d := time.Until(s.at)
			if d <= 0 {
				m := min(len(b), len(s.b))
				if p.chunk > 0 {
					m = min(m, 1+p.rng.IntN(p.chunk))
				}
				copy(b, s.b[:m])
				s.b = s.b[m:]
				if len(s.b) == 0 {
					p.segs = p.segs[1:]
				}
				p.size -= m
				p.wake()
				p.lk.Unlock()
				return m, nil
			}
			later = time.After(d)
		} else if p.eof {
			p.lk.Unlock()
			return 0, io.EOF
		}
		w := p.wait
		p.lk.Unlock()
		select {
		case <-w:
		case <-later:
		case <-e.closed:
		case <-e.rd.passed():
		}
	}
}

// write reports every part that has got through to done.
func (e *end) write(b []byte, done func([]byte)) (n int, err error) {
	for {
		select {
		case <-e.closed:
			return n, net.ErrClosed
		case <-e.wd.passed():
			return n, os.ErrDeadlineExceeded
		default:
		}
		p := e.out
		p.lk.Lock()
		switch {
		case p.err != nil:
			p.lk.Unlock()
			return n, p.err
		case p.eof || p.gone:
			p.lk.Unlock()
			return n, syscall.EPIPE
		}
		if m := min(p.cap-p.size, len(b)-n); m > 0 {
			s := append([]byte(nil), b[n:n+m]...)
			if done != nil {
				done(s) // before anybody can read it
			}
			p.segs = append(p.segs, seg{time.Now().Add(p.latency), s})
			p.size += m
			p.total += m
			n += m
			p.wake()
		}
		if n == len(b) {
			p.lk.Unlock()
			return n, nil
		}
		w := p.wait
		p.lk.Unlock()
		select {
		case <-w:
		case <-e.closed:
		case <-e.wd.passed():
		}
	}
}

func (e *end) close() bool {
	e.lk.Lock()
	defer e.lk.Unlock()
	if e.done {
		return false
	}
	e.done = true
	close(e.closed)
	e.out.set(func() { e.out.eof = true })
	e.in.set(func() { e.in.gone, e.in.segs, e.in.size = true, nil, 0 })
	e.rd.set(time.Time{})
	e.wd.set(time.Time{})
	return true
}

// local is the end of a connection that the server holds.
type local struct {
	end
	n      *network
	num    int
	dialed bool
	peer   netip.AddrPort
	opened time.Time
	remote *remote
	quiet  bool
}

func (c *local) op(name string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &net.OpError{Op: name, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

func (c *local) Read(b []byte) (int, error) {
	n, err := c.read(b)
	if n > 0 {
		c.n.event(c, 'r', b[:n], time.Now())
	}
	if err != nil {
		c.n.event(c, 'f', nil, time.Now())
	}
	return n, c.op("read", err)
}

func (c *local) Write(b []byte) (int, error) {
	t0 := time.Now()
	n, err := c.write(b, func(part []byte) { c.n.event(c, 's', part, t0) })
	if err != nil {
		c.n.event(c, 'g', nil, t0)
	}
	return n, c.op("write", err)
}

func (c *local) shut() bool {
	if !c.close() {
		return false
	}
	c.n.event(c, 'c', nil, time.Now())
	return true
}

func (c *local) Close() error {
	if !c.shut() {
		return c.op("close", net.ErrClosed)
	}
	return nil
}

func (c *local) LocalAddr() net.Addr  { return c.laddr }
func (c *local) RemoteAddr() net.Addr { return c.raddr }

func (c *local) SetDeadline(t time.Time) error {
	if c.isClosed() {
		return c.op("set", net.ErrClosed)
	}
	c.rd.set(t)
	c.wd.set(t)
	return nil
}

func (c *local) SetReadDeadline(t time.Time) error {
	if c.isClosed() {
		return c.op("set", net.ErrClosed)
	}
	c.rd.set(t)
	return nil
}

func (c *local) SetWriteDeadline(t time.Time) error {
	if c.isClosed() {
		return c.op("set", net.ErrClosed)
	}
	c.wd.set(t)
	return nil
}

func (e *end) isClosed() bool {
	select {
	case <-e.closed:
		return true
	default:
		return false
	}
}

// remote is the end of a connection that a scripted peer holds.
type remote struct {
	end
	local *local
}

func (r *remote) Read(b []byte) (int, error)  { return r.read(b) }
func (r *remote) Write(b []byte) (int, error) { return r.write(b, nil) }

// Close closes the connection once what was written has been read.
func (r *remote) Close() error {
	if r.close() {
		r.local.n.event(r.local, 'x', nil, time.Now())
	}
	return nil
}

// Reset aborts the connection.
func (r *remote) Reset() {
	if !r.close() {
		return
	}
	r.local.n.event(r.local, 'x', nil, time.Now())
	for _, p := range []*pipe{r.in, r.out} {
		p.set(func() { p.err, p.segs, p.size = syscall.ECONNRESET, nil, 0 })
	}
}

// CloseWrite ends one direction.
func (r *remote) CloseWrite() {
	r.local.n.event(r.local, 'h', nil, time.Now())
	r.out.set(func() { r.out.eof = true })
}

// deadline is that of net.Pipe.
type deadline struct {
	lk     lock
	timer  *time.Timer
	cancel chan struct{}
}

func newDeadline() *deadline { return &deadline{lk: newLock(), cancel: make(chan struct{})} }

func (d *deadline) set(t time.Time) {
	d.lk.Lock()
	defer d.lk.Unlock()
	if d.timer != nil && !d.timer.Stop() {
		<-d.cancel // the timer's function has run, or is about to
	}
	d.timer = nil
	closed := false
	select {
	case <-d.cancel:
		closed = true
	default:
	}
	if t.IsZero() {
		if closed {
			d.cancel = make(chan struct{})
		}
		return
	}
	if dur := time.Until(t); dur > 0 {
		if closed {
			d.cancel = make(chan struct{})
		}
		c := d.cancel
		d.timer = time.AfterFunc(dur, func() { close(c) })
		return
	}
	if !closed {
		close(d.cancel)
	}
}

func (d *deadline) passed() chan struct{} {
	d.lk.Lock()
	defer d.lk.Unlock()
	return d.cancel
}
