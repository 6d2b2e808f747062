package p2p

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"
	"log/slog"
	"math/rand/v2"
	"net/http"
	"net/netip"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"testing"
	"testing/synctest"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"

	"verif/harness/steer"
	"verif/harness/vk"
)

const blockLen = 1 << 14

var scratch = func() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		var err error
		if d, err = os.MkdirTemp("", "verif-p2p-"); err != nil {
			panic(err)
		}
	}
	return d
}()

var quietLog = slog.New(slog.DiscardHandler)

func init() { slog.SetDefault(quietLog) }

var worldSeq int

// world is one torrent with the server under test and everything around it.
type world struct {
	c       *vk.Case
	n       *network
	rec     *recorder
	info    *metainfo.Info
	mi      *metainfo.Metainfo
	content []byte
	dir     string
	st      *storage.Storage
	srv     *p2p.Server
	id      [20]byte
	port    uint16
	initial map[int]bool // the pieces the server starts with

	trackers []*trackerHost
	startErr chan error
	stopped  bool
	begun    bool
	ending   bool
	startAt  time.Duration

	lk        lock
	live      int
	idle      chan struct{} // closed when live drops to 0
	done      chan struct{} // closed to end all agents
	ends      []*remote
	announces []*announce
	attempts  []attempt
	overlap   bool      // an announce was under way when the server was stopped
	failed    bool      // Start returned early
	blind     bool      // the harness is not to look into the server's storage
	held      []holding // what was complete when
	agentRng  *rand.Rand
	list      func(k *agentAddr) // has the tracker name a peer
}

type holding struct {
	t    time.Duration
	have map[int]bool
}

func (w *world) pieces() int { return len(w.info.Pieces) }

func (w *world) pieceLen(i int) int {
	return min(w.info.PieceLength, len(w.content)-i*w.info.PieceLength)
}

func (w *world) piece(i int) []byte {
	o := i * w.info.PieceLength
	return w.content[o : o+w.pieceLen(i)]
}

func (w *world) blocks(i int) int { return (w.pieceLen(i) + blockLen - 1) / blockLen }

func (w *world) blockAt(i, begin int) []byte {
	return w.piece(i)[begin:min(begin+blockLen, w.pieceLen(i))]
}

type options struct {
	maxPieces int
	minPieces int
	large     bool                      // pieces of many blocks
	small     bool                      // pieces of one block
	have      float64                   // the share of pieces the server starts with
	layout    func(w *world) [][]string // the announce list
}

// newWorld makes a torrent and a server for it, which is not started yet. It is to
// be called in a bubble.
func newWorld(c *vk.Case, o options) *world {
	worldSeq++
	w := &world{c: c, dir: filepath.Join(scratch, fmt.Sprintf("w%d-%d", os.Getpid(), worldSeq)), lk: newLock(), done: make(chan struct{}), startErr: make(chan error, 1),
		initial: map[int]bool{}, port: uint16(1024 + c.IntN(60000)), agentRng: rand.New(rand.NewPCG(c.Uint64(), 7))}
	if err := os.MkdirAll(filepath.Join(w.dir, "target"), 0o755); err != nil {
		panic(err)
	}
	w.n = newNetwork(rand.New(rand.NewPCG(c.Uint64(), 8)))
	w.rec = newRecorder(w)
	w.n.tap = w.rec.tap
	installed.Store(w.n)
	http.DefaultTransport = &http.Transport{DisableKeepAlives: true}

	w.info = &metainfo.Info{Name: "name"}
	for k := range w.info.SHA1 {
		w.info.SHA1[k] = byte(c.Uint32())
	}
	copy(w.id[:], "-DR0001-")
	for k := 8; k < 20; k++ {
		w.id[k] = byte(c.Uint32())
	}
	np := max(o.minPieces, 1+c.IntN(max(1, o.maxPieces)))
	pl := 0
	switch k := c.IntN(8); {
	case o.small || k < 2:
		pl = 1 + c.IntN(3000)
	case o.large:
		pl = (10+c.IntN(25))*blockLen - c.IntN(2)*c.IntN(blockLen)
	case k < 4:
		pl = blockLen
	case k < 6:
		pl = 2 * blockLen
	default:
		pl = blockLen + 1 + c.IntN(3*blockLen)
	}
	last := pl
	if c.IntN(2) == 0 {
		last = 1 + c.IntN(pl)
	}
	w.content = make([]byte, (np-1)*pl+last)
	for i := 0; i < len(w.content); i += 8 {
		x := c.Uint64()
		for j := i; j < len(w.content) && j < i+8; j++ {
			w.content[j] = byte(x)
			x >>= 8
		}
	}
	w.info.PieceLength = pl
	for o := 0; o < len(w.content); o += pl {
		w.info.Pieces = append(w.info.Pieces, sha1.Sum(w.content[o:min(o+pl, len(w.content))]))
	}
	if c.IntN(2) == 0 {
		w.info.Length = int64(len(w.content))
	} else {
		for k, rest := 0, len(w.content); rest > 0; k++ {
			m := 1 + c.IntN(rest)
			if k == 4 {
				m = rest
			}
			w.info.Files = append(w.info.Files, &metainfo.File{Length: int64(m), Path: []string{fmt.Sprint("f", k)}})
			rest -= m
		}
	}
	w.mi = &metainfo.Metainfo{Info: w.info}
	if o.layout == nil {
		t := w.newTracker(0)
		w.mi.Announce = t.url
	} else {
		w.mi.AnnounceList = o.layout(w)
	}
	w.st = w.open()
	if o.have > 0 {
		must(w.st.Load())
		for i := range w.pieces() {
			if o.have >= 1 || c.Float64() < o.have {
				w.initial[i] = true
				for b := 0; b < w.pieceLen(i); b += blockLen {
					must(w.st.PutBlock(i, b, bytes.Clone(w.blockAt(i, b))))
				}
			}
		}
		w.st = w.open()
	}
	w.srv = p2p.New(w.mi, w.id, w.st, int(w.port))
	return w
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *world) open() *storage.Storage {
	return storage.New(filepath.Join(w.dir, "target"), filepath.Join(w.dir, "work"), w.info)
}

// start runs the server.
func (w *world) start() {
	w.begun = true
	w.startAt = w.rec.now()
	go func() {
		err := fmt.Errorf("panic")
		defer func() { w.startErr <- err }()
		w.c.Protect(func() { err = w.srv.Start() })
	}()
}

// spawn runs a part of the surroundings.
func (w *world) spawn(f func()) {
	w.lk.Lock()
	w.live++
	w.lk.Unlock()
	go func() {
		defer func() {
			w.lk.Lock()
			w.live--
			if w.live == 0 && w.idle != nil {
				close(w.idle)
				w.idle = nil
			}
			w.lk.Unlock()
		}()
		w.c.Protect(f)
	}()
}

// sleep ends early, with false, when the agents are to end.
func (w *world) sleep(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-w.done:
		return false
	case <-t.C:
		return true
	}
}

func (w *world) ended() bool {
	select {
	case <-w.done:
		return true
	default:
		return false
	}
}

// settle lets virtual time pass for goroutines that were held back.
func settle() {
	time.Sleep(20 * time.Millisecond)
	synctest.Wait()
}

// poll notes which pieces are complete. The caller is the bubble's main goroutine.
func (w *world) poll() map[int]bool {
	settle()
	h := map[int]bool{}
	for i := range w.pieces() {
		if w.st.Torrent.HasPiece(i) {
			h[i] = true
		}
	}
	w.lk.Lock()
	w.held = append(w.held, holding{w.rec.now(), h})
	w.lk.Unlock()
	return h
}

func (w *world) verified(h map[int]bool) int64 {
	n := int64(0)
	for i := range h {
		n += int64(w.pieceLen(i))
	}
	return n
}

// advance lets virtual time pass, noting complete pieces, until f holds or the time is over.
func (w *world) advance(d, step time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		w.poll()
		if f != nil && f() {
			return true
		}
		left := time.Until(end)
		if left <= 0 {
			return false
		}
		time.Sleep(min(step, left))
	}
}

// stop stops the server and reports what does not end.
func (w *world) stop(rule string) {
	if w.stopped {
		return
	}
	w.stopped = true
	w.rec.lk.Lock()
	w.ending = true
	w.rec.lk.Unlock()
	if !w.begun {
		return
	}
	w.c.Count("stops", 1)
	at := w.rec.now()
	ret := make(chan struct{})
	go func() {
		defer close(ret)
		w.c.Protect(func() { w.srv.Stop() })
	}()
	limit := time.Duration(len(w.trackers)+1)*60*time.Second + time.Minute
	tm := time.After(limit)
	select {
	case <-ret:
	case <-tm:
		if rule != "" {
			w.c.Report(rule+": Stop does not return", fmt.Sprintf("Stop called at %v has not returned after %v\n%s\n%s", at, limit, w.story(0), vk.Stacks()))
		}
		return
	}
	select {
	case <-w.startErr:
	case <-time.After(limit):
		if rule != "" {
			w.c.Report(rule+": Start does not return", fmt.Sprintf("Stop was called at %v; %v after it returned, Start has not\n%s", at, limit, vk.Stacks()))
		}
	}
}

// close ends everything, and returns the stacks of goroutines the server has left.
func (w *world) close() (left string) {
	w.stop("")
	select {
	case <-w.done:
	default:
		close(w.done)
	}
	w.n.lk.Lock()
	conns := append([]*local(nil), w.n.conns...)
	w.n.lk.Unlock()
	for _, c := range conns {
		c.remote.Close()
	}
	w.lk.Lock()
	idle := make(chan struct{})
	if w.live == 0 {
		close(idle)
	} else {
		w.idle = idle
	}
	w.lk.Unlock()
	select {
	case <-idle:
	case <-time.After(10 * time.Minute):
		panic("harness: agents do not end\n" + vk.Stacks())
	}
	time.Sleep(5 * time.Minute)
	synctest.Wait()
	return serverStacks()
}

var header = regexp.MustCompile(`^goroutine \d+ .*synctest bubble (\d+)`)

// serverStacks returns the stacks of this bubble's goroutines that the server started.
func serverStacks() string {
	var b []byte
	for n := 1 << 20; ; n *= 2 {
		b = make([]byte, n)
		if k := runtime.Stack(b, true); k < n {
			b = b[:k]
			break
		}
	}
	own := ""
	res := ""
	for i, g := range strings.Split(string(b), "\n\n") {
		m := header.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		if i == 0 {
			own = m[1] // the caller comes first
			continue
		}
		if m[1] == own && strings.Contains(g, "browles/drip/") {
			res += g + "\n\n"
		}
	}
	return res
}

func (w *world) drop() {
	installed.Store(nil)
	os.RemoveAll(w.dir)
}

// story tells what happened, up to some event; 0 for all.
func (w *world) story(until int, conns ...int) string {
	w.rec.lk.Lock()
	defer w.rec.lk.Unlock()
	s := fmt.Sprintf("torrent: %d pieces of %d bytes, %d bytes in all; the server started with %v\n", w.pieces(), w.info.PieceLength, len(w.content), keys(w.initial))
	return s + w.rec.story(until, conns...)
}

func keys(m map[int]bool) []int {
	l := make([]int, 0, len(m))
	for i, ok := range m {
		if ok {
			l = append(l, i)
		}
	}
	sort.Ints(l)
	return l
}

// bubble runs f in virtual time.
func bubble(c *vk.Case, f func()) {
	defer func() {
		if p := recover(); p != nil && !strings.Contains(fmt.Sprint(p), "deadlock") {
			panic(p)
		} else if p != nil && !c.Run.Failed() {
			c.Report("harness: deadlock", fmt.Sprintf("%v\n%s", p, vk.Stacks()))
		}
	}()
	synctest.Test(c.Run.T, func(*testing.T) { c.Protect(f) })
}

// spread holds goroutines back at locks in a part of the cases.
func spread(c *vk.Case, odds int) (s *steer.Sched, stop func()) {
	s = &steer.Sched{Seed: c.Uint64()}
	if c.IntN(odds) != 0 {
		return s, func() {}
	}
	return s, steer.Spread(s)
}

// announce is a request that a tracker got.
type announce struct {
	t, answered time.Duration
	began       time.Duration // the connection was made
	tracker     int
	q           url.Values
	raw         string
	path        string
	event       string
	held        map[int]bool // complete when it arrived
	up, down    int64        // bytes of blocks sent and read until then
	ok          bool         // it was answered properly
	reply       string
	flooded     int
}

// reply is what a tracker does with a request.
type reply struct {
	delay    time.Duration
	hang     bool // never answers
	hangBody bool // answers in part
	cut      bool // closes the connection instead
	status   int
	body     string
	ok       bool
	chunked  bool
	raw      string // instead of an HTTP answer
	flood    int    // bytes that follow the body
	name     string
}

// trackerHost is a tracker.
type trackerHost struct {
	w      *world
	num    int
	ap     netip.AddrPort
	url    string
	query  url.Values // of the URL
	path   string
	decide func(a *announce) reply
	peers  func() []*agentAddr
}

type agentAddr struct {
	ap netip.AddrPort
	id *[20]byte

	until time.Duration // when the tracker drops it
}

func (w *world) newTracker(style int) *trackerHost {
	t := &trackerHost{w: w, num: len(w.trackers), ap: netip.AddrPortFrom(netip.AddrFrom4([4]byte{198, 51, 100, byte(1 + len(w.trackers))}), uint16(1000+w.c.IntN(9000)))}
	t.url = "http://" + t.ap.String() + "/announce"
	switch style {
	case 1:
		t.url += "?passkey=abc%20d%2Be&x=1"
	case 2:
		t.url = "http://" + t.ap.String() + "/a/b?k=" + strconv.Itoa(w.c.IntN(100))
	case 3:
		t.url += "?"
	}
	u, err := url.Parse(t.url)
	must(err)
	t.query, t.path = u.Query(), u.Path
	w.trackers = append(w.trackers, t)
	w.n.host(t.ap, &host{accept: t.accept, quiet: true})
	return t
}

// answer writes a proper answer that lists peers.
func answer(interval int, peers []*agentAddr, compact bool) string {
	var p string
	if compact {
		b := ""
		for _, a := range peers {
			if !a.ap.Addr().Is4() {
				continue
			}
			ip := a.ap.Addr().As4()
			b += string(ip[:]) + string([]byte{byte(a.ap.Port() >> 8), byte(a.ap.Port())})
		}
		p = fmt.Sprintf("%d:%s", len(b), b)
	} else {
		p = "l"
		for _, a := range peers {
			ip := a.ap.Addr().String()
			p += fmt.Sprintf("d2:ip%d:%s", len(ip), ip)
			if a.id != nil {
				p += "7:peer id20:" + string(a.id[:])
			}
			p += fmt.Sprintf("4:porti%dee", a.ap.Port())
		}
		p += "e"
	}
	return fmt.Sprintf("d8:intervali%de5:peers%se", interval, p)
}

func (t *trackerHost) accept(c *remote) {
	w := t.w
	defer c.Close()
	req, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	a := &announce{answered: -1, began: c.local.opened.Sub(w.rec.start), t: w.rec.now(), tracker: t.num, raw: req.URL.RawQuery, path: req.URL.Path, q: req.URL.Query()}
	a.event = a.q.Get("event")
	a.held = map[int]bool{}
	for i := range w.pieces() {
		if !w.blind && w.st.Torrent.HasPiece(i) {
			a.held[i] = true
		}
	}
	w.rec.lk.Lock()
	for _, e := range w.rec.log {
		if e.m.kind == mPiece && e.kind == 's' {
			a.up += int64(e.m.n)
		} else if e.m.kind == mPiece && e.kind == 'r' {
			a.down += int64(e.m.n)
		}
	}
	w.rec.lk.Unlock()
	r := reply{body: answer(1800, nil, true), ok: true}
	if t.decide != nil {
		r = t.decide(a)
	} else if t.peers != nil {
		l := t.peers()
		named := false
		for _, k := range l {
			named = named || k.id != nil
		}
		r.body = answer(30, l, !named)
	}
	a.ok, a.reply = r.ok, r.name
	w.lk.Lock()
	w.announces = append(w.announces, a)
	w.lk.Unlock()
	if r.delay > 0 {
		time.Sleep(r.delay)
	}
	switch {
	case r.hang:
		io.Copy(io.Discard, c) // until the client gives up
		return
	case r.cut:
		c.Reset()
		return
	case r.raw != "":
		io.WriteString(c, r.raw)
		return
	}
	if r.status == 0 {
		r.status = 200
	}
	body := r.body
	if r.hangBody {
		body = body[:len(body)/2]
	}
	h := fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Type: text/plain\r\n", r.status, http.StatusText(r.status))
	if r.flood > 0 {
		h += "\r\n" + body
	} else if r.chunked {
		h += "Transfer-Encoding: chunked\r\n\r\n"
		for len(body) > 0 {
			k := min(len(body), 7)
			h += fmt.Sprintf("%x\r\n%s\r\n", k, body[:k])
			body = body[k:]
		}
		if !r.hangBody {
			h += "0\r\n\r\n"
		}
	} else {
		h += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(r.body), body)
	}
	io.WriteString(c, h)
	if r.flood > 0 {
		c.out.set(func() { c.out.chunk = 0 })
	}
	for b := make([]byte, 1<<16); r.flood > 0; r.flood -= len(b) {
		k, err := c.Write(b)
		a.flooded += k
		if err != nil {
			return
		}
	}
	a.answered = w.rec.now()
	if r.hangBody {
		io.Copy(io.Discard, c)
	}
}
