package p2p

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/pex"
	"github.com/browles/drip/storage"

	"verif/harness/vk"
)

// node is a server of a swarm, through all its lives.
type node struct {
	w       *world
	num     int
	dir     string
	port    uint16
	id      [20]byte
	st      *storage.Storage
	srv     *p2p.Server
	ret     chan error // of Start
	lives   []*p2p.Server
	initial map[int]bool
	missing int64         // bytes at first
	done    time.Duration // all pieces were there
}

func (k *node) open() {
	k.st = storage.New(filepath.Join(k.dir, "target"), filepath.Join(k.dir, "work"), k.w.info)
}

// live starts the node, anew if it has been stopped.
func (k *node) live() {
	k.open()
	k.srv = p2p.New(k.w.mi, k.id, k.st, int(k.port))
	k.lives = append(k.lives, k.srv)
	ret := make(chan error, 1)
	k.ret = ret
	srv := k.srv
	go func() {
		err := errors.New("panic")
		defer func() { ret <- err }()
		k.w.c.Protect(func() { err = srv.Start() })
	}()
}

// halt stops the node, and reports if that takes long.
func (k *node) halt() bool {
	at := k.w.rec.now()
	back := make(chan struct{})
	go func() {
		defer close(back)
		k.w.c.Protect(func() {
			for n := 0; n < 100; n++ {
				err := k.srv.Stop()
				if err == nil || !strings.Contains(err.Error(), "not started") {
					return
				}
				time.Sleep(100 * time.Millisecond) // its listener is not there yet
			}
		})
	}()
	limit := time.After(2 * time.Minute)
	select {
	case <-back:
	case <-limit:
		k.w.c.Report("P11: Stop does not return", fmt.Sprintf("of node %d, called at %v\n%s", k.num, at, vk.Stacks()))
		return false
	}
	select {
	case <-k.ret:
	case <-limit:
		k.w.c.Report("P11: Start does not return", fmt.Sprintf("of node %d, stopped at %v\n%s", k.num, at, vk.Stacks()))
		return false
	}
	return true
}

func (k *node) complete() bool {
	for i := range k.w.pieces() {
		if !k.st.Torrent.HasPiece(i) {
			return false
		}
	}
	return true
}

// serveTracker runs the tracker of package pex on the network. It tells of no peers that
// the one that asks cannot reach.
func serveTracker(w *world, h http.Handler, ap netip.AddrPort, reach func(from, to int) bool) {
	w.n.host(ap, &host{quiet: true, accept: func(r *remote) {
		w.spawn(func() {
			defer r.Close()
			req, err := http.ReadRequest(bufio.NewReader(r))
			if err != nil {
				return
			}
			req.RemoteAddr = r.raddr.String()
			rw := httptest.NewRecorder()
			w.c.Protect(func() { h.ServeHTTP(rw, req) })
			if reach != nil {
				from, err := strconv.Atoi(req.URL.Query().Get("port"))
				v, _, err2 := vk.Bdecode(rw.Body.String())
				if d, ok := v.(map[string]any); ok && err == nil && err2 == nil {
					switch l := d["peers"].(type) {
					case string: // compact
						s := ""
						for ; len(l) >= 6; l = l[6:] {
							if reach(from, int(l[4])<<8|int(l[5])) {
								s += l[:6]
							}
						}
						d["peers"] = s
					case []any:
						s := []any{}
						for _, p := range l {
							if p, ok := p.(map[string]any); ok {
								if port, ok := p["port"].(int64); ok && reach(from, int(port)) {
									s = append(s, p)
								}
							}
						}
						d["peers"] = s
					}
					rw.Body.Reset()
					rw.Body.WriteString(vk.Bencode(d))
				}
			}
			res := rw.Result()
			res.Header.Set("Connection", "close")
			res.ContentLength = int64(rw.Body.Len())
			res.Write(r)
			w.lk.Lock()
			w.announces = append(w.announces, &announce{t: w.rec.now()})
			w.lk.Unlock()
		})
	}})
}

// outliving is bubble for what leaves a goroutine behind: the tracker of package pex does.
func outliving(c *vk.Case, f func()) {
	ended := false
	defer func() {
		if p := recover(); p != nil && !strings.Contains(fmt.Sprint(p), "deadlock") {
			panic(p)
		}
		if !ended && !c.Run.Failed() {
			c.Report("deadlock", "nothing can go on any more\n"+vk.Stacks())
		}
	}()
	synctest.Test(c.Run.T, func(*testing.T) {
		defer func() { ended = true }()
		c.Protect(f)
	})
}

// swarm has servers exchange a torrent. Those of a sparse one reach few of the others
// directly, so that pieces have to go through several of them.
func swarm(c *vk.Case, nodes, hostiles int, restarts float64, exchange, sparse bool) {
	sp, unspread := spread(c, 3)
	defer unspread()
	outliving(c, func() {
		ap := netip.MustParseAddrPort("198.51.100.200:6969")
		o := options{maxPieces: 12, large: exchange || c.IntN(6) == 0, layout: func(w *world) [][]string { return [][]string{{"http://" + ap.String() + "/announce"}} }}
		w := newWorld(c, o)
		defer w.drop()
		w.n.tap = nil
		w.shape()
		if o.large { // not as slow as windows of 4 KB
			room := 1 << (15 + c.IntN(3))
			w.n.capacity = func() int { return room }
		}
		h := pex.NewHTTP([]*metainfo.Info{w.info})
		var list []*node
		var reach func(from, to int) bool
		degree := 0
		if sparse {
			// Each with an earlier one, and now and then with another
			edges := map[[2]int]bool{}
			line, more := c.IntN(2) == 0, []float64{0, 0.2}[c.IntN(2)]
			for i := 1; i < nodes; i++ {
				j := i - 1
				if !line {
					j = c.IntN(i)
				}
				for k := range i {
					if k == j || c.Float64() < more {
						edges[[2]int{k, i}], edges[[2]int{i, k}] = true, true
					}
				}
			}
			reach = func(from, to int) bool { return edges[[2]int{from/100 - 20, to/100 - 20}] }
			degree = len(edges)
			if perm := c.Perm(nodes); c.IntN(2) == 0 { // they do not start in this order
				reach = func(from, to int) bool {
					from, to = from/100-20, to/100-20
					return from >= 0 && from < nodes && to >= 0 && to < nodes && edges[[2]int{perm[from], perm[to]}]
				}
			}
		}
		serveTracker(w, h, ap, reach)
		for i := range nodes {
			k := &node{w: w, num: i, dir: filepath.Join(w.dir, fmt.Sprint("n", i)), port: uint16(2000 + 100*i + c.IntN(100)), initial: map[int]bool{}, done: never}
			copy(k.id[:], "-DR0001-")
			for j := 8; j < 20; j++ {
				k.id[j] = byte(c.Uint32())
			}
			list = append(list, k)
		}
		p := []float64{0, 0, 0.3, 0.8}[c.IntN(4)]
		one := c.IntN(2) == 0 && !exchange
		for i := range w.pieces() {
			if one {
				list[0].initial[i] = true
			} else {
				list[c.IntN(nodes)].initial[i] = true
			}
			for _, k := range list {
				if c.Float64() < p {
					k.initial[i] = true
				}
			}
		}
		for _, k := range list {
			must(os.MkdirAll(filepath.Join(k.dir, "target"), 0o755))
			k.open()
			must(k.st.Load())
			for i := range w.pieces() {
				if !k.initial[i] {
					k.missing += int64(w.pieceLen(i))
					continue
				}
				for b := 0; b < w.pieceLen(i); b += blockLen {
					must(k.st.PutBlock(i, b, bytes.Clone(w.blockAt(i, b))))
				}
			}
		}
		w.port = list[0].port
		begin := w.rec.now()
		last := begin
		busy := nodes
		lk := newLock()
		failed := false
		for _, k := range list {
			wait := secs(c, 0, []int{0, 5, 60}[c.IntN(3)])
			var naps [][2]time.Duration
			for c.Float64() < restarts && len(naps) < 3 {
				naps = append(naps, [2]time.Duration{secs(c, 0, 40), []time.Duration{0, secs(c, 0, 30), secs(c, 30, 150)}[c.IntN(3)]})
			}
			renamed := c.IntN(4) == 0
			w.spawn(func() {
				time.Sleep(wait)
				k.live()
				for _, n := range naps {
					time.Sleep(n[0])
					if !k.halt() {
						failed = true
						break
					}
					time.Sleep(n[1])
					if renamed {
						for j := 8; j < 20; j++ {
							k.id[j] ^= 0x55
						}
					}
					k.live()
				}
				lk.Lock()
				busy--
				last = max(last, w.rec.now())
				lk.Unlock()
			})
		}
		for range hostiles {
			a := w.newAgent(hostile(c), all(w.pieces()))
			if c.IntN(2) == 0 {
				d := time.Second + secs(c, 0, 20)
				w.spawn(func() {
					if w.sleep(d) {
						a.connect()
					}
				})
				continue
			}
			a.listen()
			w.spawn(func() {
				for {
					q := url.Values{"info_hash": {string(w.info.SHA1[:])}, "peer_id": {string(a.id[:])}, "port": {fmt.Sprint(a.ap.Port())}, "uploaded": {"0"}, "downloaded": {"0"}, "left": {"0"}}
					req := httptest.NewRequest("GET", "http://tracker/announce?"+strings.ReplaceAll(q.Encode(), "+", "%20"), nil)
					req.RemoteAddr = a.ap.String()
					h.ServeHTTP(httptest.NewRecorder(), req)
					if !w.sleep(30 * time.Second) {
						return
					}
				}
			})
		}
		limit := 10 * time.Minute
		if hostiles > 0 {
			limit = 20 * time.Minute
		}
		if exchange {
			limit = 3 * time.Minute
		}
		if sparse && restarts == 0 {
			limit = 2 * time.Minute // sooner than an idle connection ends and is made anew
		}
		for {
			time.Sleep(time.Second)
			settle()
			lk.Lock()
			b, l := busy, last
			lk.Unlock()
			if failed {
				return
			}
			if b > 0 {
				continue
			}
			open := 0
			for _, k := range list {
				if k.done == never && k.complete() {
					k.done = w.rec.now()
				}
				if k.done == never {
					open++
				}
			}
			if open == 0 {
				break
			}
			for _, k := range list {
				select {
				case err := <-k.ret:
					c.Report("P11: a server ends", fmt.Sprintf("node %d of %d ended at %v, and nobody stopped it: %v", k.num, nodes, w.rec.now(), err))
					return
				default:
				}
			}
			if w.rec.now() > l+limit {
				s := ""
				for _, k := range list {
					s += fmt.Sprintf("node %d on port %d (%d lives): started with %v, has %v, left %d\n", k.num, k.port, len(k.lives), keys(k.initial), k.st.Torrent.CompletePieces().Items(), int64(len(w.content))-k.st.Downloaded())
				}
				c.Report("P11: the swarm does not complete", fmt.Sprintf("%d of %d servers are incomplete at %v, the last one having started at %v; %d hostile peers\n%s", open, nodes, w.rec.now(), l, hostiles, s))
				return
			}
		}
		worst := w.rec.now()
		time.Sleep(secs(c, 1, 10))
		settle()
		var up, down int64
		for _, k := range list {
			if !k.halt() {
				return
			}
			var d int64
			for _, s := range k.lives {
				up += s.Uploaded()
				d += s.Downloaded()
			}
			down += d
			if d < k.missing {
				c.Report("P11: counts less than it got", fmt.Sprintf("node %d counts %d bytes downloaded, and lacked %d", k.num, d, k.missing))
			}
			if got := k.st.Downloaded(); got != int64(len(w.content)) {
				c.Report("P11: counts other than it holds", fmt.Sprintf("node %d counts %d bytes verified of %d", k.num, got, len(w.content)))
			}
			keep := w.dir
			w.dir = k.dir
			w.onDisk("P11")
			w.dir = keep
			c.Evals(3)
		}
		if hostiles == 0 && up < down {
			c.Report("P11: more is counted as received than as sent", fmt.Sprintf("%d servers have sent %d bytes of blocks to each other, and got %d", nodes, up, down))
		}
		c.Evals(1)
		w.close()
		c.Count("servers", nodes)
		c.Count("sparse_edges", degree/2)
		lives := 0
		for _, k := range list {
			lives += len(k.lives)
		}
		c.Count("starts", lives)
		c.Count("announces", len(w.announces))
		c.Count("bytes_exchanged", int(down))
		c.Count("connections", len(w.n.conns))
		c.Count("yield_points", sp.Points())
		if sparse {
			c.Max(fmt.Sprintf("max_seconds_sparse_%v", restarts), int((worst - last).Seconds()))
		}
		c.Max(fmt.Sprintf("max_seconds_to_complete_%d_hostile", min(1, hostiles)), int((worst - last).Seconds()))
		c.Seen(nodes, up, down, int64(worst), len(w.n.conns))
		c.Sample("%d servers, %d starts, %d hostile peers, %d pieces of %d bytes: complete at %v, %d connections, %d announces, %d bytes sent", nodes, lives, hostiles, w.pieces(), w.info.PieceLength, worst, len(w.n.conns), len(w.announces), up)
	})
}

func TestP11(t *testing.T) {
	r := vk.Start(t, "P11", "distinct histories of swarms of servers that find each other through the tracker of package pex, each of which must end with all of them complete")
	r.Cases("swarm", r.N(150, 20000), func(c *vk.Case) { swarm(c, 2+c.IntN(5), 0, 0, false, false) })
	r.Cases("restarts", r.N(150, 20000), func(c *vk.Case) { swarm(c, 2+c.IntN(4), 0, 0.6, false, false) })
	r.Cases("hostile", r.N(60, 10000), func(c *vk.Case) { swarm(c, 2+c.IntN(4), 1+c.IntN(4), 0.2, false, false) })
	r.Cases("sparse", r.N(80, 10000), func(c *vk.Case) { swarm(c, 3+c.IntN(5), 0, []float64{0, 0.4}[c.IntN(2)], false, true) })
	r.Cases("exchange", r.N(30, 3000), func(c *vk.Case) { swarm(c, 2+c.IntN(2), 0, 0, true, false) })
}
