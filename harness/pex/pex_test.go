// Package pex monitors the tracker against a model of who is current.
package pex

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"net/url"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/pex"

	"verif/harness/steer"
	"verif/harness/vk"
)

// answer is what the tracker said: the peers by address with their ids ("" if the
// answer has none), or a failure.
type answer struct {
	fail     string
	compact  bool
	interval int64
	peers    map[string]string
	err      string // not a proper answer at all
}

func (a answer) String() string {
	if a.err != "" {
		return "broken: " + a.err
	}
	if a.fail != "" {
		return "failure " + strconv.Quote(a.fail)
	}
	var l []string
	for k, id := range a.peers {
		l = append(l, k+"="+strconv.Quote(id))
	}
	sort.Strings(l)
	return fmt.Sprintf("compact=%v %v", a.compact, l)
}

func read(code int, body string) (a answer) {
	v, rest, err := vk.Bdecode(body)
	if err != nil || rest != "" {
		a.err = fmt.Sprintf("status %d, body %q", code, body)
		return a
	}
	d, ok := v.(map[string]any)
	if !ok {
		a.err = fmt.Sprintf("status %d, body %q", code, body)
		return a
	}
	if f, ok := d["failure reason"]; ok {
		a.fail, _ = f.(string)
		if a.fail == "" {
			a.err = "failure without a reason: " + strconv.Quote(body)
		}
		return a
	}
	if code != 200 {
		a.err = fmt.Sprintf("status %d, body %q", code, body)
		return a
	}
	a.interval, _ = d["interval"].(int64)
	a.peers = map[string]string{}
	add := func(addr netip.Addr, port int64, id string) {
		if port < 1 || port > 65535 {
			a.err = fmt.Sprintf("peer with port %d in %q", port, body)
			return
		}
		k := netip.AddrPortFrom(addr.Unmap(), uint16(port)).String()
		if _, ok := a.peers[k]; ok {
			a.err = fmt.Sprintf("%s listed twice in %q", k, body)
		}
		a.peers[k] = id
	}
	switch p := d["peers"].(type) {
	case string:
		a.compact = true
		if len(p)%6 != 0 {
			a.err = fmt.Sprintf("compact peers of %d bytes", len(p))
			return a
		}
		for ; len(p) > 0; p = p[6:] {
			ip, _ := netip.AddrFromSlice([]byte(p[:4]))
			add(ip, int64(binary.BigEndian.Uint16([]byte(p[4:]))), "")
		}
	case []any:
		for _, x := range p {
			m, _ := x.(map[string]any)
			ip, ok1 := m["ip"].(string)
			port, ok2 := m["port"].(int64)
			id, ok3 := m["peer id"].(string)
			addr, err := netip.ParseAddr(ip)
			if !ok1 || !ok2 || !ok3 || err != nil {
				a.err = fmt.Sprintf("peer %v in %q", x, body)
				return a
			}
			add(addr, port, id)
		}
	default:
		a.err = fmt.Sprintf("no peers in %q", body)
	}
	return a
}

type announce struct {
	torrent int // -1: not served
	addr    string
	id      string
	event   string
	compact bool
	via     string // "remote": the address is where the request comes from
	bad     string // what is wrong with it
	query   string
	remote  string
}

func (x announce) String() string {
	s := fmt.Sprintf("announce(torrent %d, %s, id %q, event %q, compact %v, %s)", x.torrent, x.addr, x.id, x.event, x.compact, x.via)
	if x.bad != "" {
		s += " bad: " + x.bad
	}
	return s
}

type world struct {
	c     *vk.Case
	infos []*metainfo.Info
	addrs []netip.AddrPort
	ids   []string
}

func newWorld(c *vk.Case, torrents, addrs int) *world {
	w := &world{c: c}
	for range torrents {
		i := &metainfo.Info{Name: "t"}
		for k := range i.SHA1 {
			i.SHA1[k] = byte(c.Uint32())
		}
		w.infos = append(w.infos, i)
	}
	ips := []string{"10.0.0.1", "10.0.0.2", "1.2.3.4", "127.0.0.1", "255.255.255.254", "2001:db8::1", "fe80::2", "::1", "2001:db8:0:0:1::9", "10.0.1.0"}
	for len(w.addrs) < addrs {
		p := uint16(1 + c.IntN(65535))
		switch c.IntN(4) {
		case 0:
			p = []uint16{1, 80, 6881, 65535, 256}[c.IntN(5)]
		case 1:
			if len(w.addrs) > 0 {
				p = w.addrs[c.IntN(len(w.addrs))].Port()
			}
		}
		a := netip.AddrPortFrom(netip.MustParseAddr(ips[c.IntN(len(ips))]), p)
		dup := false
		for _, b := range w.addrs {
			dup = dup || a == b
		}
		if !dup {
			w.addrs = append(w.addrs, a)
		}
	}
	for range addrs + 2 {
		b := make([]byte, 20)
		for k := range b {
			b[k] = byte(c.Uint32())
		}
		w.ids = append(w.ids, string(b))
	}
	return w
}

func escape(c *rand.Rand, s string) string {
	r := ""
	style := c.IntN(3)
	for i := range len(s) {
		b := s[i]
		plain := 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' || '0' <= b && b <= '9' || strings.IndexByte("-_.~", b) >= 0
		switch {
		case plain && style != 0:
			r += string(b)
		case b == ' ' && style == 1:
			r += "+"
		case style == 2:
			r += fmt.Sprintf("%%%02x", b)
		default:
			r += fmt.Sprintf("%%%02X", b)
		}
	}
	return r
}

// spell writes an address in one of the ways it may arrive.
func spell(c *rand.Rand, ip netip.Addr) string {
	switch c.IntN(3) {
	case 0:
		if ip.Is6() {
			return ip.StringExpanded()
		}
		return "::ffff:" + ip.String()
	default:
		return ip.String()
	}
}

func (w *world) announce(c *rand.Rand, badOdds int) announce {
	ap := w.addrs[c.IntN(len(w.addrs))]
	x := announce{torrent: c.IntN(len(w.infos)), addr: ap.String(), id: w.ids[c.IntN(len(w.ids))], compact: c.IntN(2) == 0,
		event: []string{"", "", "started", "stopped", "completed", ""}[c.IntN(6)]}
	hash := string(w.infos[x.torrent].SHA1[:])
	port := strconv.Itoa(int(ap.Port()))
	other := w.addrs[c.IntN(len(w.addrs))].Addr()
	kv := map[string]string{"peer_id": x.id, "uploaded": strconv.Itoa(c.IntN(1000)), "downloaded": strconv.Itoa(c.IntN(1 << 40)), "left": strconv.Itoa(c.IntN(5)),
		"event": x.event, "compact": "0", "numwant": "", "key": "abc", "no_peer_id": ""}
	if x.compact {
		kv["compact"] = "1"
	}
	remote := ap.Addr()
	if c.IntN(2) == 0 {
		x.via, remote = "ip parameter", other
		kv["ip"] = spell(c, ap.Addr())
	} else {
		x.via = "remote"
	}
	if c.IntN(3) == 0 {
		for _, k := range []string{"numwant", "key", "no_peer_id", "uploaded", "downloaded", "left"} {
			if c.IntN(2) == 0 {
				delete(kv, k)
			}
		}
	}
	tail := ""
	if badOdds > 0 && c.IntN(badOdds) == 0 {
		switch c.IntN(9) {
		case 0:
			x.bad, hash = "unknown hash", strings.Repeat(string(byte('a'+c.IntN(26))), 20)
		case 1:
			x.bad, hash = "one bit off the hash", hash[:19]+string([]byte{hash[19] ^ 1<<c.IntN(8)})
			for _, i := range w.infos {
				if string(i.SHA1[:]) == hash {
					hash = strings.Repeat("\xff", 20)
				}
			}
		case 2:
			x.bad, hash = "hash of the wrong length", hash[:c.IntN(20)]
			if c.IntN(2) == 0 {
				hash += strings.Repeat("x", 21)
			}
		case 3:
			x.bad, port = "port", []string{"0", "-1", "65536", "99999999999999999999", "80x", "", "18446744073709551617", "4294967376"}[c.IntN(8)]
		case 4:
			x.bad = "address"
			kv["ip"] = []string{"300.1.2.3", "1.2.3", "::g", "!", "1.2.3.4:80", "[::1]", " ", "1.2.3.4.5"}[c.IntN(8)]
		case 5:
			x.bad, tail = "escape in the query", []string{"&x=%zz", "&%", "&a=%4"}[c.IntN(3)]
		case 6:
			x.bad, kv["peer_id"] = "peer id of the wrong length", x.id[:1+c.IntN(19)]
			if c.IntN(2) == 0 {
				kv["peer_id"] = x.id + "x"
			}
		case 7:
			x.bad, kv[[]string{"left", "uploaded", "downloaded"}[c.IntN(3)]] = "counter", []string{"x", "1.5", "0x10", "99999999999999999999"}[c.IntN(4)]
		case 8:
			x.bad, port = "port, on a stop", "0"
			kv["event"] = "stopped"
		}
	}
	kv["info_hash"], kv["port"] = hash, port
	var ks []string
	for k := range kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
	for _, k := range ks {
		x.query += "&" + k + "=" + escape(c, kv[k])
	}
	x.query = x.query[1:] + tail
	x.remote = netip.AddrPortFrom(remote, uint16(1024+c.IntN(50000))).String()
	return x
}

func send(h http.Handler, x announce) answer {
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, &http.Request{Method: "GET", URL: &url.URL{Scheme: "http", Host: "tracker", Path: "/announce", RawQuery: x.query},
		RequestURI: "/announce?" + x.query, Host: "tracker", Header: http.Header{}, RemoteAddr: x.remote, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1})
	return read(rec.Code, rec.Body.String())
}

// bubble runs f in virtual time. The tracker's own goroutine outlives it.
func bubble(c *vk.Case, f func()) {
	ended := false
	defer func() {
		if p := recover(); p != nil && !strings.Contains(fmt.Sprint(p), "deadlock") {
			panic(p)
		}
		if !ended && !c.Run.Failed() {
			c.Report("deadlock", "nothing can go on any more\n"+vk.Stacks())
		}
	}()
	synctest.Test(c.Run.T, func(*testing.T) {
		defer func() { ended = true }()
		c.Protect(f)
	})
}

// sendSoon is send with a limit in virtual time.
func sendSoon(c *vk.Case, h http.Handler, x announce) (a answer) {
	d := make(chan answer, 1)
	go func() {
		c.Protect(func() { a := send(h, x); d <- a })
	}()
	select {
	case a = <-d:
	case <-time.After(10 * time.Minute):
		c.Fail("stuck", "an announce was not answered in 10 minutes of virtual time\n%v\n%s", x, vk.Stacks())
	}
	return a
}

// compare judges an answer; free holds the addresses that may or may not be listed
// and ids the ids that an address may be listed with.
func compare(x announce, a answer, want map[string][]string, free map[string][]string) string {
	if x.bad != "" {
		if a.fail == "" {
			return "a bad announce was not answered with a failure"
		}
		return ""
	}
	if a.err != "" {
		return "not a proper answer: " + a.err
	}
	if a.fail != "" {
		return "a valid announce was refused: " + a.fail
	}
	if !x.compact && a.compact {
		return "a compact answer to one who did not ask for it"
	}
	if a.interval <= 0 || a.interval >= 60 {
		return fmt.Sprintf("asks for an interval of %d s, when peers expire after 60 s", a.interval)
	}
	ok := func(id string, ids []string) bool {
		if a.compact {
			return true
		}
		for _, i := range ids {
			if i == id {
				return true
			}
		}
		return false
	}
	for k, ids := range want {
		if a.compact && !netip.MustParseAddrPort(k).Addr().Is4() {
			continue
		}
		id, listed := a.peers[k]
		if !listed {
			return "a current peer is not listed: " + k
		}
		if !ok(id, ids) {
			return "a peer is listed with another id: " + k
		}
	}
	for k, id := range a.peers {
		if k == x.addr {
			return "the announcer itself is listed"
		}
		if _, w := want[k]; w {
			continue
		}
		ids, f := free[k]
		if !f {
			return "a peer is listed that is not current: " + k
		}
		if !ok(id, ids) {
			return "a peer is listed with another id: " + k
		}
	}
	return ""
}

func class(s string) string {
	s, _, _ = strings.Cut(s, ":")
	return strings.TrimSpace(strings.TrimRight(s, "0123456789"))
}

func TestX01(t *testing.T) {
	r := vk.Start(t, "X01", "distinct (announce kind, spelling, set of current, stopped and expired peers) combinations answered, compared with a model of who is current")
	r.Cases("model", r.N(3000, 150000), func(c *vk.Case) {
		w := newWorld(c, 1+c.IntN(3), 1+c.IntN(7))
		type reg struct {
			at    time.Time
			id    string
			event string
		}
		model := make([]map[string]reg, len(w.infos))
		for i := range model {
			model[i] = map[string]reg{}
		}
		var log []string
		bubble(c, func() {
			h := pex.NewHTTP(w.infos)
			t0 := time.Now()
			for range 20 + c.IntN(60) {
				switch c.IntN(5) {
				case 0:
					time.Sleep(time.Duration(c.IntN(60000)) * time.Millisecond)
				case 1:
					time.Sleep([]time.Duration{59 * time.Second, 59999 * time.Millisecond, 60001 * time.Millisecond, 30 * time.Second, time.Second, time.Minute - 1, time.Minute + 1, 2 * time.Minute, time.Hour}[c.IntN(9)])
				case 2:
					// about a full minute of the tracker's own clock
					now := time.Since(t0)
					next := now.Truncate(time.Minute) + time.Minute + time.Duration(c.IntN(2001)-1000)*time.Millisecond
					time.Sleep(max(0, next-now))
				}
				if c.IntN(3) == 0 {
					synctest.Wait()
				}
				x := w.announce(c.Rand, 5)
				now := time.Now()
				log = append(log, fmt.Sprintf("%v %v", now.Sub(t0), x))
				want, free := map[string][]string{}, map[string][]string{}
				stopped, expired := 0, 0
				for k, g := range model[x.torrent] {
					age := now.Sub(g.at)
					switch {
					case k == x.addr:
					case g.event == "stopped":
						stopped++
					case age > time.Minute:
						expired++
					case age == time.Minute:
						free[k] = []string{g.id}
					default:
						want[k] = []string{g.id}
					}
				}
				if x.bad == "" {
					model[x.torrent][x.addr] = reg{now, x.id, x.event}
				}
				a := sendSoon(c, h, x)
				log = append(log, "  "+a.String())
				if d := compare(x, a, want, free); d != "" {
					if len(log) > 60 {
						log = log[len(log)-60:]
					}
					c.Fail(class(d), "%s\n%v\nquery %s from %s\nanswer %v\nwanted %v (either way: %v)\nhistory:\n%s", d, x, x.query, x.remote, a, want, free, strings.Join(log, "\n"))
				}
				c.Evals(1)
				c.Count("answers", 1)
				c.Count("peers_listed", len(a.peers))
				if x.bad != "" {
					c.Count("refused", 1)
				}
				c.Count("stopped_left_out", stopped)
				c.Count("expired_left_out", expired)
				if x.bad == "" || stopped+expired+len(want) > 0 {
					c.Seen(x.bad, x.via, x.event, x.compact, len(want), stopped, expired, len(free), strings.Contains(x.addr, "["))
				}
			}
		})
		c.Sample("%d torrents, %d addresses: %s", len(w.infos), len(w.addrs), strings.Join(log[:min(6, len(log))], "; "))
	})
}

type span struct {
	id, event string
	call, ret time.Time
}

type input struct {
	announce
	call, ret time.Time
}

func TestX02(t *testing.T) {
	r := vk.Start(t, "X02", "distinct histories (order of all calls and returns with the answers) of concurrent announces, judged by a linearizability checker whose specification knows about expiry, under the race detector")
	model := porcupine.Model{
		Partition: func(ops []porcupine.Operation) [][]porcupine.Operation {
			by := map[int][]porcupine.Operation{}
			for _, o := range ops {
				k := o.Input.(input).torrent
				by[k] = append(by[k], o)
			}
			var res [][]porcupine.Operation
			for _, o := range by {
				res = append(res, o)
			}
			return res
		},
		Init: func() any { return map[string]span{} },
		Step: func(state, in, out any) (bool, any) {
			st, x, a := state.(map[string]span), in.(input), out.(answer)
			want, free := map[string][]string{}, map[string][]string{}
			for k, g := range st {
				if k == x.addr || g.event == "stopped" {
					continue
				}
				if x.ret.Sub(g.call) < time.Minute {
					want[k] = []string{g.id}
				} else if x.call.Sub(g.ret) <= time.Minute {
					free[k] = []string{g.id}
				}
			}
			if compare(x.announce, a, want, free) != "" {
				return false, st
			}
			if x.bad != "" {
				return true, st
			}
			next := make(map[string]span, len(st)+1)
			for k, v := range st {
				next[k] = v
			}
			next[x.addr] = span{x.id, x.event, x.call, x.ret}
			return true, next
		},
		Equal: func(a, b any) bool {
			x, y := a.(map[string]span), b.(map[string]span)
			if len(x) != len(y) {
				return false
			}
			for k, v := range x {
				if y[k] != v {
					return false
				}
			}
			return true
		},
		DescribeOperation: func(a, b any) string { return fmt.Sprintf("%v -> %v", a, b) },
	}
	run := func(c *vk.Case, delays bool) {
		w := newWorld(c, 1+c.IntN(2), 2+c.IntN(4))
		clients := 2 + c.IntN(4)
		sp := &steer.Sched{Seed: c.Uint64()}
		if delays {
			defer steer.Spread(sp)()
		}
		var mu sync.Mutex
		var ops []porcupine.Operation
		clock := int64(0)
		tick := func() (int64, time.Time) {
			mu.Lock()
			defer mu.Unlock()
			clock++
			return clock, time.Now()
		}
		stuck := ""
		bubble(c, func() {
			h := pex.NewHTTP(w.infos)
			t0 := time.Now()
			for range 1 + c.IntN(4) {
				done := make(chan struct{}, clients)
				// Rounds are near one another, or near the tracker's own minute
				switch c.IntN(3) {
				case 0:
					time.Sleep(time.Duration(c.IntN(70)) * time.Second)
				default:
					now := time.Since(t0)
					time.Sleep(now.Truncate(time.Minute) + time.Minute - now)
				}
				for k := range clients {
					rng := rand.New(rand.NewPCG(c.Uint64(), uint64(k)))
					go func() {
						defer func() { done <- struct{}{} }()
						c.Protect(func() {
							for range 1 + rng.IntN(4) {
								if delays {
									sp.Delay()
								}
								x := w.announce(rng, 12)
								n, at := tick()
								a := send(h, x)
								m, end := tick()
								mu.Lock()
								ops = append(ops, porcupine.Operation{ClientId: k, Input: input{x, at, end}, Call: n, Output: a, Return: m})
								mu.Unlock()
							}
						})
					}()
				}
				limit := time.After(10 * time.Minute)
				for range clients {
					select {
					case <-done:
					case <-limit:
						stuck = vk.Stacks()
						return
					}
				}
			}
			// One more, on its own: does everything that returned show?
			for range 2 {
				x := w.announce(c.Rand, 0)
				n, at := tick()
				d := make(chan answer, 1)
				go func() { c.Protect(func() { d <- send(h, x) }) }()
				select {
				case a := <-d:
					m, end := tick()
					ops = append(ops, porcupine.Operation{ClientId: clients, Input: input{x, at, end}, Call: n, Output: a, Return: m})
				case <-time.After(10 * time.Minute):
					stuck = vk.Stacks()
					return
				}
			}
		})
		if stuck != "" {
			c.Fail("stuck", "an announce was not answered in 10 minutes of virtual time\n%s", stuck)
		}
		if c.Run.Failed() {
			return
		}
		c.Count("announces", len(ops))
		c.Count("yield_points", int(sp.Points()))
		over := 0
		sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		key := ""
		for i, o := range ops {
			x, a := o.Input.(input), o.Output.(answer)
			if a.err != "" || x.bad == "" && a.fail != "" {
				c.Fail("not a proper answer", "%v\nquery %s\nanswer %v", x.announce, x.query, a)
			}
			for _, p := range ops[i+1:] {
				if p.Call < o.Return {
					over++
				}
			}
			key += fmt.Sprint(o.ClientId, o.Call, o.Return, x.event, len(a.peers), ";")
		}
		c.Count("overlapping_pairs", over)
		c.Seen(key)
		switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
		case porcupine.Illegal:
			s := ""
			for _, o := range ops {
				x := o.Input.(input)
				s += fmt.Sprintf("\n  client %d [%d,%d] %v %v -> %v", o.ClientId, o.Call, o.Return, x.call.Format("04:05.000"), x.announce, o.Output)
			}
			c.Fail("not linearizable", "no order of these announces explains the answers:%s", s)
		case porcupine.Unknown:
			c.Inconclusive("linearizability of %s:%d not decided in time", c.Group, c.Index)
		}
	}
	r.Cases("spread", r.N(1000, 50000), func(c *vk.Case) { run(c, true) })
	r.Cases("parallel", r.N(600, 30000), func(c *vk.Case) { run(c, false) })
}

// heap returns the bytes that are in use.
func heap() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

func TestX03(t *testing.T) {
	r := vk.Start(t, "X03", "distinct (kind of announces, format, torrents) of crowds that come once and never again, between which the memory in use is measured; non-trivial: crowds after the first two")
	kinds := []string{"silent", "stopped", "refused", "new ids", "mixed"}
	r.Cases("crowds", r.N(40, 400), func(c *vk.Case) {
		kind := kinds[c.Index%len(kinds)]
		n := 400 + c.IntN(800)
		// Few torrents, or many of which each crowd wants only one
		torrents, narrow := 1+c.IntN(3), false
		if c.IntN(3) == 0 {
			torrents, narrow = 4+c.IntN(20), true
		}
		w := newWorld(c, torrents, 2)
		gap := time.Duration(2+c.IntN(60)) * time.Minute
		if c.IntN(2) == 0 {
			gap = time.Duration(5+c.IntN(30)) * time.Second
		}
		next := uint32(0x0a000001)
		bubble(c, func() {
			h := pex.NewHTTP(w.infos)
			var base, most int
			var story []string
			const rounds = 12
			for round := range rounds {
				k := kind
				start := next
				wanted := c.IntN(len(w.infos))
				for i := range n {
					if kind == "mixed" {
						k = kinds[c.IntN(len(kinds)-1)]
					}
					next++
					addr := netip.AddrFrom4([4]byte{byte(next >> 24), byte(next >> 16), byte(next >> 8), byte(next)})
					if k == "new ids" {
						addr = netip.AddrFrom4([4]byte{10, 255, byte(i >> 8), byte(i)})
					}
					id := fmt.Sprintf("-DR%017d", next)
					if !narrow {
						wanted = c.IntN(len(w.infos))
					}
					q := url.Values{"info_hash": {string(w.infos[wanted].SHA1[:])}, "peer_id": {id}, "port": {"6881"}, "uploaded": {"0"}, "downloaded": {"0"}, "left": {"1"}}
					if c.IntN(2) == 0 {
						q.Set("compact", "1")
					}
					if k == "stopped" && i%3 != 0 {
						q.Set("event", "stopped")
					}
					if k == "refused" {
						switch c.IntN(3) {
						case 0:
							q.Set("info_hash", fmt.Sprintf("%020d", next))
						case 1:
							q.Set("port", "0")
						case 2:
							q.Set("ip", fmt.Sprint("x", next))
						}
					}
					// Most peers come when the others are gone: an answer lists all current ones
					x := announce{query: q.Encode(), remote: netip.AddrPortFrom(addr, 50000).String()}
					sendSoon(c, h, x)
					if i%16 == 15 {
						time.Sleep(time.Duration(10+c.IntN(50)) * time.Second)
					}
				}
				time.Sleep(2*time.Minute + gap)
				synctest.Wait()
				in := heap()
				story = append(story, fmt.Sprintf("after %d announces from %d addresses: %d bytes", (round+1)*n, next-start, in))
				c.Evals(1)
				c.Count("announces", n)
				if round < 2 {
					base = max(base, in)
				} else {
					c.Seen(kind, round, n, len(w.infos))
					most = max(most, in-base)
				}
				if round == rounds-1 {
					past := (rounds - 2) * n
					c.Max("max_bytes_kept", max(0, in-base))
					if in-base > past*10+64<<10 {
						c.Fail("memory grows with the past", "%s peers, none current: %d bytes in use more than after the first two crowds, for %d announces\n%s", kind, in-base, past, strings.Join(story, "\n"))
					}
				}
			}
		})
		c.Sample("%s: %d announces per crowd, %v apart", kind, n, gap)
	})
}
