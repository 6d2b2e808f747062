package p2p

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
	"time"
)

// plan is how a tracker behaves.
type plan struct {
	good     float64 // share of the announces that are answered
	interval int     // that it asks for
	silent   bool    // it cannot be reached at all, and nobody sees it being tried
	down     bool    // it refuses connections
	stuck    bool    // connections to it hang
}

// attempt is the server's turning to a tracker.
type attempt struct {
	t       time.Duration
	tracker int
	a       *announce // nil where the tracker did not get it
}

// watch has the network note attempts.
func (w *world) watch() {
	w.n.dials = func(addr string) {
		for _, t := range w.trackers {
			if t.ap.String() == addr {
				w.rec.lk.Lock()
				w.attempts = append(w.attempts, attempt{t: w.rec.now(), tracker: t.num})
				w.rec.lk.Unlock()
			}
		}
	}
}

// underway tells whether an announce is being made.
func (w *world) underway() bool {
	if len(w.attempts) == 0 {
		return false
	}
	at := w.attempts[len(w.attempts)-1]
	now := w.rec.now()
	if at.t < now-32*time.Second {
		return false
	}
	over := false
	for _, a := range w.announces {
		if a.tracker == at.tracker && a.began == at.t {
			over = a.ok && a.answered >= 0 && a.answered < now-time.Second
		}
	}
	return !over
}

// misbehave chooses one of the answers that are none.
func (t *trackerHost) misbehave(interval int) reply {
	c := t.w.agentRng
	good := answer(interval, nil, true)
	list := []reply{
		{name: "hangs", hang: true},
		{name: "hangs amid its answer", hangBody: true, body: good},
		{name: "hangs amid chunks", hangBody: true, body: good, chunked: true},
		{name: "cuts", cut: true},
		{name: "empty"},
		{name: "prose", body: "<html>Not Found</html>", status: 404},
		{name: "error", body: "oops", status: 500},
		{name: "fails", body: "d14:failure reason9:not todaye"},
		{name: "fails and more", body: "d14:failure reason9:not today8:intervali5e5:peers0:e"},
		{name: "cut short", body: good[:len(good)-1-c.IntN(len(good)-2)]},
		{name: "number", body: "i5e"},
		{name: "bare list", body: "l" + good + "e"},
		{name: "string", body: "4:spam"},
		{name: "nested", body: strings.Repeat("l", 200000)},
		{name: "nested dictionaries", body: strings.Repeat("d1:a", 100000)},
		{name: "long string", body: "d5:peers999999999999:"},
		{name: "peers of 7 bytes", body: fmt.Sprintf("d8:intervali%de5:peers7:abcdefge", interval)},
		{name: "peers number", body: fmt.Sprintf("d8:intervali%de5:peersi5ee", interval)},
		{name: "interval string", body: "d8:interval2:305:peers0:e"},
		{name: "interval too long", body: "d8:intervali99999999999999999999999e5:peers0:e"},
		{name: "no HTTP", raw: "hello there\r\n\r\n"},
		{name: "bad length", raw: "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nxxx"},
		{name: "header without end", raw: "HTTP/1.1 200 OK\r\nX: " + strings.Repeat("y", 1<<16)},
		{name: "bad chunks", raw: "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"},
		{name: "short body", raw: "HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n" + good},
		{name: "late", delay: 35 * time.Second, body: good},
		{name: "flood", body: strings.Repeat("x", 100), flood: 40 << 20},
		{name: "flood of a string", body: "d5:peers99999999:", flood: 40 << 20},
	}
	r := list[c.IntN(len(list))]
	t.w.c.Count("tracker: "+r.name, 1)
	return r
}

// behave chooses one of the proper answers.
func (t *trackerHost) behave(interval int, peers []*agentAddr) reply {
	c := t.w.agentRng
	list := []reply{
		{name: "compact", body: answer(interval, peers, true)},
		{name: "list", body: answer(interval, peers, false)},
		{name: "chunked", body: answer(interval, peers, c.IntN(2) == 0), chunked: true},
		{name: "slow", body: answer(interval, peers, c.IntN(2) == 0), delay: time.Duration(c.IntN(25000)) * time.Millisecond},
		{name: "more keys", body: fmt.Sprintf("d8:completei7e10:incompletei-3e8:intervali%de12:min intervali1e5:peers0:10:tracker id3:abc15:warning message4:hm e4:xtrald1:aleeee", interval)},
		{name: "no peers", body: fmt.Sprintf("d8:intervali%dee", interval)},
		{name: "warning", body: fmt.Sprintf("d8:intervali%de5:peersle14:warning reason3:hm e", interval)},
		{name: "odd peers", body: fmt.Sprintf("d8:intervali%de5:peers24:%s%s%s%se", interval, "\x00\x00\x00\x00\x00\x00", "\xff\xff\xff\xff\xff\xff", "\xe0\x00\x00\x01\x00\x50", "\x7f\x00\x00\x01\x00\x00")},
		{name: "odd list", body: fmt.Sprintf("d8:intervali%de5:peersld2:ip3:::14:porti6881eed2:ip7:no.host4:porti6881eed2:ip0:4:porti1eed2:ip9:192.0.2.94:porti99999eed2:ip9:192.0.2.94:porti-1eed2:ip15:255.255.255.2557:peer id20:aaaaaaaaaaaaaaaaaaaa4:porti1eeee", interval)},
		{name: "many peers", body: answer(interval, t.w.nobody(80), true)},
	}
	r := list[c.IntN(len(list))]
	t.w.c.Count("tracker: "+r.name, 1)
	r.ok = true
	return r
}

// nobody lists addresses at which there is nobody.
func (w *world) nobody(n int) (l []*agentAddr) {
	for range n {
		a := w.newAgent(style{}, nil)
		l = append(l, &agentAddr{ap: a.ap})
	}
	return l
}

// announces judges what the trackers were told, and in which order.
func (j *judge) announcesAre(plans map[int]*plan, interval time.Duration) {
	w := j.w
	bad := func(sig, format string, args ...any) {
		j.fail("P07", sig, []int{-1}, "%s\n%s", fmt.Sprintf(format, args...), w.trackerStory())
	}
	// Which attempt is which announce
	used := map[*announce]bool{}
	for i := range w.attempts {
		t := &w.attempts[i]
		for _, a := range w.announces {
			if a.tracker == t.tracker && a.began == t.t && !used[a] {
				used[a] = true
				t.a = a
				break
			}
		}
	}
	type tier struct {
		known   []int
		unknown []int
	}
	var tiers []*tier
	for _, l := range w.mi.AnnounceList {
		t := &tier{}
		for _, u := range l {
			for _, h := range w.trackers {
				if h.url == u {
					t.unknown = append(t.unknown, h.num)
				}
			}
		}
		tiers = append(tiers, t)
	}
	total := int64(len(w.content))
	calls := 0
	event := ""
	over := true // the last call is over
	ti, k := 0, 0
	var last time.Duration // when the last attempt began
	began, ended := time.Duration(0), time.Duration(0)
	started, stopped := false, false
	var firstOK time.Duration
	count := 0
	attempts := w.attempts
	for _, at := range attempts {
		if at.t > j.stop-time.Second && at.t < j.stop+time.Second && (at.a == nil || at.a.event != "stopped") {
			w.overlap = true
		}
	}
	if w.overlap {
		w.c.Count("stops_amid_an_announce", 1)
		// Two announces at once, which cannot be told apart
		attempts = nil
		for _, at := range w.attempts {
			if at.t < j.stop-100*time.Millisecond {
				attempts = append(attempts, at)
			}
		}
	}
	for n, at := range attempts {
		j.n++
		if over {
			calls++
			ti, k = 0, 0
			event = "?"
			over = false
			began = at.t
			switch {
			case calls == 1:
				if at.t > w.startAt+5*time.Second {
					bad("does not announce its start", "the first announce is made at %v, and the server was started at %v", at.t, w.startAt)
				}
			case at.t >= j.stop || !started:
			default:
				count++
				if at.t > ended+interval+5*time.Second {
					bad("announces too late", "an announce at %v, when the one before was over at %v and the interval is %v", at.t, ended, interval)
				}
				if most := int((at.t + tol - firstOK) / interval); count > most {
					bad("announces too often", "announce %d at %v, with an interval of %v since %v", count, at.t, interval, firstOK)
				}
			}
		} else if at.t > last+35*time.Second {
			bad("waits too long for a tracker", "the one tried at %v has failed, and the next is tried at %v", last, at.t)
		}
		last = at.t
		// Whose turn it is
		for ti < len(tiers) && k >= len(tiers[ti].known)+len(tiers[ti].unknown) {
			ti, k = ti+1, 0
		}
		if ti == len(tiers) {
			bad("tries a tracker twice", "tracker %d is tried at %v, after all have been tried since %v", at.tracker, at.t, began)
			return
		}
		t := tiers[ti]
		if k < len(t.known) {
			if t.known[k] != at.tracker {
				bad("not in order", "tracker %d is tried at %v, and it is the turn of %d in tier %d: %v", at.tracker, at.t, t.known[k], ti, t.known)
				return
			}
		} else if u := slices.Index(t.unknown, at.tracker); u < 0 {
			bad("not in order", "tracker %d is tried at %v, and it is the turn of tier %d: %v and one of %v", at.tracker, at.t, ti, t.known, t.unknown)
			return
		} else {
			t.known = append(t.known, at.tracker)
			t.unknown = slices.Delete(t.unknown, u, u+1)
		}
		k++
		ok := false
		end := at.t + 30*time.Second
		if p := plans[at.tracker]; p.down {
			end = at.t
		}
		if a := at.a; a != nil {
			w.c.Count("announces", 1)
			ok = a.ok
			if a.ok && a.answered >= 0 {
				end = min(end, a.answered)
			}
			if event == "?" {
				event = a.event
				switch {
				case stopped:
					bad("announces after it has stopped", "%q at %v", event, a.t)
				case calls == 1 && event != "started":
					bad("does not announce its start first", "the first announce, at %v, is %q", a.t, event)
				case calls > 1 && event == "started":
					bad("announces its start twice", "%q at %v", event, a.t)
				case event == "stopped" && at.t < j.stop && !w.failed:
					bad("announces its stop too early", "at %v", a.t)
				case event != "stopped" && calls > 1 && (at.t > j.stop+tol || w.failed):
					bad("announces after it has stopped", "%q at %v", event, a.t)
				case event != "stopped" && event != "started" && event != "" && event != "completed":
					bad("an unknown event", "%q at %v", event, a.t)
				}
				stopped = stopped || event == "stopped"
			} else if event != a.event {
				bad("one announce, two events", "%q to the one tracker at %v and %q to the next", event, a.t, a.event)
			}
			j.parameters(a, total, bad)
		}
		if ok {
			over = true
			if calls == 1 {
				started, firstOK = true, end
			}
			f := slices.Index(t.known, at.tracker)
			copy(t.known[1:f+1], t.known[:f])
			t.known[0] = at.tracker
			w.c.Count("announces_answered", 1)
			if f > 0 {
				w.c.Count("trackers_moved_to_the_front", 1)
			}
		} else {
			left := len(t.known) + len(t.unknown) - k
			for _, o := range tiers[ti+1:] {
				left += len(o.known) + len(o.unknown)
			}
			if left == 0 {
				over = true
				w.c.Count("announces_failed", 1)
			} else if n == len(w.attempts)-1 && !w.failed && j.end > end+35*time.Second {
				bad("does not try the next tracker", "tracker %d has failed by %v, and %d have not been tried", at.tracker, end, left)
			}
		}
		if over {
			ended = end
		}
	}
	silent := true
	for _, p := range plans {
		silent = silent && p.silent
	}
	if silent {
		return
	}
	if calls == 0 {
		bad("does not announce its start", "no tracker was tried")
		return
	}
	if started && over && !stopped && j.stop > ended+interval+5*time.Second {
		bad("announces too late", "none since %v, when the interval is %v", ended, interval)
	}
	unreached := true
	for _, p := range plans {
		unreached = unreached && (p.silent || p.down || p.stuck)
	}
	if !stopped && !unreached && !w.overlap {
		bad("does not announce its stop", "no tracker was told by %v", j.end)
	}
	w.c.Max("max_announce_calls", calls)
}

func (j *judge) parameters(a *announce, total int64, bad func(sig, format string, args ...any)) {
	w := j.w
	j.n++
	one := func(k, want string) {
		if v := a.q[k]; len(v) != 1 || v[0] != want {
			bad("a wrong parameter", "%s is %q in the announce at %v, and %q is right", k, v, a.t, want)
		}
	}
	one("info_hash", string(w.info.SHA1[:]))
	one("peer_id", string(w.id[:]))
	one("port", strconv.Itoa(int(w.port)))
	one("compact", "1")
	t := w.trackers[a.tracker]
	for k, v := range t.query {
		if !slices.Equal(a.q[k], v) {
			bad("the query of the URL is lost", "%s is %q in the announce at %v, and %q in %s", k, a.q[k], a.t, v, t.url)
		}
	}
	if a.path != t.path {
		bad("a wrong path", "%q at %v, for %s", a.path, a.t, t.url)
	}
	number := func(k string, lo, hi int64) {
		v, err := strconv.ParseInt(a.q.Get(k), 10, 64)
		if len(a.q[k]) != 1 || err != nil || v < lo || v > hi {
			bad("a wrong counter", "%s is %q in the announce of %v, and between %d and %d is right", k, a.q[k], a.t, lo, hi)
		}
	}
	sum := func(kind byte, by time.Duration) (n int64) {
		for _, e := range w.rec.log {
			if e.kind == kind && e.m.kind == mPiece && e.t <= by {
				n += int64(e.m.n)
			}
		}
		return n
	}
	before := a.began - 2*time.Second
	had := w.verified(w.initial)
	start := had
	for _, h := range w.held {
		if h.t < before {
			had = max(had, w.verified(h.have))
		}
	}
	number("uploaded", sum('s', before), sum('s', a.t))
	number("downloaded", had-start, sum('r', a.t))
	number("left", total-w.verified(a.held), total-had)
	if a.flooded > 32<<20 {
		bad("reads without end", "%d bytes of the tracker's answer at %v were read", a.flooded, a.t)
	}
}

func (w *world) trackerStory() string {
	s := fmt.Sprintf("announce list: %q, asked for the start at %v\n", w.mi.AnnounceList, w.startAt)
	for _, t := range w.trackers {
		s += fmt.Sprintf("tracker %d: %s\n", t.num, t.url)
	}
	for k, at := range w.attempts {
		if len(w.attempts) > 60 && k == 20 {
			s += "...\n"
		}
		if len(w.attempts) > 60 && k >= 20 && k < len(w.attempts)-40 {
			continue
		}
		s += fmt.Sprintf("%10.4fs tracker %d", at.t.Seconds(), at.tracker)
		if a := at.a; a != nil {
			s += fmt.Sprintf(": %q answered with %q (ok: %v) at %v: %s", a.event, a.reply, a.ok, a.answered, a.raw)
		}
		s += "\n"
	}
	return s
}
