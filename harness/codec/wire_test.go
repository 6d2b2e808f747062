package codec

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net/netip"
	"net/url"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"

	"github.com/browles/drip/api/magnet"
	"github.com/browles/drip/api/peer"
	"github.com/browles/drip/api/tracker"
	"github.com/browles/drip/bencode"
	"github.com/browles/drip/bitfield"
	"verif/harness/vk"
)

// --- tracker ---

func fill(r *rand.Rand, b []byte) {
	mode := r.IntN(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.IntN(256))
		case 1:
			b[i] = "&=%+ ;#?/\\\"'\x00\n\r\t"[r.IntN(16)]
		case 2:
			b[i] = byte(r.IntN(2)) * 255
		default:
			b[i] = byte('a' + r.IntN(26))
		}
	}
}

// escape is percent-encoding by the book.
func escape(r *rand.Rand, s string, loose bool) string {
	var sb strings.Builder
	for _, c := range []byte(s) {
		plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-_.~", c) >= 0
		if loose && strings.IndexByte(":/?@!$'()*,", c) >= 0 && r.IntN(2) == 0 {
			plain = true
		}
		if plain && (!loose || r.IntN(10) > 0) {
			sb.WriteByte(c)
		} else if r.IntN(2) == 0 {
			fmt.Fprintf(&sb, "%%%02x", c)
		} else {
			fmt.Fprintf(&sb, "%%%02X", c)
		}
	}
	return sb.String()
}

func TestT01(t *testing.T) {
	r := vk.Start(t, "T01", "random requests (binary hashes, all 64-bit counters) and responses (compact and dictionary peers, address and port limits) through encode and decode, against an independent query writer and reference parser; malformed variants must be refused; non-trivial: distinct messages")
	wideResponse(r)
	r.Cases("requests", r.N(60000, 1000000), func(c *vk.Case) {
		var q tracker.Request
		fill(c.Rand, q.InfoHash[:])
		fill(c.Rand, q.PeerID[:])
		q.Port = []int{0, 1, 80, 6881, 65535, int(GenInt(c.Rand))}[c.IntN(6)]
		q.Uploaded, q.Downloaded, q.Left = GenInt(c.Rand), GenInt(c.Rand), GenInt(c.Rand)
		q.Event = []string{"", "started", "stopped", "completed", genText(c, 10)}[c.IntN(5)]
		q.IP = []string{"", "1.2.3.4", "2001:db8::1", "host.example", genText(c, 20)}[c.IntN(5)]
		q.Compact = c.IntN(2) == 0
		enc := q.Encode()
		var got tracker.Request
		if err := got.Decode(enc); err != nil || got != q {
			c.Fail("request", "%+v encodes as %q and comes back as %+v, %v", q, enc, got, err)
		}
		// The query says what it must to anyone
		vals := map[string]string{}
		for _, kv := range strings.Split(enc, "&") {
			k, v, ok := strings.Cut(kv, "=")
			if !ok {
				c.Fail("query", "%q", enc)
			}
			u, err := url.QueryUnescape(v)
			if err != nil {
				c.Fail("query", "%q: %v", enc, err)
			}
			if _, dup := vals[k]; dup {
				c.Fail("query", "%q has %s twice", enc, k)
			}
			vals[k] = u
		}
		want := map[string]string{"info_hash": string(q.InfoHash[:]), "peer_id": string(q.PeerID[:]), "port": strconv.Itoa(q.Port),
			"uploaded": strconv.FormatInt(q.Uploaded, 10), "downloaded": strconv.FormatInt(q.Downloaded, 10), "left": strconv.FormatInt(q.Left, 10), "event": q.Event, "ip": q.IP}
		for k, w := range want {
			if vals[k] != w {
				c.Fail("query", "%q: %s is %q, want %q", enc, k, vals[k], w)
			}
		}
		if (vals["compact"] == "1") != q.Compact {
			c.Fail("query", "%q: compact, want %v", enc, q.Compact)
		}
		// A query of another client: any order, other escapes, unknown keys
		var parts []string
		for k, w := range want {
			if w != "" || c.IntN(2) == 0 {
				parts = append(parts, k+"="+escape(c.Rand, w, true))
			}
		}
		if q.Compact {
			parts = append(parts, "compact=1")
		} else if c.IntN(2) == 0 {
			parts = append(parts, "compact=0")
		}
		for _, k := range []string{"numwant=50", "key=%00%ff", "trackerid=x", "no_peer_id=1", "supportcrypto", "ipv6=::1", "INFO_HASH=x", "Port=7"} {
			if c.IntN(3) == 0 {
				parts = append(parts, k)
			}
		}
		sortShuffle(c.Rand, parts)
		foreign := strings.Join(parts, "&")
		var got2 tracker.Request
		if err := got2.Decode(foreign); err != nil || got2 != q {
			c.Fail("foreign-query", "%q decodes as %+v, %v; want %+v", foreign, got2, err, q)
		}
		c.Evals(2)
		c.Seen(enc)
		c.Sample("%s", enc)
	})
	r.Cases("malformed-queries", r.N(4000, 50000), func(c *vk.Case) {
		base := func(skip string) []string {
			var parts []string
			for k, v := range map[string]string{"info_hash": "aaaaaaaaaaaaaaaaaaaa", "peer_id": "bbbbbbbbbbbbbbbbbbbb", "port": "1", "uploaded": "1", "downloaded": "2", "left": "3", "event": "started"} {
				if k != skip {
					parts = append(parts, k+"="+v)
				}
			}
			return parts
		}
		k := []string{"port", "uploaded", "downloaded", "left", "info_hash", "peer_id"}[c.IntN(6)]
		v := []string{"x", "1x", "0x10", "1.5", "1e3", "%20", "99999999999999999999", "-99999999999999999999", "--1", "%zz", "%", "1%2", "9223372036854775808", "-9223372036854775809", "%00", "1_0", "١"}[c.IntN(17)]
		if k == "info_hash" || k == "peer_id" {
			v = []string{"short", strings.Repeat("a", 19), strings.Repeat("a", 21), strings.Repeat("%aa", 40), strings.Repeat("a", 18) + "%z0", strings.Repeat("a", 19) + "%"}[c.IntN(6)]
		}
		parts := append(base(k), k+"="+v)
		sortShuffle(c.Rand, parts)
		query := strings.Join(parts, "&")
		var got tracker.Request
		if err := got.Decode(query); err == nil {
			c.Fail("query-accepted", "%q decodes as %+v", query, got)
		}
		c.Seen(k, v)
	})
	genResp := func(c *vk.Case, compact bool) *tracker.Response {
		rs := &tracker.Response{Interval: int(GenInt(c.Rand))}
		if c.IntN(3) == 0 {
			rs.FailureReason, rs.WarningReason, rs.TrackerID = genText(c, 30), genText(c, 30), genText(c, 30)
			rs.MinInterval, rs.Complete, rs.Incomplete = int(GenInt(c.Rand)), int(GenInt(c.Rand)), int(GenInt(c.Rand))
		}
		if c.IntN(8) > 0 {
			rs.Peers = &tracker.Peers{Compact: compact}
			n := c.IntN(6)
			if c.IntN(20) == 0 {
				n = 50 + c.IntN(300)
			}
			for range n {
				rs.Peers.List = append(rs.Peers.List, genPeer(c, compact))
			}
		}
		return rs
	}
	same := func(a, b *tracker.Response) string {
		x, y := *a, *b
		x.Peers, y.Peers = nil, nil
		if x != y {
			return fmt.Sprintf("%+v and %+v", x, y)
		}
		if (a.Peers == nil) != (b.Peers == nil) {
			return "peers present in one only"
		}
		if a.Peers == nil {
			return ""
		}
		if a.Peers.Compact != b.Peers.Compact || len(a.Peers.List) != len(b.Peers.List) {
			return fmt.Sprintf("compact %v and %v, %d and %d peers", a.Peers.Compact, b.Peers.Compact, len(a.Peers.List), len(b.Peers.List))
		}
		for i := range a.Peers.List {
			p, q := *a.Peers.List[i], *b.Peers.List[i]
			if a.Peers.Compact {
				p.ID, q.ID = "", ""
			}
			if p != q {
				return fmt.Sprintf("peer %d: %+v and %+v", i, p, q)
			}
		}
		return ""
	}
	r.Cases("responses", r.N(40000, 600000), func(c *vk.Case) {
		rs := genResp(c, c.IntN(2) == 0)
		data, err := bencode.Marshal(rs)
		if err != nil {
			c.Fail("response-encode", "%+v: %v", rs, err)
		}
		var got tracker.Response
		if err := bencode.Unmarshal(data, &got); err != nil {
			c.Fail("response-decode", "%s: %v", clip(data), err)
		}
		if d := same(rs, &got); d != "" {
			c.Fail("response", "%s: %s", clip(data), d)
		}
		v, n, verdict := Parse(data)
		if verdict != Accept || n != len(data) {
			c.Fail("response-malformed", "%s", clip(data))
		}
		// What is on the wire
		if iv := v.Get("interval"); iv == nil || iv.I.Int64() != int64(rs.Interval) {
			c.Fail("response-wire", "%s: interval %d", clip(data), rs.Interval)
		}
		if rs.Peers != nil {
			pv := v.Get("peers")
			if pv == nil {
				c.Fail("response-wire", "%s: no peers", clip(data))
			}
			if rs.Peers.Compact {
				var w []byte
				for _, p := range rs.Peers.List {
					a := netip.MustParseAddr(p.IP).As4()
					w = append(append(w, a[:]...), byte(p.Port>>8), byte(p.Port))
				}
				if pv.K != 's' || pv.S != string(w) {
					c.Fail("response-wire", "compact peers %+q, want %+q", pv.S, w)
				}
			} else {
				if pv.K != 'l' || len(pv.L) != len(rs.Peers.List) {
					c.Fail("response-wire", "%s", clip(data))
				}
				for i, e := range pv.L {
					p := rs.Peers.List[i]
					if !bytes.Equal(e.Text(), VDict("peer id", VStr(p.ID), "ip", VStr(p.IP), "port", VInt(int64(p.Port))).Text()) {
						c.Fail("response-wire", "peer %+v is %s", p, clip(e.Text()))
					}
				}
			}
			c.Count("peers", len(rs.Peers.List))
		}
		c.Evals(1)
		c.SeenBytes(data)
		c.Sample("%s", clip(data))
	})
	r.Cases("unrepresentable", r.N(6000, 50000), func(c *vk.Case) {
		rs := &tracker.Response{Interval: 1, Peers: &tracker.Peers{Compact: true}}
		for range c.IntN(4) {
			rs.Peers.List = append(rs.Peers.List, genPeer(c, true))
		}
		p := genPeer(c, true)
		switch c.IntN(3) {
		case 0:
			p.Port = []int{-1, 65536, 65537, 1 << 20, 1 << 32, math.MinInt, math.MaxInt, 65536 + c.IntN(1<<30)}[c.IntN(8)]
		case 1:
			var b [16]byte
			fill(c.Rand, b[:])
			b[0] = 0x20
			p.IP = netip.AddrFrom16(b).String()
		default:
			p.IP = []string{"", "host", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::1", "1.2.3.4:80", " 1.2.3.4", "fe80::1%eth0"}[c.IntN(9)]
		}
		i := c.IntN(len(rs.Peers.List) + 1)
		rs.Peers.List = append(rs.Peers.List[:i:i], append([]*tracker.Peer{p}, rs.Peers.List[i:]...)...)
		if data, err := bencode.Marshal(rs); err == nil {
			c.Fail("unrepresentable", "a compact list with %+v encodes as %s", p, clip(data))
		}
		c.Seen(p.IP, p.Port)
	})
	r.Cases("foreign-responses", r.N(20000, 200000), func(c *vk.Case) {
		// A response of another tracker, with extra keys
		top := map[string]*Val{"interval": VInt(1800)}
		for range c.IntN(4) {
			k := []string{"external ip", "peers6", "downloaded", "", "zz", "flags"}[c.IntN(6)]
			top[k] = GenVal(c.Rand, 2, GenOpt{Big: true})
		}
		var want []tracker.Peer
		compact := c.IntN(2) == 0
		if compact {
			var w []byte
			for range c.IntN(5) {
				var b [6]byte
				fill(c.Rand, b[:])
				w = append(w, b[:]...)
				want = append(want, tracker.Peer{IP: fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3]), Port: int(b[4])<<8 | int(b[5])})
			}
			top["peers"] = VStr(string(w))
		} else {
			l := VList()
			for range c.IntN(5) {
				p := genPeer(c, false)
				d := map[string]*Val{"ip": VStr(p.IP), "port": VInt(int64(p.Port)), "peer id": VStr(p.ID)}
				if c.IntN(3) == 0 {
					delete(d, "peer id")
					p.ID = ""
				}
				if c.IntN(3) == 0 {
					d["extra"] = GenVal(c.Rand, 1, GenOpt{})
				}
				l.L = append(l.L, VMap(d))
				want = append(want, *p)
			}
			top["peers"] = l
		}
		data := VMap(top).Text()
		var got tracker.Response
		if err := bencode.Unmarshal(data, &got); err != nil {
			c.Fail("foreign-response", "%s: %v", clip(data), err)
		}
		if got.Peers == nil || got.Peers.Compact != compact || len(got.Peers.List) != len(want) || got.Interval != 1800 {
			c.Fail("foreign-response", "%s decodes as %+v", clip(data), got)
		}
		for i, p := range got.Peers.List {
			if *p != want[i] {
				c.Fail("foreign-response", "%s: peer %d is %+v, want %+v", clip(data), i, p, want[i])
			}
		}
		c.SeenBytes(data)
	})
	r.Cases("malformed-responses", r.N(6000, 50000), func(c *vk.Case) {
		bad := []*Val{VInt(1), VDict(), VList(VInt(1)), VList(VStr("x")), VList(VList()), VList(VDict()), VList(VDict("ip", VStr("1.2.3.4"))), VList(VDict("port", VInt(1))),
			VList(VDict("ip", VInt(1), "port", VInt(1))), VList(VDict("ip", VStr("1.2.3.4"), "port", VStr("1"))), VList(VDict("ip", VStr("1.2.3.4"), "port", VList())),
			VList(VDict("ip", VStr("1.2.3.4"), "port", VInt(1), "peer id", VInt(1))), VList(VDict("ip", VList(), "port", VInt(1))), VStr(strings.Repeat("x", 1+c.IntN(5)+6*c.IntN(4)))}
		i := c.IntN(len(bad))
		v := bad[i]
		if v.K == 'l' && c.IntN(2) == 0 {
			good := VDict("ip", VStr("1.2.3.4"), "port", VInt(1), "peer id", VStr("x"))
			v = VList(append([]*Val{good}, append(v.L, good)...)...)
		}
		data := VDict("interval", VInt(1), "peers", v).Text()
		var got tracker.Response
		if err := bencode.Unmarshal(data, &got); err == nil {
			c.Fail("response-accepted", "%s decodes as %+v with peers %+v", clip(data), got, got.Peers)
		}
		c.SeenBytes(data)
	})
	r.Cases("mutated", r.N(40000, 500000), func(c *vk.Case) {
		rs := genResp(c, c.IntN(2) == 0)
		data, err := bencode.Marshal(rs)
		if err != nil {
			c.Skip()
		}
		data = mutate(c.Rand, data)
		var got tracker.Response
		err = bencode.Unmarshal(data, &got) // must not panic
		if _, _, verdict := Parse(data); verdict == Reject && err == nil {
			c.Fail("response-accepted", "%s is malformed and decodes as %+v", clip(data), got)
		}
		q := string(mutate(c.Rand, []byte((&tracker.Request{Port: c.IntN(70000), Left: GenInt(c.Rand)}).Encode())))
		new(tracker.Request).Decode(q)
		c.SeenBytes(data)
	})
}

func sortShuffle(r *rand.Rand, parts []string) {
	// Maps iterate in an order of their own: sort first, to depend on the seed only
	for i := range parts {
		for j := i + 1; j < len(parts); j++ {
			if parts[j] < parts[i] {
				parts[i], parts[j] = parts[j], parts[i]
			}
		}
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
}

// --- peer wire ---

type wireMsg struct {
	typ                  int
	index, begin, length uint32
	data                 []byte
}

var u32s = []uint32{0, 1, 2, 255, 256, 16384, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1}

func genU32(r *rand.Rand) uint32 {
	if r.IntN(2) == 0 {
		return u32s[r.IntN(len(u32s))]
	}
	return r.Uint32() >> r.IntN(32)
}

func genWire(r *rand.Rand, big bool) *wireMsg {
	m := &wireMsg{typ: r.IntN(10) - 1}
	switch m.typ {
	case 4:
		m.index = genU32(r)
	case 5, 7:
		n := r.IntN(50)
		if big && r.IntN(10) == 0 {
			n = []int{16384, 16385, 65526, 65527, 65528, 65534, 65535, 65536, 65537, 131072, 200000}[r.IntN(11)]
		}
		m.data = make([]byte, n)
		fill(r, m.data)
		if m.typ == 7 {
			m.index, m.begin = genU32(r), genU32(r)
		}
	case 6, 8:
		m.index, m.begin, m.length = genU32(r), genU32(r), genU32(r)
	}
	return m
}

// bytes is BEP 3.
func (m *wireMsg) bytes() []byte {
	var p []byte
	if m.typ >= 0 {
		p = []byte{byte(m.typ)}
	}
	switch m.typ {
	case 4:
		p = binary.BigEndian.AppendUint32(p, m.index)
	case 5:
		p = append(p, m.data...)
	case 6, 8:
		p = binary.BigEndian.AppendUint32(p, m.index)
		p = binary.BigEndian.AppendUint32(p, m.begin)
		p = binary.BigEndian.AppendUint32(p, m.length)
	case 7:
		p = binary.BigEndian.AppendUint32(p, m.index)
		p = binary.BigEndian.AppendUint32(p, m.begin)
		p = append(p, m.data...)
	}
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(p))), p...)
}

func (m *wireMsg) message() *peer.Message {
	i, b, l := int(m.index), int(m.begin), int(m.length)
	switch m.typ {
	case -1:
		return peer.Keepalive()
	case 0:
		return peer.Choke()
	case 1:
		return peer.Unchoke()
	case 2:
		return peer.Interested()
	case 3:
		return peer.NotInterested()
	case 4:
		return peer.Have(i)
	case 5:
		return peer.Bitfield(bitfield.Bitfield(m.data))
	case 6:
		return peer.Request(i, b, l)
	case 7:
		return peer.Piece(i, b, m.data)
	case 8:
		return peer.Cancel(i, b, l)
	}
	panic("type")
}

func (m *wireMsg) check(got *peer.Message) string {
	if got == nil {
		return "nil message"
	}
	if int(got.Type) != m.typ {
		return fmt.Sprintf("type %d", int(got.Type))
	}
	ok := true
	switch m.typ {
	case 4:
		ok = got.Index() == int(m.index)
	case 5:
		ok = bytes.Equal(got.Bitfield(), m.data)
	case 6, 8:
		ok = got.Index() == int(m.index) && got.Begin() == int(m.begin) && got.Length() == int(m.length)
	case 7:
		ok = got.Index() == int(m.index) && got.Begin() == int(m.begin) && bytes.Equal(got.Piece(), m.data)
	}
	if !ok {
		s := fmt.Sprintf("%+v", got)
		return s[:min(len(s), 300)]
	}
	return ""
}

func (m *wireMsg) String() string {
	return fmt.Sprintf("type=%d index=%d begin=%d length=%d data=%d bytes", m.typ, m.index, m.begin, m.length, len(m.data))
}

func refHandshake(ih, id [20]byte, reserved [8]byte) []byte {
	b := append([]byte{19}, "BitTorrent protocol"...)
	b = append(b, reserved[:]...)
	b = append(b, ih[:]...)
	return append(b, id[:]...)
}

func TestW01(t *testing.T) {
	r := vk.Start(t, "W01", "all message types with boundary and random 32-bit fields and payloads up to 200 kB, and handshakes: bytes compared with an independent BEP 3 writer, decoded back singly and in streams split at random; non-trivial: distinct messages")
	r.Cases("messages", r.N(120000, 2000000), func(c *vk.Case) {
		m := genWire(c.Rand, true)
		want := m.bytes()
		msg := m.message()
		if d := m.check(msg); d != "" {
			c.Fail("constructor", "%v: %s", m, d)
		}
		got, err := msg.MarshalBinary()
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("wire", "%v: %v %s, want %s", m, err, clip(got), clip(want))
		}
		var b bytes.Buffer
		if err := peer.Write(&b, msg); err != nil || !bytes.Equal(b.Bytes(), want) {
			c.Fail("wire", "%v: Write gives %v %s, want %s", m, err, clip(b.Bytes()), clip(want))
		}
		// What was encoded is the caller's
		if other, err := peer.Cancel(-1, -1, -1).MarshalBinary(); err != nil || !bytes.Equal(got, want) {
			c.Fail("wire-later", "%v: after %s was encoded: %s, want %s", m, clip(other), clip(got), clip(want))
		}
		var back peer.Message
		if err := back.UnmarshalBinary(bytes.Clone(want)); err != nil {
			c.Fail("decode-error", "%v: %v", m, err)
		}
		if d := m.check(&back); d != "" {
			c.Fail("decode", "%v: %s", m, d)
		}
		c.Evals(2)
		c.SeenBytes(want)
		c.Sample("%v -> %s", m, clip(want))
	})
	r.Cases("handshakes", r.N(10000, 200000), func(c *vk.Case) {
		var h peer.Handshake
		fill(c.Rand, h.InfoHash[:])
		fill(c.Rand, h.PeerID[:])
		want := refHandshake(h.InfoHash, h.PeerID, [8]byte{})
		got, err := h.MarshalBinary()
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("handshake", "%v %s, want %s", err, clip(got), clip(want))
		}
		var res [8]byte
		fill(c.Rand, res[:])
		rd, how := GenReader(c.Rand, append(refHandshake(h.InfoHash, h.PeerID, res), 0, 0, 0, 1, 2), io.EOF)
		back, err := peer.ReadHandshake(rd)
		if err != nil || *back != h {
			c.Fail("handshake-decode", "%s: %+v, %v (%s)", clip(want), back, err, how)
		}
		next, err := peer.ReadMessage(rd)
		if err != nil || next.Type != peer.INTERESTED {
			c.Fail("handshake-length", "the message after the handshake: %v (%s)", err, how)
		}
		c.Evals(1)
		c.SeenBytes(want)
	})
	r.Cases("streams", r.N(10000, 200000), func(c *vk.Case) {
		var all []byte
		var ms []*wireMsg
		var b bytes.Buffer
		for range 1 + c.IntN(12) {
			m := genWire(c.Rand, c.IntN(20) == 0)
			ms = append(ms, m)
			all = append(all, m.bytes()...)
			if err := peer.Write(&b, m.message()); err != nil {
				c.Fail("write", "%v: %v", m, err)
			}
		}
		if !bytes.Equal(b.Bytes(), all) {
			c.Fail("stream-wire", "%s, want %s", clip(b.Bytes()), clip(all))
		}
		rd, how := GenReader(c.Rand, all, io.EOF)
		var kept []*peer.Message
		for i, m := range ms {
			got, err := peer.ReadMessage(rd)
			if err != nil {
				c.Fail("stream", "message %d, %v: %v (%s)", i, m, err, how)
			}
			if d := m.check(got); d != "" {
				c.Fail("stream", "message %d, %v: %s (%s)", i, m, d, how)
			}
			kept = append(kept, got)
		}
		// Messages own their data
		for i, m := range ms {
			if d := m.check(kept[i]); d != "" {
				c.Fail("stream-later", "message %d, %v, after later reads: %s (%s)", i, m, d, how)
			}
		}
		if m, err := peer.ReadMessage(rd); err == nil {
			c.Fail("stream-end", "after the end: %+v", m)
		}
		c.Seen(how, len(ms), len(all), ms[0].String())
		c.Count("stream_messages", len(ms))
	})
	r.Cases("write-error", r.N(2000, 20000), func(c *vk.Case) {
		m := genWire(c.Rand, false)
		want := m.bytes()
		for n := range len(want) {
			w := &failWriter{n: n, err: errInjected}
			if err := peer.Write(w, m.message()); !errors.Is(err, errInjected) {
				c.Fail("write-error-hidden", "%v: writer failing after %d bytes: %v", m, n, err)
			}
			c.Evals(1)
		}
		c.SeenBytes(want)
	})
}

var minPayloads = map[int]int{4: 4, 6: 12, 7: 8, 8: 12}

func TestW02(t *testing.T) {
	debug.SetMaxStack(256 << 20)
	r := vk.Start(t, "W02", "hostile streams: every type with every short length, all 256 types, claimed lengths up to 4 GiB, cuts and read errors at every byte, mutated handshakes, random bytes; decoded against a reference reader with allocation measured; non-trivial: distinct streams")
	mem := func(c *vk.Case, n int, f func()) {
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		f()
		runtime.ReadMemStats(&after)
		alloc := int(after.TotalAlloc - before.TotalAlloc)
		c.Max("max_alloc", alloc)
		if alloc > 4<<20+16*n {
			c.Fail("memory", "%d bytes allocated for a stream of %d bytes", alloc, n)
		}
	}
	// readAll decodes until an error, comparing with the reference reader.
	readAll := func(c *vk.Case, data []byte, rd io.Reader, how string) {
		pos := 0
		for k := 0; ; k++ {
			got, err := peer.ReadMessage(rd)
			// the reference
			if len(data)-pos < 4 {
				if err == nil {
					c.Fail("cut-accepted", "message %d of %s (%s): %+v", k, clip(data), how, got)
				}
				return
			}
			l := int(binary.BigEndian.Uint32(data[pos:]))
			if len(data)-pos-4 < l {
				if err == nil {
					c.Fail("cut-accepted", "message %d of %s (%s): %+v", k, clip(data), how, got)
				}
				return
			}
			p := data[pos+4 : pos+4+l]
			pos += 4 + l
			if l == 0 {
				if err != nil || got.Type != peer.KEEPALIVE {
					c.Fail("keepalive", "message %d of %s (%s): %v", k, clip(data), how, err)
				}
				continue
			}
			typ := int(p[0])
			if len(p)-1 < minPayloads[typ] {
				if err == nil {
					c.Fail("short-accepted", "message %d (type %d, %d bytes) of %s (%s): %+v", k, typ, len(p), clip(data), how, got)
				}
				return
			}
			if typ <= 3 && len(p) > 1 || (typ == 4 && len(p) > 5) || (typ == 6 || typ == 8) && len(p) > 13 {
				if err != nil {
					return // longer than the type needs: may be refused
				}
				if int(got.Type) != typ {
					c.Fail("type", "message %d of %s (%s): %+v", k, clip(data), how, got)
				}
				continue
			}
			if err != nil {
				c.Fail("refused", "message %d (type %d, %d bytes) of %s (%s): %v", k, typ, len(p), clip(data), how, err)
			}
			if int(got.Type) != typ {
				c.Fail("type", "message %d of %s (%s): %+v", k, clip(data), how, got)
			}
			if typ > 8 {
				c.Count("unknown_types_skipped", 1)
				continue
			}
			m := &wireMsg{typ: typ}
			switch typ {
			case 4:
				m.index = binary.BigEndian.Uint32(p[1:])
			case 5:
				m.data = p[1:]
			case 6, 8:
				m.index, m.begin, m.length = binary.BigEndian.Uint32(p[1:]), binary.BigEndian.Uint32(p[5:]), binary.BigEndian.Uint32(p[9:])
			case 7:
				m.index, m.begin, m.data = binary.BigEndian.Uint32(p[1:]), binary.BigEndian.Uint32(p[5:]), p[9:]
			}
			if d := m.check(got); d != "" {
				c.Fail("value", "message %d of %s (%s): %s", k, clip(data), how, d)
			}
			c.Evals(1)
		}
	}
	r.Cases("lengths", 256, func(c *vk.Case) {
		for l := 1; l <= 40; l++ {
			data := binary.BigEndian.AppendUint32(nil, uint32(l))
			data = append(data, byte(c.Index))
			for range l - 1 {
				data = append(data, byte(c.Uint32()))
			}
			data = append(data, (&wireMsg{typ: 4, index: 77}).bytes()...)
			rd, how := GenReader(c.Rand, bytes.Clone(data), io.EOF)
			readAll(c, data, rd, how)
			c.SeenBytes(data)
		}
	})
	r.Cases("cuts", r.N(4000, 40000), func(c *vk.Case) {
		m := genWire(c.Rand, false)
		data := m.bytes()
		if c.IntN(4) == 0 { // an unknown type
			data = append([]byte{0, 0, 0, 9, byte(9 + c.IntN(247))}, "12345678"...)
		}
		for n := range len(data) {
			for _, e := range []error{io.EOF, errInjected} {
				rd, how := GenReader(c.Rand, bytes.Clone(data[:n]), e)
				if got, err := peer.ReadMessage(rd); err == nil {
					c.Fail("cut-accepted", "%v cut to %d bytes (%s, %v): %+v", m, n, how, e, got)
				}
				var u peer.Message
				if e == io.EOF && u.UnmarshalBinary(data[:n]) == nil {
					c.Fail("cut-accepted", "%v cut to %d bytes: UnmarshalBinary succeeds", m, n)
				}
				c.Evals(1)
			}
		}
		c.Count("cut_positions", len(data))
		c.SeenBytes(data)
	})
	r.Cases("claims", r.N(300, 3000), func(c *vk.Case) {
		l := []uint32{1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 17, 1 << 20, 1 << 24, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<16 + c.Uint32()>>1}[c.Index%12]
		body := make([]byte, []int{0, 1, 10, 1000, 70000}[c.IntN(5)])
		if len(body) > 0 {
			body[0] = byte(c.IntN(12))
		}
		if len(body) >= int(l) {
			c.Skip()
		}
		data := append(binary.BigEndian.AppendUint32(nil, l), body...)
		mem(c, len(data), func() {
			rd, how := GenReader(c.Rand, data, []error{io.EOF, errInjected}[c.IntN(2)])
			if got, err := peer.ReadMessage(rd); err == nil {
				c.Fail("cut-accepted", "a message of %d bytes, %d of them present (%s): %+v", l, len(body), how, got.Type)
			}
		})
		c.Seen(l, len(body))
		c.Max("max_claim", int(l))
	})
	r.Cases("random", r.N(60000, 1000000), func(c *vk.Case) {
		var data []byte
		for range c.IntN(6) {
			switch c.IntN(4) {
			case 0:
				data = append(data, GenBytes(c.Rand, 30)...)
			case 1:
				b := make([]byte, c.IntN(20))
				fill(c.Rand, b)
				data = append(append(data, 0, 0, 0, byte(c.IntN(24)), byte(c.IntN(14))), b...)
			case 2:
				data = append(data, mutate(c.Rand, genWire(c.Rand, false).bytes())...)
			default:
				data = append(data, genWire(c.Rand, false).bytes()...)
			}
		}
		rd, how := GenReader(c.Rand, bytes.Clone(data), []error{io.EOF, errInjected}[c.IntN(2)])
		readAll(c, data, rd, how)
		c.SeenBytes(data)
		c.Sample("%s", clip(data))
	})
	r.Cases("handshakes", r.N(20000, 300000), func(c *vk.Case) {
		var ih, id [20]byte
		var res [8]byte
		fill(c.Rand, ih[:])
		fill(c.Rand, id[:])
		fill(c.Rand, res[:])
		data := refHandshake(ih, id, res)
		switch c.IntN(5) {
		case 0:
			data[0] = byte(c.IntN(256))
		case 1:
			data[1+c.IntN(19)] ^= byte(1 << c.IntN(8))
		case 2:
			data = data[:c.IntN(len(data))]
		case 3:
			data = GenBytes(c.Rand, 100)
		case 4:
			data = append(append([]byte{byte(c.IntN(19))}, "BitTorrent protocol"...), data[20:]...)
		}
		valid := len(data) >= 68 && data[0] == 19 && string(data[1:20]) == "BitTorrent protocol"
		rd, how := GenReader(c.Rand, bytes.Clone(data), []error{io.EOF, errInjected}[c.IntN(2)])
		h, err := peer.ReadHandshake(rd)
		if valid != (err == nil) {
			c.Fail("handshake", "%s (%s): %+v, %v", clip(data), how, h, err)
		}
		if valid && (string(h.InfoHash[:]) != string(data[28:48]) || string(h.PeerID[:]) != string(data[48:68])) {
			c.Fail("handshake-value", "%s (%s): %+v", clip(data), how, h)
		}
		c.SeenBytes(data)
	})
	r.Cases("handshake-cuts", 68, func(c *vk.Case) {
		data := refHandshake([20]byte{1}, [20]byte{2}, [8]byte{})
		for _, e := range []error{io.EOF, errInjected} {
			for range 6 {
				rd, how := GenReader(c.Rand, bytes.Clone(data[:c.Index]), e)
				if h, err := peer.ReadHandshake(rd); err == nil {
					c.Fail("handshake-cut", "cut to %d bytes (%s): %+v", c.Index, how, h)
				}
				c.Evals(1)
			}
		}
		c.Seen(c.Index)
	})
}

func TestF01(t *testing.T) {
	r := vk.Start(t, "F01", "bitfields of every size up to a bound and random large ones, driven by random adds and compared with a set: membership at every index in and out of range, enumeration, difference with fields of other lengths, operands unchanged, wire bytes; non-trivial: distinct fields")
	check := func(c *vk.Case, b bitfield.Bitfield, set map[int]bool, what string) {
		for i := -20; i < 8*len(b)+40; i++ {
			if b.Has(i) != set[i] {
				c.Fail("has", "%s %08b: Has(%d) is %v", what, []byte(b), i, b.Has(i))
			}
		}
		for _, i := range []int{math.MinInt, math.MaxInt, math.MinInt32, math.MaxInt32, math.MaxUint32, -8, -7, -1} {
			if b.Has(i) {
				c.Fail("has", "%s %08b: Has(%d)", what, []byte(b), i)
			}
		}
		items := b.Items()
		if len(items) != len(set) {
			c.Fail("items", "%s %08b: %v, want %d", what, []byte(b), items, len(set))
		}
		for k, i := range items {
			if !set[i] || k > 0 && items[k-1] >= i {
				c.Fail("items", "%s %08b: %v", what, []byte(b), items)
			}
		}
		for k, by := range b {
			var w byte
			for j := range 8 {
				if set[8*k+j] {
					w |= 0x80 >> j
				}
			}
			if by != w {
				c.Fail("bytes", "%s: byte %d is %08b, want %08b", what, k, by, w)
			}
		}
		c.Evals(1)
	}
	gen := func(c *vk.Case, n int) (bitfield.Bitfield, map[int]bool) {
		b := bitfield.New(n)
		set := map[int]bool{}
		if len(b) < (n+7)/8 {
			c.Fail("size", "New(%d) has %d bytes", n, len(b))
		}
		if len(b) != (n+7)/8 {
			c.Fail("size", "New(%d) has %d bytes", n, len(b))
		}
		mode := c.IntN(4)
		for range c.IntN(2*n + 1) {
			if mode == 0 {
				break
			}
			i := c.IntN(n)
			b.Add(i)
			set[i] = true
		}
		if mode == 3 {
			for i := range n {
				b.Add(i)
				set[i] = true
			}
		}
		return b, set
	}
	r.Cases("sizes", 300, func(c *vk.Case) {
		b, set := gen(c, c.Index)
		check(c, b, set, "")
		for i := range c.Index {
			d := bitfield.New(c.Index)
			d.Add(i)
			d.Add(i)
			check(c, d, map[int]bool{i: true}, "one bit")
		}
		c.Seen("size", c.Index)
	})
	r.Cases("difference", r.N(60000, 1000000), func(c *vk.Case) {
		n := c.IntN(70)
		k := n
		if c.IntN(2) == 0 {
			k = c.IntN(70)
		}
		a, sa := gen(c, n)
		b, sb := gen(c, k)
		d := a.Difference(b)
		want := map[int]bool{}
		for i := range sa {
			if !sb[i] {
				want[i] = true
			}
		}
		if len(d) < len(a) {
			d2 := make(bitfield.Bitfield, len(a))
			copy(d2, d)
			d = d2
		}
		check(c, d, want, "difference")
		check(c, a, sa, "left operand")
		check(c, b, sb, "right operand")
		// The result is a field of its own
		for i := range d {
			d[i] ^= 0xff
		}
		check(c, a, sa, "left operand after changing the result")
		check(c, b, sb, "right operand after changing the result")
		if x := bitfield.Bitfield(nil).Difference(a); len(x.Items()) != 0 {
			c.Fail("nil", "nil minus %08b is %08b", []byte(a), []byte(x))
		}
		check(c, a.Difference(nil), sa, "difference with nil")
		c.Seen(n, k, string(a), string(b))
		c.Sample("%08b - %08b", []byte(a), []byte(b))
	})
	r.Cases("large", r.N(60, 500), func(c *vk.Case) {
		b, set := gen(c, 1000+c.IntN(20000))
		check(c, b, set, "large")
		c.Seen(string(b))
	})
}

func TestG01(t *testing.T) {
	r := vk.Start(t, "G01", "generated magnet links: any subset and order of parameters, several trackers and peers, unknown parameters, binary text percent-encoded with either case and any optional escape; lengths that are not decimal integers and unparsable links must be refused; non-trivial: distinct links")
	gen := func(c *vk.Case) (parts []string, m magnet.Magnet) {
		one := func(k, v string) {
			parts = append(parts, k+"="+escape(c.Rand, v, true))
		}
		if c.IntN(10) > 0 {
			m.ExactTopic = "urn:btih:" + fmt.Sprintf("%040x", c.Uint64())
			if c.IntN(4) == 0 {
				m.ExactTopic = genText(c, 30)
			}
			one("xt", m.ExactTopic)
		}
		if c.IntN(3) > 0 {
			m.Name = genText(c, 40)
			one("dn", m.Name)
		}
		if c.IntN(3) > 0 {
			m.Length = int(GenInt(c.Rand))
			one("xl", strconv.Itoa(m.Length))
		}
		if c.IntN(3) > 0 {
			m.WebSeed = "http://seed.example/" + genText(c, 20)
			one("ws", m.WebSeed)
		}
		for range c.IntN(5) {
			s := []string{"http://t.example/announce?a=b&c=d", "udp://t:1", "", genText(c, 30)}[c.IntN(4)] + strconv.Itoa(c.IntN(10))
			m.Trackers = append(m.Trackers, s)
			one("tr", s)
		}
		for range c.IntN(4) {
			s := []string{"1.2.3.4:5", "[::1]:6881", "host:1", genText(c, 10)}[c.IntN(4)]
			m.Peers = append(m.Peers, s)
			one("x.pe", s)
		}
		for range c.IntN(3) {
			one([]string{"as", "kt", "mt", "so", "x.foo", "XT", "Dn", "tr.1", "xs", "trx", "xpe"}[c.IntN(11)], genText(c, 10))
		}
		// Shuffle while keeping the order within trackers and peers
		perm := c.Perm(len(parts))
		var slots [2][]int
		var out = make([]string, len(parts))
		kind := func(p string) int {
			if strings.HasPrefix(p, "tr=") {
				return 0
			}
			if strings.HasPrefix(p, "x.pe=") {
				return 1
			}
			return 2
		}
		for i, p := range parts {
			if k := kind(p); k < 2 {
				slots[k] = append(slots[k], perm[i])
			} else {
				out[perm[i]] = p
			}
		}
		next := [2]int{}
		for k := range slots {
			s := slots[k]
			for i := range s {
				for j := i + 1; j < len(s); j++ {
					if s[j] < s[i] {
						s[i], s[j] = s[j], s[i]
					}
				}
			}
		}
		for _, p := range parts {
			if k := kind(p); k < 2 {
				out[slots[k][next[k]]] = p
				next[k]++
			}
		}
		return out, m
	}
	r.Cases("links", r.N(100000, 2000000), func(c *vk.Case) {
		parts, want := gen(c)
		link := "magnet:?" + strings.Join(parts, "&")
		got, err := magnet.ParseMagnetURL(link)
		if err != nil {
			c.Fail("refused", "%q: %v", link, err)
		}
		if got.ExactTopic != want.ExactTopic || got.Name != want.Name || got.Length != want.Length || got.WebSeed != want.WebSeed ||
			fmt.Sprintf("%q", got.Trackers) != fmt.Sprintf("%q", want.Trackers) || fmt.Sprintf("%q", got.Peers) != fmt.Sprintf("%q", want.Peers) {
			c.Fail("value", "%q\n got %#v\nwant %#v", link, *got, want)
		}
		c.Seen(link)
		c.Count("trackers", len(want.Trackers))
		c.Sample("%s", link)
	})
	r.Cases("lengths", r.N(5000, 50000), func(c *vk.Case) {
		parts, _ := gen(c)
		var kept []string
		for _, p := range parts {
			if !strings.HasPrefix(p, "xl=") {
				kept = append(kept, p)
			}
		}
		bad := []string{"x", "1x", "x1", "0x10", "1.5", "1e3", "%20", "1%20", "%201", "99999999999999999999", "-99999999999999999999", "--1", "9223372036854775808", "1,000", "%00", "1_000", "-", "%D9%A1"}[c.IntN(18)]
		i := c.IntN(len(kept) + 1)
		kept = append(kept[:i:i], append([]string{"xl=" + bad}, kept[i:]...)...)
		link := "magnet:?" + strings.Join(kept, "&")
		if m, err := magnet.ParseMagnetURL(link); err == nil {
			c.Fail("length-accepted", "%q: length %d", link, m.Length)
		}
		c.Seen(link)
	})
	r.Cases("hostile", r.N(40000, 500000), func(c *vk.Case) {
		parts, _ := gen(c)
		link := string(mutate(c.Rand, []byte("magnet:?"+strings.Join(parts, "&"))))
		switch c.IntN(4) {
		case 0:
			link = ":" + link // no scheme
		case 1:
			i := c.IntN(8)
			link = link[:min(i, len(link))] + "\x00\n\x7f"[c.IntN(3):][:1] + link[min(i, len(link)):]
		}
		m, err := magnet.ParseMagnetURL(link) // must not panic
		if _, uerr := url.Parse(link); uerr != nil && err == nil {
			c.Fail("accepted", "%q is no URL and parses as %+v", link, m)
		}
		if err == nil && m == nil {
			c.Fail("nil", "%q: neither a link nor an error", link)
		}
		c.Seen(link)
	})
}

func genPeer(c *vk.Case, v4 bool) *tracker.Peer {
	id := make([]byte, 20)
	fill(c.Rand, id)
	p := &tracker.Peer{ID: string(id), Port: []int{0, 1, 255, 256, 6881, 32768, 65535, c.IntN(65536)}[c.IntN(8)]}
	var a [4]byte
	fill(c.Rand, a[:])
	if c.IntN(4) == 0 {
		a = [][4]byte{{}, {255, 255, 255, 255}, {127, 0, 0, 1}, {10, 0, 0, 255}, {0, 0, 0, 1}, {1, 0, 0, 0}}[c.IntN(6)]
	}
	p.IP = netip.AddrFrom4(a).String()
	if !v4 && c.IntN(3) == 0 {
		var b [16]byte
		fill(c.Rand, b[:])
		p.IP = netip.AddrFrom16(b).String()
	} else if !v4 && c.IntN(4) == 0 {
		p.IP = []string{"host.example", "", genText(c, 20)}[c.IntN(3)]
	}
	if !v4 && c.IntN(5) == 0 {
		p.ID = genText(c, 30)
	}
	return p
}
