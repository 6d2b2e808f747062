package p2p

import (
	"encoding/binary"
	"fmt"
	"io"
	"time"
)

// Kinds of messages; the others are those of BEP 3.
const (
	mHandshake = -2
	mKeepalive = -1
	mChoke     = 0
	mUnchoke   = 1
	mInterest  = 2
	mNot       = 3
	mHave      = 4
	mBitfield  = 5
	mRequest   = 6
	mPiece     = 7
	mCancel    = 8
	mBad       = 99 // not well-formed, or of an unknown kind
)

type msg struct {
	kind            int
	index, begin, n int
	data            []byte   // bitfield, block
	good            bool     // the block is right
	hash, id        [20]byte // handshake
	text            string   // what is bad
}

var kinds = map[int]string{mHandshake: "handshake", mKeepalive: "keepalive", mChoke: "choke", mUnchoke: "unchoke", mInterest: "interested", mNot: "not interested",
	mHave: "have", mBitfield: "bitfield", mRequest: "request", mPiece: "piece", mCancel: "cancel", mBad: "malformed"}

func (m msg) String() string {
	s := kinds[m.kind]
	switch m.kind {
	case mHave:
		s += fmt.Sprintf("(%d)", m.index)
	case mRequest, mCancel:
		s += fmt.Sprintf("(%d,%d,%d)", m.index, m.begin, m.n)
	case mPiece:
		s += fmt.Sprintf("(%d,%d,%d,good=%v)", m.index, m.begin, m.n, m.good)
	case mBitfield:
		s += fmt.Sprintf("(%x)", m.data)
	case mHandshake:
		s += fmt.Sprintf("(%q)", m.id[:])
	case mBad:
		s += "(" + m.text + ")"
	}
	return s
}

const pstr = "\x13BitTorrent protocol"

func handshake(hash, id [20]byte) []byte {
	b := append([]byte(pstr), make([]byte, 8)...)
	b = append(b, hash[:]...)
	return append(b, id[:]...)
}

func frame(kind byte, payload []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(1+len(payload)))
	return append(append(b, kind), payload...)
}

func ints(x ...int) []byte {
	var b []byte
	for _, v := range x {
		b = binary.BigEndian.AppendUint32(b, uint32(v))
	}
	return b
}

func (m msg) encode() []byte {
	switch m.kind {
	case mKeepalive:
		return make([]byte, 4)
	case mHave:
		return frame(mHave, ints(m.index))
	case mBitfield:
		return frame(mBitfield, m.data)
	case mRequest, mCancel:
		return frame(byte(m.kind), ints(m.index, m.begin, m.n))
	case mPiece:
		return frame(mPiece, append(ints(m.index, m.begin), m.data...))
	case mHandshake:
		return handshake(m.hash, m.id)
	}
	return frame(byte(m.kind), nil)
}

// decode reads the body of a message, without the length.
func decode(b []byte) msg {
	if len(b) == 0 {
		return msg{kind: mKeepalive}
	}
	k, p := int(b[0]), b[1:]
	m := msg{kind: k}
	at := func(i int) int { return int(binary.BigEndian.Uint32(p[4*i:])) }
	bad := func() msg { return msg{kind: mBad, text: fmt.Sprintf("kind %d with %d bytes", k, len(p))} }
	want := -1
	switch k {
	case mChoke, mUnchoke, mInterest, mNot:
		want = 0
	case mHave:
		want = 4
	case mRequest, mCancel:
		want = 12
	case mBitfield:
	case mPiece:
		if len(p) < 8 {
			return bad()
		}
	default:
		return bad()
	}
	if want >= 0 && len(p) != want {
		return bad()
	}
	switch k {
	case mHave:
		m.index = at(0)
	case mRequest, mCancel:
		m.index, m.begin, m.n = at(0), at(1), at(2)
	case mBitfield:
		m.data = append([]byte(nil), p...)
	case mPiece:
		m.index, m.begin, m.n, m.data = at(0), at(1), len(p)-8, append([]byte(nil), p[8:]...)
	}
	return m
}

// readMsg reads a message, as a scripted peer.
func readMsg(r io.Reader) (msg, error) {
	var l [4]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return msg{}, err
	}
	n := binary.BigEndian.Uint32(l[:])
	if n > 1<<20 {
		return msg{}, fmt.Errorf("message of %d bytes", n)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return msg{}, err
	}
	return decode(b), nil
}

func readHandshake(r io.Reader) (m msg, err error) {
	b := make([]byte, 68)
	if _, err := io.ReadFull(r, b); err != nil {
		return m, err
	}
	if string(b[:20]) != pstr {
		return m, fmt.Errorf("not a handshake: %q", b)
	}
	m.kind = mHandshake
	copy(m.hash[:], b[28:48])
	copy(m.id[:], b[48:68])
	return m, nil
}

// parser cuts one direction of a connection into messages.
type parser struct {
	buf    []byte
	shook  bool
	broken bool
	since  time.Time // when the first byte of the message being read was handled
}

func (p *parser) feed(b []byte, t0 time.Time, emit func(m msg, since time.Time)) {
	if p.broken {
		return
	}
	if len(p.buf) == 0 {
		p.since = t0
	}
	p.buf = append(p.buf, b...)
	for {
		if !p.shook {
			k := min(len(p.buf), len(pstr))
			if string(p.buf[:k]) != pstr[:k] {
				p.broken = true
				emit(msg{kind: mBad, text: fmt.Sprintf("not a handshake: %q", p.buf[:k])}, p.since)
				return
			}
			if len(p.buf) < 68 {
				return
			}
			m := msg{kind: mHandshake}
			copy(m.hash[:], p.buf[28:48])
			copy(m.id[:], p.buf[48:68])
			p.buf = p.buf[68:]
			p.shook = true
			emit(m, p.since)
		} else {
			if len(p.buf) < 4 {
				return
			}
			n := binary.BigEndian.Uint32(p.buf)
			if n > 1<<20 {
				p.broken = true
				emit(msg{kind: mBad, text: fmt.Sprintf("message of %d bytes", n)}, p.since)
				return
			}
			if len(p.buf) < 4+int(n) {
				return
			}
			m := decode(p.buf[4 : 4+n])
			p.buf = p.buf[4+n:]
			emit(m, p.since)
		}
		p.since = t0
		if len(p.buf) == 0 {
			p.buf = nil
			return
		}
	}
}
