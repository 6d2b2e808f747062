// Package codec monitors the codecs of drip: bencode, metainfo, tracker and peer
// messages, bitfields and magnet links, against independent reference models.
package codec

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
)

// Val is a bencode value in the reference model.
type Val struct {
	K    byte // 'i', 's', 'l', 'd'
	I    *big.Int
	S    string
	L    []*Val
	Keys []string // ascending
	D    []*Val
}

func VInt(i int64) *Val    { return &Val{K: 'i', I: big.NewInt(i)} }
func VStr(s string) *Val   { return &Val{K: 's', S: s} }
func VList(l ...*Val) *Val { return &Val{K: 'l', L: l} }
func VBig(i *big.Int) *Val { return &Val{K: 'i', I: i} }
func VDict(kv ...any) *Val {
	m := map[string]*Val{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(*Val)
	}
	return VMap(m)
}
func VMap(m map[string]*Val) *Val {
	v := &Val{K: 'd'}
	for k := range m {
		v.Keys = append(v.Keys, k)
	}
	sort.Strings(v.Keys) // Go compares strings bytewise
	for _, k := range v.Keys {
		v.D = append(v.D, m[k])
	}
	return v
}

func (v *Val) Get(key string) *Val {
	for i, k := range v.Keys {
		if k == key {
			return v.D[i]
		}
	}
	return nil
}

// Append writes the canonical text.
func (v *Val) Append(b []byte) []byte {
	switch v.K {
	case 'i':
		b = append(b, 'i')
		b = append(b, v.I.String()...)
		return append(b, 'e')
	case 's':
		b = strconv.AppendInt(b, int64(len(v.S)), 10)
		b = append(b, ':')
		return append(b, v.S...)
	case 'l':
		b = append(b, 'l')
		for _, e := range v.L {
			b = e.Append(b)
		}
		return append(b, 'e')
	case 'd':
		b = append(b, 'd')
		for i, k := range v.Keys {
			b = VStr(k).Append(b)
			b = v.D[i].Append(b)
		}
		return append(b, 'e')
	}
	panic("bad Val")
}

func (v *Val) Text() []byte { return v.Append(nil) }

// Depth of nesting.
func (v *Val) Depth() int {
	d := 0
	for _, e := range v.L {
		d = max(d, e.Depth())
	}
	for _, e := range v.D {
		d = max(d, e.Depth())
	}
	return d + 1
}

func (v *Val) fits() bool {
	if v.K == 'i' {
		return v.I.IsInt64()
	}
	for _, e := range v.L {
		if !e.fits() {
			return false
		}
	}
	for _, e := range v.D {
		if !e.fits() {
			return false
		}
	}
	return true
}

// Verdict of the reference parser.
type Verdict int

const (
	Reject Verdict = iota
	Accept
	Either // left to the implementation: leading zeros of a string length
)

// Parse reads one value at the start of b.
func Parse(b []byte) (v *Val, n int, verdict Verdict) {
	p := &parser{b: b, verdict: Accept}
	v, ok := p.value()
	if !ok {
		return nil, p.i, Reject
	}
	return v, p.i, p.verdict
}

type parser struct {
	b       []byte
	i       int
	verdict Verdict
}

func (p *parser) peek() (byte, bool) {
	if p.i >= len(p.b) {
		return 0, false
	}
	return p.b[p.i], true
}

func (p *parser) str() (string, bool) {
	st := p.i
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
	}
	ds := p.b[st:p.i]
	if len(ds) == 0 || p.i >= len(p.b) || p.b[p.i] != ':' {
		return "", false
	}
	p.i++
	if len(ds) > 1 && ds[0] == '0' {
		p.verdict = Either
	}
	n := 0
	for _, d := range ds {
		n = n*10 + int(d-'0')
		if n > len(p.b) {
			return "", false
		}
	}
	if n > len(p.b)-p.i {
		return "", false
	}
	s := string(p.b[p.i : p.i+n])
	p.i += n
	return s, true
}

func (p *parser) value() (*Val, bool) {
	c, ok := p.peek()
	if !ok {
		return nil, false
	}
	switch {
	case c == 'i':
		e := bytes.IndexByte(p.b[p.i:], 'e')
		if e < 0 {
			return nil, false
		}
		s := string(p.b[p.i+1 : p.i+e])
		p.i += e + 1
		t := strings.TrimPrefix(s, "-")
		if t == "" {
			return nil, false
		}
		for _, c := range []byte(t) {
			if c < '0' || c > '9' {
				return nil, false
			}
		}
		if t[0] == '0' && (len(t) > 1 || s != t) {
			return nil, false
		}
		i, _ := new(big.Int).SetString(s, 10)
		return VBig(i), true
	case c == 'l':
		p.i++
		v := VList()
		for {
			c, ok := p.peek()
			if !ok {
				return nil, false
			}
			if c == 'e' {
				p.i++
				return v, true
			}
			e, ok := p.value()
			if !ok {
				return nil, false
			}
			v.L = append(v.L, e)
		}
	case c == 'd':
		p.i++
		v := &Val{K: 'd'}
		for {
			c, ok := p.peek()
			if !ok {
				return nil, false
			}
			if c == 'e' {
				p.i++
				return v, true
			}
			k, ok := p.str()
			if !ok {
				return nil, false
			}
			if n := len(v.Keys); n > 0 && v.Keys[n-1] >= k {
				return nil, false
			}
			e, ok := p.value()
			if !ok {
				return nil, false
			}
			v.Keys = append(v.Keys, k)
			v.D = append(v.D, e)
		}
	case c >= '0' && c <= '9':
		s, ok := p.str()
		if !ok {
			return nil, false
		}
		return VStr(s), true
	}
	return nil, false
}

// ToAny is the Go value an untyped decode must give.
func (v *Val) ToAny() any {
	switch v.K {
	case 'i':
		return int(v.I.Int64())
	case 's':
		return v.S
	case 'l':
		l := make([]any, 0, len(v.L))
		for _, e := range v.L {
			l = append(l, e.ToAny())
		}
		return l
	}
	m := make(map[string]any, len(v.Keys))
	for i, k := range v.Keys {
		m[k] = v.D[i].ToAny()
	}
	return m
}

// EqualAny compares a decoded untyped value with the model.
func (v *Val) EqualAny(x any) bool {
	switch v.K {
	case 'i':
		i, ok := x.(int)
		return ok && v.I.IsInt64() && int64(i) == v.I.Int64()
	case 's':
		s, ok := x.(string)
		return ok && s == v.S
	case 'l':
		l, ok := x.([]any)
		if !ok || len(l) != len(v.L) {
			return false
		}
		for i := range l {
			if !v.L[i].EqualAny(l[i]) {
				return false
			}
		}
		return true
	}
	m, ok := x.(map[string]any)
	if !ok || len(m) != len(v.Keys) {
		return false
	}
	for i, k := range v.Keys {
		e, ok := m[k]
		if !ok || !v.D[i].EqualAny(e) {
			return false
		}
	}
	return true
}

// --- generators ---

func GenBytes(r *rand.Rand, maxLen int) []byte {
	n := 0
	switch r.IntN(6) {
	case 0:
	case 1:
		n = 1 + r.IntN(3)
	case 2, 3:
		n = r.IntN(min(maxLen, 12) + 1)
	default:
		n = r.IntN(maxLen + 1)
	}
	b := make([]byte, n)
	mode := r.IntN(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.IntN(256))
		case 1:
			b[i] = "ilde0123456789:-"[r.IntN(16)]
		case 2:
			b[i] = byte('a' + r.IntN(3))
		default:
			b[i] = []byte{0, 1, 0x7f, 0x80, 0xff, 'e', ':', '\n'}[r.IntN(8)]
		}
	}
	return b
}

var boundaries = []int64{0, 1, -1, 9, 10, -10, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
	math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}

func GenInt(r *rand.Rand) int64 {
	switch r.IntN(3) {
	case 0:
		return boundaries[r.IntN(len(boundaries))]
	case 1:
		return int64(r.IntN(2001) - 1000)
	}
	return int64(r.Uint64()) >> r.IntN(64)
}

// GenBig gives integers beyond 64 bits too.
func GenBig(r *rand.Rand) *big.Int {
	b := make([]byte, 1+r.IntN(30))
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	i := new(big.Int).SetBytes(b)
	if r.IntN(2) == 0 {
		i.Neg(i)
	}
	return i
}

type GenOpt struct {
	Big    bool // integers beyond 64 bits
	StrMax int
}

func GenVal(r *rand.Rand, depth int, o GenOpt) *Val {
	if o.StrMax == 0 {
		o.StrMax = 40
	}
	k := r.IntN(10)
	if depth <= 0 {
		k = r.IntN(5)
	}
	switch {
	case k < 2:
		if o.Big && r.IntN(3) == 0 {
			return VBig(GenBig(r))
		}
		return VInt(GenInt(r))
	case k < 5:
		return VStr(string(GenBytes(r, o.StrMax)))
	case k < 7:
		v := VList()
		for range r.IntN(5) {
			v.L = append(v.L, GenVal(r, depth-1, o))
		}
		return v
	default:
		m := map[string]*Val{}
		for range r.IntN(5) {
			m[string(GenBytes(r, 8))] = GenVal(r, depth-1, o)
		}
		return VMap(m)
	}
}

// --- hostile readers and writers ---

var errInjected = errors.New("injected I/O error")

// chunkReader delivers data in pieces chosen by next, then err. It counts reads
// after the end, so that a reader that never stops is found out.
type chunkReader struct {
	data  []byte
	next  func(avail int) int // 0 is an empty read
	err   error
	after int
	with  bool // deliver the error together with the last bytes
	reads int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	if len(c.data) == 0 {
		c.after++
		if c.after > 10000 {
			panic("the decoder goes on reading after the end of its input")
		}
		return 0, c.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := min(c.next(len(c.data)), len(p), len(c.data))
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if c.with && len(c.data) == 0 {
		return n, c.err
	}
	return n, nil
}

// GenReader makes a reader over data that ends in err, with a random way of
// splitting the data.
func GenReader(r *rand.Rand, data []byte, err error) (*chunkReader, string) {
	c := &chunkReader{data: data, err: err, with: r.IntN(3) == 0}
	mode := r.IntN(6)
	seed := r.Uint64()
	rr := rand.New(rand.NewPCG(seed, 1))
	empties := 0
	switch mode {
	case 0:
		c.next = func(n int) int { return n }
	case 1:
		c.next = func(int) int { return 1 }
	case 2:
		c.next = func(int) int { return 1 + rr.IntN(3) }
	case 3:
		c.next = func(int) int { return 1 + rr.IntN(40) }
	case 4:
		c.next = func(int) int {
			if empties < 20 && rr.IntN(2) == 0 {
				empties++
				return 0
			}
			empties = 0
			return 1 + rr.IntN(5)
		}
	default:
		split := 1 + r.IntN(max(1, len(data)))
		c.next = func(n int) int {
			if d := split - (len(data) - n); d > 0 {
				return d
			}
			return n
		}
	}
	return c, fmt.Sprintf("split mode %d with=%v", mode, c.with)
}

// failWriter accepts n bytes and then fails.
type failWriter struct {
	n   int
	buf bytes.Buffer
	err error
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		m := w.n
		w.buf.Write(p[:m])
		w.n = 0
		return m, w.err
	}
	w.n -= len(p)
	w.buf.Write(p)
	return len(p), nil
}

// splitWriter checks nothing but records, hiding io.StringWriter and friends.
type plainWriter struct{ w io.Writer }

func (p plainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }
