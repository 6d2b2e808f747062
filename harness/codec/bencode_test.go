package codec

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/browles/drip/bencode"
	"verif/harness/vk"
)

func clip(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func encodeStream(v any) ([]byte, error) {
	var b bytes.Buffer
	err := bencode.NewEncoder(plainWriter{&b}).Encode(v)
	return b.Bytes(), err
}

func TestB01(t *testing.T) {
	r := vk.Start(t, "B01", "random static types (scalars of all widths, slices, arrays, maps, structs, pointers, any, marshalers) and values; the real encoding is compared with an independent reference encoder and re-parsed by a strict parser; non-trivial: encodings of more than 2 bytes")
	r.Cases("typed", r.N(60000, 1500000), func(c *vk.Case) {
		typ := GenType(c.Rand, 4, true, typeOpt{methods: true, anys: true, embed: c.IntN(4) == 0})
		p := reflect.New(typ)
		GenValue(c.Rand, p.Elem(), true)
		want := RefEncode(nil, p.Elem())
		got, err := bencode.Marshal(p.Interface())
		if err != nil {
			c.Fail("encode-error", "type %s: encoding a supported value fails: %v\nwant %s", typ, err, clip(want))
		}
		if !bytes.Equal(got, want) {
			c.Fail("encode-differs", "type %s\n got %s\nwant %s", typ, clip(got), clip(want))
		}
		if _, n, verdict := Parse(got); verdict != Accept || n != len(got) {
			c.Fail("encode-not-canonical", "type %s: not one canonical value: %s", typ, clip(got))
		}
		s, err := encodeStream(p.Interface())
		if err != nil || !bytes.Equal(s, want) {
			c.Fail("stream-differs", "type %s: Encoder gives %s, %v; Marshal gives %s", typ, clip(s), err, clip(got))
		}
		for range 2 {
			again, err := bencode.Marshal(p.Interface())
			if err != nil || !bytes.Equal(again, want) {
				c.Fail("not-deterministic", "type %s: second call gives %s, %v", typ, clip(again), err)
			}
		}
		// The result is the caller's: other calls leave it as it is
		bencode.Marshal(-len(got))
		bencode.Marshal(bytes.Repeat([]byte{'#'}, len(got)))
		if !bytes.Equal(got, want) {
			c.Fail("result-changes", "type %s: after other calls of Marshal its result is %s, want %s", typ, clip(got), clip(want))
		}
		c.Evals(3)
		if len(got) > 2 {
			c.SeenBytes(got)
			c.Sample("%s -> %s", typ, clip(got))
		}
	})
	// Equal maps built in different orders, with keys around the byte-order traps
	r.Cases("maps", r.N(6000, 100000), func(c *vk.Case) {
		m := map[string]any{}
		for range 1 + c.IntN(40) {
			m[string(GenBytes(c.Rand, 6))] = GenVal(c.Rand, 1, GenOpt{}).ToAny()
		}
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		c.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		m2 := make(map[string]any, c.IntN(100))
		for _, k := range keys {
			m2[k] = m[k]
		}
		want := RefEncode(nil, reflect.ValueOf(m))
		a, err1 := bencode.Marshal(m)
		b, err2 := bencode.Marshal(m2)
		if err1 != nil || err2 != nil || !bytes.Equal(a, want) || !bytes.Equal(b, want) {
			c.Fail("map-order", "equal maps: %s, %v and %s, %v; want %s", clip(a), err1, clip(b), err2, clip(want))
		}
		c.SeenBytes(a)
		c.Count("map_keys", len(m))
	})
	r.Cases("boundaries", 1, func(c *vk.Case) {
		for _, i := range boundaries {
			for d := int64(-2); d <= 2; d++ {
				i := i + d
				check := func(v any, want string) {
					got, err := bencode.Marshal(v)
					if err != nil || string(got) != want {
						c.Fail("boundary", "%T %v encodes as %q, %v; want %q", v, v, got, err, want)
					}
					c.Seen(v)
					c.Evals(1)
				}
				check(i, fmt.Sprintf("i%de", i))
				check(int(i), fmt.Sprintf("i%de", int(i)))
				check(int32(i), fmt.Sprintf("i%de", int32(i)))
				check(int16(i), fmt.Sprintf("i%de", int16(i)))
				check(int8(i), fmt.Sprintf("i%de", int8(i)))
				check(uint64(i), fmt.Sprintf("i%de", uint64(i)))
				check(uint32(i), fmt.Sprintf("i%de", uint32(i)))
				check(uint16(i), fmt.Sprintf("i%de", uint16(i)))
				check(uint8(i), fmt.Sprintf("i%de", uint8(i)))
				check(uint(i), fmt.Sprintf("i%de", uint(i)))
			}
		}
		for _, n := range []int{0, 1, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 100000} {
			s := strings.Repeat("x", n)
			for _, v := range []any{s, []byte(s), MyStr(s)} {
				got, err := bencode.Marshal(v)
				if err != nil || string(got) != fmt.Sprintf("%d:%s", n, s) {
					c.Fail("string-length", "string of %d bytes: %v %s", n, err, clip(got))
				}
				c.Evals(1)
			}
		}
	})
	// Deep values within the encoder's limits
	r.Cases("deep", 60, func(c *vk.Case) {
		depth := 1 + c.Index*10
		var v any = "x"
		want := "1:x"
		for range depth {
			if c.IntN(2) == 0 {
				v, want = []any{v}, "l"+want+"e"
			} else {
				v, want = map[string]any{"k": v}, "d1:k"+want+"e"
			}
		}
		got, err := bencode.Marshal(v)
		if err != nil || string(got) != want {
			c.Fail("deep", "depth %d: %v\n%s", depth, err, clip(got))
		}
		c.Max("max_depth", depth)
		c.Seen("deep", depth)
	})
}

func TestB02(t *testing.T) {
	r := vk.Start(t, "B02", "random static types and values encoded and decoded into a fresh variable, followed by a sentinel that must be left unread; canonical texts decoded untyped and re-encoded; non-trivial: more than 2 bytes")
	wideRoundTrip(r)
	fullMaps = true
	r.Cases("typed", r.N(60000, 1500000), func(c *vk.Case) {
		typ := GenType(c.Rand, 4, true, typeOpt{methods: true, anys: true, embed: c.IntN(4) == 0})
		p := reflect.New(typ)
		GenValue(c.Rand, p.Elem(), true)
		data, err := bencode.Marshal(p.Interface())
		if err != nil {
			c.Fail("encode-error", "type %s: %v", typ, err)
		}
		d := bencode.NewDecoder(bytes.NewReader(append(bytes.Clone(data), "8:sentinel"...)))
		q := reflect.New(typ)
		if err := d.Decode(q.Interface()); err != nil {
			c.Fail("decode-error", "type %s: decoding %s fails: %v", typ, clip(data), err)
		}
		if !EqualRT(p.Elem(), q.Elem()) {
			c.Fail("round-trip", "type %s: %s\n in %+v\nout %+v", typ, clip(data), p.Elem(), q.Elem())
		}
		again, err := bencode.Marshal(q.Interface())
		if err != nil || !bytes.Equal(again, data) {
			c.Fail("round-trip-bytes", "type %s: %s, %v; want %s", typ, clip(again), err, clip(data))
		}
		var s string
		if err := d.Decode(&s); err != nil || s != "sentinel" {
			c.Fail("consumed", "type %s: after %s the next value is %q, %v", typ, clip(data), s, err)
		}
		u := reflect.New(typ)
		text := bytes.Clone(data)
		if err := bencode.Unmarshal(text, u.Interface()); err != nil || !EqualRT(p.Elem(), u.Elem()) {
			c.Fail("unmarshal", "type %s: Unmarshal of %s: %v, %+v", typ, clip(data), err, u.Elem())
		}
		// What was decoded does not depend on the text any more, nor on later calls
		scribble(text)
		bencode.Unmarshal(append(strconv.AppendInt(nil, int64(len(data)), 10), ":"+strings.Repeat("#", len(data))...), new([]byte))
		if !EqualRT(p.Elem(), u.Elem()) || !EqualRT(p.Elem(), q.Elem()) {
			c.Fail("value-changes", "type %s: after other calls the value decoded from %s is %+v", typ, clip(data), u.Elem())
		}
		if len(data) > 2 {
			c.SeenBytes(data)
			c.Sample("%s <-> %s", typ, clip(data))
		}
	})
	r.Cases("text", r.N(60000, 1500000), func(c *vk.Case) {
		v := GenVal(c.Rand, 5, GenOpt{StrMax: 300})
		data := v.Text()
		var x any
		if err := bencode.Unmarshal(data, &x); err != nil {
			c.Fail("decode-error", "%s: %v", clip(data), err)
		}
		again, err := bencode.Marshal(x)
		if err != nil || !bytes.Equal(again, data) {
			c.Fail("text-round-trip", "%s comes back as %s, %v", clip(data), clip(again), err)
		}
		if len(data) > 2 {
			c.SeenBytes(data)
		}
	})
	r.Cases("large", 24, func(c *vk.Case) {
		n := []int{1 << 12, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 17, 1 << 20}[c.Index%6]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.Uint32())
		}
		in := struct {
			A []byte
			B string
			C map[string][]byte
			D []string
		}{b, string(b[n/2:]), map[string][]byte{string(b[:n/3]): b, "": b[:1]}, []string{string(b), "", string(b[:7])}}
		out := in
		out.A, out.B, out.C, out.D = nil, "", nil, nil
		data, err := bencode.Marshal(&in)
		if err == nil {
			err = bencode.Unmarshal(data, &out)
		}
		if err != nil || !reflect.DeepEqual(in, out) {
			c.Fail("large", "strings of %d bytes: %v", n, err)
		}
		c.Seen("large", n)
		c.Max("max_string", n)
	})
}

// scribble writes over a text that was decoded.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

// mutate makes a small change to a text.
func mutate(r *rand.Rand, b []byte) []byte {
	b = bytes.Clone(b)
	for range 1 + r.IntN(2) {
		switch r.IntN(7) {
		case 0:
			if len(b) > 0 {
				b[r.IntN(len(b))] = byte(r.IntN(256))
			}
		case 1:
			if len(b) > 0 {
				i := r.IntN(len(b))
				b = append(b[:i], b[i+1:]...)
			}
		case 2, 3:
			i := r.IntN(len(b) + 1)
			b = append(b[:i], append([]byte{"ilde0123456789:-+ "[r.IntN(18)]}, b[i:]...)...)
		case 4:
			if len(b) > 0 {
				b = b[:r.IntN(len(b))]
			}
		case 5:
			if len(b) > 0 {
				b[r.IntN(len(b))] = "ilde0123456789:-"[r.IntN(16)]
			}
		case 6:
			if len(b) > 1 {
				i, j := r.IntN(len(b)), r.IntN(len(b))
				if i > j {
					i, j = j, i
				}
				b = append(b[:j], append(bytes.Clone(b[i:j]), b[j:]...)...)
			}
		}
	}
	return b
}

// damage breaks a text in ways that leave most of it as it was.
func damage(r *rand.Rand, b []byte) []byte {
	b = bytes.Clone(b)
	var nums, ints []int // where lengths and integers begin, roughly
	for i, x := range b {
		if isDigit := x >= '0' && x <= '9'; isDigit && (i == 0 || b[i-1] < '0' || b[i-1] > '9') {
			if nums = append(nums, i); i > 0 && b[i-1] == 'i' {
				ints = append(ints, i)
			}
		}
	}
	at := func(l []int) int { return l[r.IntN(len(l))] }
	switch k := r.IntN(6); {
	case k <= 1 && len(ints) > 0:
		return slices.Insert(b, at(ints), []byte([]string{"0", "-", "-0", "+", " ", "_", "0x", "00"}[r.IntN(8)])...)
	case k == 2 && len(nums) > 0:
		return slices.Insert(b, at(nums), []byte([]string{"-", "+", "x", " ", "l", "i", "e", "d"}[r.IntN(8)])...)
	case k == 3 && len(nums) > 0:
		i := at(nums)
		return slices.Delete(b, i, i+1)
	case k == 4 && len(ints) > 0:
		i := at(ints)
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			i++
		}
		return slices.Insert(b, i, []byte([]string{".", ".0", "e", " ", "_1", "E1", "l"}[r.IntN(7)])...)
	}
	return mutate(r, b)
}

func checkUntyped(c *vk.Case, data []byte) {
	want, n, verdict := Parse(data)
	if verdict == Accept && !want.fits() {
		verdict = Reject // does not fit the machine integer
	}
	var x any
	err := bencode.Unmarshal(data, &x)
	switch {
	case verdict == Accept && err != nil:
		c.Fail("rejects-well-formed", "%s (value of %d bytes): %v", clip(data), n, err)
	case verdict == Reject && err == nil:
		c.Fail("accepts-malformed", "%s decodes as %#v", clip(data), x)
	case err == nil && !want.EqualAny(x):
		c.Fail("wrong-value", "%s decodes as %#v", clip(data), x)
	}
	if verdict == Accept {
		c.Count("accepted", 1)
	} else {
		c.Count("rejected_or_free", 1)
	}
}

func TestB03(t *testing.T) {
	r := vk.Start(t, "B03", "all texts over the alphabet {i l d e - 0 1 2 : a} up to a length, random and mutated texts: acceptance and value compared with a strict reference parser; values decoded into random types compared with their denotation; non-trivial: distinct texts of mutated or generated values and distinct (type, text) pairs")
	wideParse(r)
	alphabet := "ilde-012:a"
	maxLen := r.N(6, 7)
	for l := 0; l <= maxLen; l++ {
		total := 1
		for range l {
			total *= len(alphabet)
		}
		block := 10000
		r.Cases(fmt.Sprintf("all%d", l), (total+block-1)/block, func(c *vk.Case) {
			buf := make([]byte, l)
			n := 0
			for i := c.Index * block; i < min(total, (c.Index+1)*block); i++ {
				x := i
				for j := range buf {
					buf[j] = alphabet[x%len(alphabet)]
					x /= len(alphabet)
				}
				checkUntyped(c, buf)
				n++
			}
			c.Evals(n - 1)
			c.Count("exhaustive_texts", n)
		})
	}
	r.Cases("mutated", r.N(150000, 3000000), func(c *vk.Case) {
		data := GenVal(c.Rand, 4, GenOpt{Big: c.IntN(3) == 0}).Text()
		if c.IntN(8) > 0 {
			data = mutate(c.Rand, data)
		}
		checkUntyped(c, data)
		c.SeenBytes(data)
		c.Sample("%s", clip(data))
	})
	r.Cases("ints", r.N(3000, 30000), func(c *vk.Case) {
		b := GenBig(c.Rand)
		if c.IntN(2) == 0 {
			b.SetInt64(boundaries[c.IntN(len(boundaries))])
			b.Add(b, VInt(int64(c.IntN(5)-2)).I)
		}
		v := VBig(b)
		data := v.Text()
		checkUntyped(c, data)
		for _, typ := range scalars {
			p := reflect.New(typ)
			err := bencode.Unmarshal(data, p.Interface())
			if err == nil && !Denotes(v, p.Elem()) {
				c.Fail("int-altered", "%s into %s gives %v", data, typ, p.Elem())
			}
			fits := false
			switch typ.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				fits = b.IsInt64() && !p.Elem().OverflowInt(b.Int64())
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				fits = b.IsUint64() && !p.Elem().OverflowUint(b.Uint64())
			}
			if fits && err != nil {
				c.Fail("int-refused", "%s into %s: %v", data, typ, err)
			}
			c.Evals(1)
		}
		c.SeenBytes(data)
	})
	// A value into an unrelated type: denoted value or an error
	r.Cases("typed", r.N(60000, 1500000), func(c *vk.Case) {
		o := typeOpt{anys: true, methods: c.IntN(3) == 0, embed: c.IntN(4) == 0}
		typ := GenType(c.Rand, 3, true, o)
		var v *Val
		if c.IntN(3) == 0 {
			v = GenVal(c.Rand, 3, GenOpt{Big: c.IntN(4) == 0})
		} else {
			v = GenFor(c.Rand, typ, 0)
		}
		data := v.Text()
		p := reflect.New(typ)
		err := bencode.Unmarshal(data, p.Interface())
		if err == nil && !Denotes(v, p.Elem()) {
			c.Fail("typed-altered", "%s into %s gives %+v", clip(data), typ, p.Elem())
		}
		if err == nil {
			c.Count("typed_accepted", 1)
		} else {
			c.Count("typed_refused", 1)
		}
		c.Seen(typ.String(), string(data))
	})
	// A damaged text into a type it nearly fits: it denotes nothing, so it is an error
	r.Cases("typed-mutated", r.N(120000, 3000000), func(c *vk.Case) {
		o := typeOpt{anys: true, methods: c.IntN(4) == 0, embed: c.IntN(4) == 0}
		typ := GenType(c.Rand, 3, true, o)
		data := GenFor(c.Rand, typ, 0).Text()
		for range 1 + c.IntN(2) {
			data = damage(c.Rand, data)
		}
		v, _, verdict := Parse(data)
		p := reflect.New(typ)
		err := bencode.Unmarshal(data, p.Interface())
		switch {
		case err != nil:
		case verdict == Reject:
			c.Fail("accepts-malformed", "%s into %s gives %+v", clip(data), typ, p.Elem())
		case verdict == Accept && !Denotes(v, p.Elem()):
			c.Fail("typed-altered", "%s into %s gives %+v", clip(data), typ, p.Elem())
		}
		if verdict == Reject {
			c.Count("typed_malformed", 1)
		}
		c.Seen(typ.String(), string(data))
	})
	// Reused destinations hold exactly the new list
	r.Cases("reused", r.N(5000, 50000), func(c *vk.Case) {
		mk := func() ([]int64, []byte) {
			l := make([]int64, c.IntN(8))
			v := VList()
			for i := range l {
				l[i] = GenInt(c.Rand)
				v.L = append(v.L, VInt(l[i]))
			}
			return l, v.Text()
		}
		var dst []int64
		for range 4 {
			want, data := mk()
			if err := bencode.Unmarshal(data, &dst); err != nil {
				c.Fail("reused", "%v", err)
			}
			if len(dst) != len(want) || fmt.Sprint(dst) != fmt.Sprint(want) {
				c.Fail("reused", "%s into a used slice gives %v", data, dst)
			}
			c.SeenBytes(data)
		}
	})
}

// GenFor makes a value that mostly fits a type.
func GenFor(r *rand.Rand, t reflect.Type, wrong int) *Val {
	if r.IntN(25) == 0 {
		return GenVal(r, 1, GenOpt{Big: true})
	}
	switch t {
	case rawT, anyT:
		return GenVal(r, 2, GenOpt{Big: t == rawT})
	case vmT:
		return VDict("vm", VStr(string(GenBytes(r, 10))))
	case pmT:
		return VInt(GenInt(r))
	}
	switch t.Kind() {
	case reflect.String:
		return VStr(string(GenBytes(r, 30)))
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 {
			return VStr(string(GenBytes(r, 30)))
		}
		v := VList()
		for range r.IntN(5) {
			v.L = append(v.L, GenFor(r, t.Elem(), wrong))
		}
		return v
	case reflect.Map:
		m := map[string]*Val{}
		for range r.IntN(4) {
			m[string(GenBytes(r, 6))] = GenFor(r, t.Elem(), wrong)
		}
		return VMap(m)
	case reflect.Struct:
		m := map[string]*Val{}
		for _, f := range refFields(t) {
			if r.IntN(5) > 0 {
				m[f.key] = GenFor(r, f.typ, wrong)
			}
		}
		for range r.IntN(3) {
			k := string(GenBytes(r, 6))
			if r.IntN(3) == 0 {
				k = fieldNames[r.IntN(len(fieldNames))] // upper case: no field's key
			}
			if m[k] == nil {
				m[k] = GenVal(r, 2, GenOpt{Big: true})
			}
		}
		return VMap(m)
	case reflect.Pointer:
		return GenFor(r, t.Elem(), wrong)
	}
	// an integer that usually fits
	switch r.IntN(4) {
	case 0:
		return VInt(GenInt(r))
	case 1:
		return VInt(boundaries[r.IntN(len(boundaries))])
	}
	return VInt(int64(r.IntN(128)))
}

type recurse struct {
	A *recurse
	L []recurse
	M map[string]*recurse
	N int
	R bencode.RawMessage
}
type selfList []selfList
type selfMap map[string]selfMap
type selfPtr *selfPtr

func hostileDests() []any {
	return []any{new(any), new(bencode.RawMessage), new(recurse), new(selfList), new(selfMap), new([]any), new(map[string]any), new(string), new([]byte),
		new(int), new(uint8), new([3]string), new(map[string][]*recurse), new(struct{ X int }), new(struct{}), new(VM), new(*PM),
		new(func()), new(chan int), new(map[int]int), new(bool), new(float64), new(io.Reader), new(struct {
			A any
			F func()
		}), new(struct{ A io.Reader })}
}

func TestB04(t *testing.T) {
	debug.SetMaxStack(512 << 20)
	r := vk.Start(t, "B04", "hostile texts (mutated, truncated, huge claimed lengths, deep nesting, injected read errors) into 25 destination types, and hostile values into the encoder; a panic, a stack overflow, unbounded reading, or allocation out of proportion to the input is a violation; non-trivial: distinct inputs")
	decode := func(c *vk.Case, data []byte, dst any, split bool) {
		var rd io.Reader
		var how string
		e := io.EOF
		if c.IntN(4) == 0 {
			e = errInjected
		}
		if split {
			rd, how = GenReader(c.Rand, bytes.Clone(data), e)
		} else {
			rd = &chunkReader{data: data, next: func(n int) int { return n }, err: e}
		}
		d := bencode.NewDecoder(rd)
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		err := d.Decode(dst)
		runtime.ReadMemStats(&after)
		alloc := int(after.TotalAlloc - before.TotalAlloc)
		// Proportion: untyped values and captures cost some hundred bytes per
		// input byte at worst; a constant covers buffers.
		if limit := 8<<20 + 2000*len(data); alloc > limit {
			c.Fail("memory", "decoding %s into %T (%s) allocates %d bytes", clip(data), dst, how, alloc)
		}
		c.Max("max_alloc", alloc)
		if len(data) < 1000 {
			c.Max("max_alloc_small_input", alloc)
		} else {
			c.Max("max_alloc_per_byte_large_input", alloc/len(data))
		}
		if err != nil {
			c.Count("errors", 1)
		} else {
			c.Count("values", 1)
		}
	}
	r.Cases("mutated", r.N(20000, 400000), func(c *vk.Case) {
		data := GenVal(c.Rand, 4, GenOpt{Big: true}).Text()
		for range c.IntN(4) {
			data = mutate(c.Rand, data)
		}
		ds := hostileDests()
		decode(c, data, ds[c.IntN(len(ds))], c.IntN(2) == 0)
		c.SeenBytes(data)
		c.Sample("%s", clip(data))
	})
	r.Cases("random", r.N(10000, 200000), func(c *vk.Case) {
		data := GenBytes(c.Rand, 200)
		ds := hostileDests()
		decode(c, data, ds[c.IntN(len(ds))], false)
		c.SeenBytes(data)
	})
	claims := []string{"99999999999:", "9223372036854775807:", "9223372036854775808:", "18446744073709551616:", "1000000000:", "2147483648:", "4294967296:", "-1:", "-9223372036854775808:", "+5:abcde", "00000000000000000000000000001:a", "999999999999999999999999999999999:", "1e9:", "0x10:", " 5:abcde", "5 :abcde", ":", "300000000:abc", "70000:" + strings.Repeat("x", 69999)}
	r.Cases("claims", len(claims), func(c *vk.Case) {
		for _, wrap := range []string{"%s", "l%s", "d%s", "d1:a%s", "d1:x%s", "d1:xl%s", "ll%s", "d1:r%s", "d2:vm%s", "l1:al%s", "d1:al%s"} {
			for i := range hostileDests() {
				data := []byte(fmt.Sprintf(wrap, claims[c.Index]))
				decode(c, data, hostileDests()[i], false)
				decode(c, append(data, "abc"...), hostileDests()[i], true)
				c.Evals(2)
				c.Seen(string(data), i)
			}
		}
	})
	nests := []string{"l", "d1:a", "d1:x", "d1:l", "d1:m", "ld1:a", "d0:", "d1:r", "d1:al", "d1:ll", "lld1:x"}
	r.Cases("nesting", len(nests), func(c *vk.Case) {
		for _, depth := range []int{100, 5000, 20000, 300000, 4000000} {
			data := bytes.Repeat([]byte(nests[c.Index]), depth)
			for i := range hostileDests() {
				if i > 12 && depth > 20000 {
					continue
				}
				decode(c, data, hostileDests()[i], false)
				c.Evals(1)
			}
			c.Seen(nests[c.Index], depth)
			c.Max("max_nesting", depth)
		}
	})
	r.Cases("truncated", r.N(600, 10000), func(c *vk.Case) {
		v := GenVal(c.Rand, 3, GenOpt{Big: true, StrMax: 20})
		data := v.Text()
		for n := range len(data) {
			for _, mk := range []func() any{func() any { return new(any) }, func() any { return new(bencode.RawMessage) }, func() any { return new(struct{}) }} {
				dst := mk()
				rd := &chunkReader{data: data[:n], next: func(n int) int { return n }, err: io.EOF}
				if bencode.NewDecoder(rd).Decode(dst) == nil {
					c.Fail("truncated-accepted", "%s cut to %d bytes decodes into %T", clip(data), n, dst)
				}
				c.Evals(1)
			}
		}
		c.SeenBytes(data)
	})
	// Fields of every kind receive every kind of value
	r.Cases("mismatch", r.N(8000, 100000), func(c *vk.Case) {
		typ := GenType(c.Rand, 3, true, typeOpt{methods: true, anys: true, embed: c.IntN(3) == 0})
		p := reflect.New(typ)
		if c.IntN(2) == 0 {
			GenValue(c.Rand, p.Elem(), false) // a used destination
		}
		v := GenFor(c.Rand, typ, 0)
		if c.IntN(2) == 0 {
			v = GenVal(c.Rand, 3, GenOpt{Big: true})
		}
		data := v.Text()
		bencode.Unmarshal(data, p.Interface())
		c.Seen(typ.String(), string(data))
	})
	r.Cases("destinations", 1, func(c *vk.Case) {
		var nilInt *int
		for _, dst := range []any{nil, 5, "x", nilInt, (*any)(nil), struct{}{}, []int{}, map[string]int{}, func() {}} {
			for _, data := range []string{"i1e", "le", "de", "0:", ""} {
				if bencode.Unmarshal([]byte(data), dst) == nil {
					if m, ok := dst.(map[string]int); ok && m != nil {
						continue
					}
					c.Fail("bad-destination", "decoding %q into %T succeeds", data, dst)
				}
				c.Evals(1)
				c.Seen(data, fmt.Sprintf("%T", dst))
			}
		}
	})
	// The encoder
	type cyc struct {
		P *cyc
		A any
		L []any
		M map[string]any
	}
	r.Cases("encode-hostile", 1, func(c *vk.Case) {
		cm := map[string]any{}
		cm["m"] = cm
		cl := []any{nil}
		cl[0] = cl
		cs := &cyc{}
		cs.P = cs
		ca := &cyc{}
		ca.A = ca
		var ci any
		ci = &ci
		var sp selfPtr
		sp = &sp
		var deep any = 1
		for range 2000000 {
			deep = []any{deep}
		}
		for i, v := range []any{cm, cl, cs, ca, ci, sp, deep, func() {}, make(chan int), 1.5, true, complex(1, 2), map[int]int{1: 1}, []any{1, 2.5}, map[string]any{"a": func() {}},
			struct{ F func() }{func() {}}, []bool{true}, [1]float32{}, &struct{ M map[int]string }{map[int]string{1: ""}}, failMarshaler{}, []any{failMarshaler{}}} {
			for _, enc := range []func(any) ([]byte, error){bencode.Marshal, encodeStream} {
				if b, err := enc(v); err == nil {
					c.Fail("encode-unsupported", "value %d (%T) encodes as %s", i, v, clip(b))
				}
				c.Evals(1)
				c.Seen("encode", i)
			}
		}
		for _, v := range []any{nil, (*int)(nil), []any{nil}, map[string]any{"a": nil}, (*VM)(nil), (*PM)(nil), struct {
			P *PM
			V *VM
			A any
		}{}, []*PM{nil}, map[string]*VM{"x": nil}, bencode.RawMessage(nil), (*bencode.RawMessage)(nil), [2]any{}} {
			bencode.Marshal(v)
			c.Evals(1)
		}
	})
	r.Cases("encode-after-error", 200, func(c *vk.Case) {
		// An encoder stays usable after an error
		var b bytes.Buffer
		e := bencode.NewEncoder(&b)
		for range 1 + c.IntN(40) {
			var deep any = func() {}
			for range c.IntN(300) {
				deep = []any{&deep, map[string]any{"k": deep}}[c.IntN(2)]
				if p, ok := deep.(*any); ok {
					deep = []any{*p}
				}
			}
			e.Encode(deep)
		}
		b.Reset()
		v := GenVal(c.Rand, 3, GenOpt{})
		if err := e.Encode(v.ToAny()); err != nil || !bytes.Equal(b.Bytes(), v.Text()) {
			c.Fail("encode-after-error", "after failed calls %s encodes as %s, %v", clip(v.Text()), clip(b.Bytes()), err)
		}
		c.SeenBytes(v.Text())
	})
}

type failMarshaler struct{}

func (failMarshaler) MarshalBencoding() ([]byte, error) { return nil, errInjected }

type rawHolder struct {
	A int                `bencode:"a"`
	R bencode.RawMessage `bencode:"r"`
	Z string             `bencode:"z"`
}

type capture struct{ b []byte }

func (c *capture) UnmarshalBencoding(b []byte) error { c.b = bytes.Clone(b); return nil }

func TestB05(t *testing.T) {
	r := vk.Start(t, "B05", "random well-formed values (integers of any size) captured raw or skipped as unknown keys in structs, maps, lists and streams; captured bytes compared with the bytes written; non-trivial: distinct values")
	wideRaw(r)
	o := GenOpt{Big: true, StrMax: 200}
	r.Cases("field", r.N(40000, 800000), func(c *vk.Case) {
		v := GenVal(c.Rand, 4, o)
		m := map[string]*Val{"a": VInt(GenInt(c.Rand)), "r": v, "z": VStr(string(GenBytes(c.Rand, 20)))}
		for range c.IntN(5) {
			k := string(GenBytes(c.Rand, 5))
			if m[k] == nil {
				m[k] = GenVal(c.Rand, 3, o)
			}
		}
		data := VMap(m).Text()
		tail := GenVal(c.Rand, 2, GenOpt{})
		rd, how := GenReader(c.Rand, append(bytes.Clone(data), tail.Text()...), io.EOF)
		d := bencode.NewDecoder(rd)
		var h rawHolder
		if err := d.Decode(&h); err != nil {
			c.Fail("decode-error", "%s (%s): %v", clip(data), how, err)
		}
		var x any
		if err := d.Decode(&x); err != nil || !tail.EqualAny(x) {
			c.Fail("position", "%s: the value after it decodes as %#v, %v (%s)", clip(data), x, err, how)
		}
		if !bytes.Equal(h.R, v.Text()) {
			c.Fail("capture", "%s: captured %s, want %s (%s)", clip(data), clip(h.R), clip(v.Text()), how)
		}
		if int64(h.A) != m["a"].I.Int64() || h.Z != m["z"].S {
			c.Fail("fields", "%s: fields %d and %q", clip(data), h.A, h.Z)
		}
		want := VDict("a", m["a"], "r", v, "z", m["z"]).Text()
		got, err := bencode.Marshal(&h)
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("re-encode", "%s, %v; want %s", clip(got), err, clip(want))
		}
		got, err = bencode.Marshal(h)
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("re-encode", "by value: %s, %v; want %s", clip(got), err, clip(want))
		}
		c.SeenBytes(data)
		c.Sample("%s", clip(data))
	})
	r.Cases("containers", r.N(20000, 400000), func(c *vk.Case) {
		var vals []*Val
		l := VList()
		m := map[string]*Val{}
		for i := range 1 + c.IntN(5) {
			v := GenVal(c.Rand, 3, o)
			vals = append(vals, v)
			l.L = append(l.L, v)
			m[fmt.Sprint(i)] = v
		}
		var rl []bencode.RawMessage
		var rp []*bencode.RawMessage
		rm := map[string]bencode.RawMessage{}
		var cl []capture
		var cm map[string]*capture
		texts := [][]byte{l.Text(), l.Text(), VMap(m).Text(), l.Text(), VMap(m).Text()}
		for i, dst := range []any{&rl, &rp, &rm, &cl, &cm} {
			if err := bencode.Unmarshal(texts[i], dst); err != nil {
				c.Fail("decode-error", "%s: %v", clip(l.Text()), err)
			}
			scribble(texts[i]) // what was captured is a copy
		}
		if len(rl) != len(vals) || len(rp) != len(vals) || len(rm) != len(vals) || len(cl) != len(vals) || len(cm) != len(vals) {
			c.Fail("count", "%s: %d elements", clip(l.Text()), len(rl))
		}
		for i, v := range vals {
			for _, got := range [][]byte{rl[i], *rp[i], rm[fmt.Sprint(i)], cl[i].b, cm[fmt.Sprint(i)].b} {
				if !bytes.Equal(got, v.Text()) {
					c.Fail("capture", "element %d of %s is captured as %s", i, clip(l.Text()), clip(got))
				}
			}
		}
		for _, x := range []struct {
			v    any
			want []byte
		}{{rl, l.Text()}, {rp, l.Text()}, {rm, VMap(m).Text()}} {
			if got, err := bencode.Marshal(x.v); err != nil || !bytes.Equal(got, x.want) {
				c.Fail("re-encode", "%T: %s, %v; want %s", x.v, clip(got), err, clip(x.want))
			}
		}
		c.SeenBytes(l.Text())
	})
	r.Cases("top", r.N(20000, 400000), func(c *vk.Case) {
		var all []byte
		var vals []*Val
		for range 1 + c.IntN(4) {
			v := GenVal(c.Rand, 4, o)
			vals = append(vals, v)
			all = v.Append(all)
		}
		rd, how := GenReader(c.Rand, bytes.Clone(all), io.EOF)
		d := bencode.NewDecoder(rd)
		raws := make([]bencode.RawMessage, len(vals))
		for i := range vals {
			if err := d.Decode(&raws[i]); err != nil {
				c.Fail("decode-error", "value %d of %s (%s): %v", i, clip(all), how, err)
			}
		}
		for i, v := range vals {
			if !bytes.Equal(raws[i], v.Text()) {
				c.Fail("capture", "value %d of %s is captured as %s (%s)", i, clip(all), clip(raws[i]), how)
			}
		}
		c.SeenBytes(all)
	})
	// Malformed values are not captured or skipped
	r.Cases("malformed", r.N(40000, 800000), func(c *vk.Case) {
		data := mutate(c.Rand, GenVal(c.Rand, 3, o).Text())
		v, n, verdict := Parse(data)
		var raw bencode.RawMessage
		err := bencode.Unmarshal(data, &raw)
		if verdict == Accept && err != nil {
			c.Fail("rejects-well-formed", "raw %s: %v", clip(data), err)
		}
		if verdict == Reject && err == nil {
			c.Fail("accepts-malformed", "raw %s is captured as %s", clip(data), clip(raw))
		}
		if err == nil && !bytes.Equal(raw, data[:n]) {
			c.Fail("capture", "%s is captured as %s, want %s", clip(data), clip(raw), clip(data[:n]))
		}
		wrapped := append(append([]byte("d1:x"), data...), "1:zi7ee"...)
		wv, wn, wverdict := Parse(wrapped)
		var h struct{ Z int }
		err = bencode.Unmarshal(wrapped, &h)
		if wverdict == Accept && wn == len(wrapped) && wv.Get("z") != nil && wv.Get("z").K == 'i' && wv.Get("z").I.IsInt64() {
			if err != nil || int64(h.Z) != wv.Get("z").I.Int64() {
				c.Fail("skip", "%s: %v, z=%d", clip(wrapped), err, h.Z)
			}
		}
		if wverdict == Reject && err == nil {
			c.Fail("skip-malformed", "%s is accepted, z=%d", clip(wrapped), h.Z)
		}
		_ = v
		c.SeenBytes(data)
	})
}

func TestB06(t *testing.T) {
	r := vk.Start(t, "B06", "sequences of values decoded through readers that split the stream in every way (one byte, random, empty reads, errors with or after the last bytes, every buffer size) and cut or failing at each position; encoders on writers failing at each position; non-trivial: distinct streams")
	wideStreams(r)
	r.Cases("split", r.N(20000, 400000), func(c *vk.Case) {
		var all []byte
		var vals []*Val
		for range c.IntN(6) {
			sm := 30
			if c.IntN(20) == 0 {
				sm = 70000
			}
			v := GenVal(c.Rand, 3, GenOpt{StrMax: sm})
			vals = append(vals, v)
			all = v.Append(all)
		}
		end := io.EOF
		if c.IntN(3) == 0 {
			end = errInjected
		}
		cr, how := GenReader(c.Rand, bytes.Clone(all), end)
		var rd io.Reader = cr
		if c.IntN(3) == 0 {
			rd = bufio.NewReaderSize(cr, 16+c.IntN(200))
		}
		d := bencode.NewDecoder(rd)
		for i, v := range vals {
			var x any
			if err := d.Decode(&x); err != nil {
				c.Fail("decode-error", "value %d of %s (%s): %v", i, clip(all), how, err)
			}
			if !v.EqualAny(x) {
				c.Fail("value", "value %d of %s (%s) decodes as %#v", i, clip(all), how, x)
			}
		}
		for range 3 {
			var x any
			if err := d.Decode(&x); !errors.Is(err, end) {
				c.Fail("end", "after the last value of %s (%s): %v, want %v; value %#v", clip(all), how, err, end, x)
			}
		}
		c.SeenBytes(all)
		c.Count("reads", cr.reads)
		c.Sample("%d values, %d reads, %s", len(vals), cr.reads, how)
	})
	// A decoder reads no further from a buffered reader than its value: others go on there
	r.Cases("shared", r.N(10000, 200000), func(c *vk.Case) {
		var all []byte
		var vals []*Val
		for range 1 + c.IntN(6) {
			v := GenVal(c.Rand, 3, GenOpt{StrMax: []int{5, 30, 400}[c.IntN(3)]})
			vals = append(vals, v)
			all = v.Append(all)
		}
		all = append(all, "after"...)
		cr, how := GenReader(c.Rand, bytes.Clone(all), io.EOF)
		size := 16 + c.IntN(1<<c.IntN(14))
		br := bufio.NewReaderSize(cr, size)
		var d *bencode.Decoder
		for i, v := range vals {
			if d == nil || c.IntN(3) > 0 {
				d = bencode.NewDecoder(br)
			}
			var x any
			if err := d.Decode(&x); err != nil || !v.EqualAny(x) {
				c.Fail("shared", "value %d of %s, through a shared buffer of %d (%s): %#v, %v", i, clip(all), size, how, x, err)
			}
		}
		if rest, err := io.ReadAll(br); err != nil || string(rest) != "after" {
			c.Fail("shared", "after the values of %s, a shared buffer of %d holds %q, %v (%s)", clip(all), size, rest, err, how)
		}
		c.SeenBytes(all)
	})
	r.Cases("typed", r.N(10000, 200000), func(c *vk.Case) {
		typ := GenType(c.Rand, 3, true, typeOpt{methods: true, anys: true})
		p := reflect.New(typ)
		GenValue(c.Rand, p.Elem(), true)
		data, err := bencode.Marshal(p.Interface())
		if err != nil {
			c.Skip()
		}
		whole := reflect.New(typ)
		werr := bencode.Unmarshal(data, whole.Interface())
		rd, how := GenReader(c.Rand, append(bytes.Clone(data), "i42e"...), io.EOF)
		d := bencode.NewDecoder(rd)
		q := reflect.New(typ)
		err = d.Decode(q.Interface())
		if (err == nil) != (werr == nil) || err == nil && !EqualRT(whole.Elem(), q.Elem()) {
			c.Fail("typed", "%s into %s (%s): %v and %v", clip(data), typ, how, err, werr)
		}
		var i int
		if err := d.Decode(&i); err != nil || i != 42 {
			c.Fail("position", "%s into %s (%s): next %d, %v", clip(data), typ, how, i, err)
		}
		c.SeenBytes(data)
	})
	r.Cases("cut", r.N(1500, 30000), func(c *vk.Case) {
		v := GenVal(c.Rand, 3, GenOpt{StrMax: 30})
		data := v.Text()
		for n := range len(data) {
			for _, dst := range []any{new(any), new(bencode.RawMessage), new(struct{ X int })} {
				if _, ok := dst.(*struct{ X int }); ok && v.K != 'd' {
					continue
				}
				cr, how := GenReader(c.Rand, bytes.Clone(data[:n]), errInjected)
				if err := bencode.NewDecoder(cr).Decode(dst); !errors.Is(err, errInjected) {
					// A typed decode may fail for the types before it gets there
					if _, ok := dst.(*struct{ X int }); ok && err != nil {
						continue
					}
					c.Fail("error-hidden", "%s failing after %d bytes (%s) into %T: %v", clip(data), n, how, dst, err)
				}
				cr, how = GenReader(c.Rand, bytes.Clone(data[:n]), io.EOF)
				if err := bencode.NewDecoder(cr).Decode(dst); err == nil {
					c.Fail("cut-accepted", "%s ending after %d bytes (%s) into %T", clip(data), n, how, dst)
				}
				c.Evals(2)
			}
		}
		c.SeenBytes(data)
		c.Count("cut_positions", len(data))
	})
	r.Cases("encode-stream", r.N(8000, 100000), func(c *vk.Case) {
		var want, got bytes.Buffer
		e := bencode.NewEncoder(plainWriter{&got})
		for range 1 + c.IntN(5) {
			typ := GenType(c.Rand, 3, true, typeOpt{methods: true, anys: true})
			p := reflect.New(typ)
			GenValue(c.Rand, p.Elem(), true)
			want.Write(RefEncode(nil, p.Elem()))
			if err := e.Encode(p.Interface()); err != nil {
				c.Fail("encode-error", "%s: %v", typ, err)
			}
			if !bytes.Equal(got.Bytes(), want.Bytes()) {
				c.Fail("encode-stream", "%s\nwant %s", clip(got.Bytes()), clip(want.Bytes()))
			}
		}
		c.SeenBytes(want.Bytes())
	})
	r.Cases("write-error", r.N(600, 10000), func(c *vk.Case) {
		typ := GenType(c.Rand, 3, true, typeOpt{methods: true, anys: true})
		p := reflect.New(typ)
		GenValue(c.Rand, p.Elem(), true)
		want := RefEncode(nil, p.Elem())
		for n := range len(want) {
			w := &failWriter{n: n, err: errInjected}
			if err := bencode.NewEncoder(w).Encode(p.Interface()); !errors.Is(err, errInjected) {
				c.Fail("write-error-hidden", "%s: writer failing after %d bytes: %v", typ, n, err)
			}
			if !bytes.HasPrefix(want, w.buf.Bytes()) {
				c.Fail("write-prefix", "%s: writer failing after %d bytes holds %s", typ, n, clip(w.buf.Bytes()))
			}
			c.Evals(1)
		}
		c.SeenBytes(want)
		c.Count("write_error_positions", len(want))
	})
}

func TestB07(t *testing.T) {
	r := vk.Start(t, "B07", "rounds of goroutines encoding and decoding values of fresh types (never seen by the field cache) and shared ones at once, under the race detector; every result compared with the reference; non-trivial: distinct types raced on")
	r.Cases("round", r.N(120, 3000), func(c *vk.Case) {
		type job struct {
			typ  reflect.Type
			p    reflect.Value
			want []byte
		}
		var jobs []job
		for range 4 {
			typ := GenStruct(c.Rand, 3, true, typeOpt{methods: true, anys: true, embed: true})
			p := reflect.New(typ)
			GenValue(c.Rand, p.Elem(), true)
			jobs = append(jobs, job{typ, p, RefEncode(nil, p.Elem())})
			c.Seen(typ.String())
			c.Sample("%s", typ)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range 8 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				c.Protect(func() {
					for k := range 12 {
						j := jobs[(g/2+k)%len(jobs)]
						if (g+k)%2 == 0 {
							got, err := bencode.Marshal(j.p.Interface())
							if err != nil || !bytes.Equal(got, j.want) {
								c.Report("encode-differs", fmt.Sprintf("%s: %s, %v; want %s", j.typ, clip(got), err, clip(j.want)))
							}
						} else {
							q := reflect.New(j.typ)
							err := bencode.Unmarshal(j.want, q.Interface())
							if err != nil || !EqualRT(j.p.Elem(), q.Elem()) {
								c.Report("decode-differs", fmt.Sprintf("%s: %s: %v", j.typ, clip(j.want), err))
							}
						}
					}
				})
			}()
		}
		close(start)
		wg.Wait()
		c.Evals(8 * 12)
		c.Count("concurrent_calls", 8*12)
	})
}
