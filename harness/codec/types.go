package codec

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/browles/drip/bencode"
)

// Types of the palette with methods of their own.

type MyStr string
type MyInt int32
type MyUint uint16
type MyBytes []byte

// VM marshals by value, as a dictionary of its own making.
type VM struct{ S string }

func (v VM) MarshalBencoding() ([]byte, error) { return VDict("vm", VStr(v.S)).Text(), nil }
func (v *VM) UnmarshalBencoding(b []byte) error {
	x, n, verdict := Parse(b)
	if verdict != Accept || n != len(b) || x.K != 'd' || x.Get("vm") == nil {
		return fmt.Errorf("VM: not what was marshaled: %q", b)
	}
	v.S = x.Get("vm").S
	return nil
}

// PM marshals by pointer, as an integer.
type PM struct{ N int64 }

func (p *PM) MarshalBencoding() ([]byte, error) { return VInt(p.N).Text(), nil }
func (p *PM) UnmarshalBencoding(b []byte) error {
	x, n, verdict := Parse(b)
	if verdict != Accept || n != len(b) || x.K != 'i' {
		return fmt.Errorf("PM: not what was marshaled: %q", b)
	}
	if !x.I.IsInt64() {
		return fmt.Errorf("PM: out of range: %q", b)
	}
	p.N = x.I.Int64()
	return nil
}

var (
	anyT    = reflect.TypeFor[any]()
	bytesT  = reflect.TypeFor[[]byte]()
	rawT    = reflect.TypeFor[bencode.RawMessage]()
	vmT     = reflect.TypeFor[VM]()
	pmT     = reflect.TypeFor[PM]()
	marshT  = reflect.TypeFor[bencode.Marshaler]()
	scalars = []reflect.Type{
		reflect.TypeFor[string](), reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int16](), reflect.TypeFor[int32](), reflect.TypeFor[int64](),
		reflect.TypeFor[uint](), reflect.TypeFor[uint8](), reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64](),
		bytesT, reflect.TypeFor[MyStr](), reflect.TypeFor[MyInt](), reflect.TypeFor[MyUint](), reflect.TypeFor[MyBytes](),
	}
)

type typeOpt struct {
	methods bool // palette types with marshalers
	anys    bool
	embed   bool
}

var uniq atomic.Int64

var fieldNames = []string{"A", "B", "C", "Ab", "AB", "Foo", "FOO", "Bar", "Length", "Z9", "Name", "ID", "Peers"}
var tagNames = []string{"a", "b", "ab", "foo", "Foo", "bar", "length", "piece length", "peer id", "z9", "name", "z", "0", "a.b", "_", "é", "info", "A", "~"}

// GenType makes a static type. addr says whether values of it will be addressable
// when encoded.
func GenType(r *rand.Rand, depth int, addr bool, o typeOpt) reflect.Type {
	k := r.IntN(14)
	if depth <= 0 {
		k = r.IntN(6)
	}
	switch {
	case k < 4:
		return scalars[r.IntN(len(scalars))]
	case k == 4:
		if o.methods {
			switch r.IntN(4) {
			case 0:
				return rawT
			case 1:
				return vmT
			case 2:
				return reflect.PointerTo(vmT)
			default:
				if addr {
					return pmT
				}
				return reflect.PointerTo(pmT)
			}
		}
		return scalars[r.IntN(len(scalars))]
	case k == 5:
		if o.anys {
			return anyT
		}
		return scalars[r.IntN(len(scalars))]
	case k < 8:
		return reflect.SliceOf(GenType(r, depth-1, true, o))
	case k == 8:
		return reflect.ArrayOf(r.IntN(4), GenType(r, depth-1, addr, o))
	case k == 9 || k == 10:
		kt := reflect.TypeFor[string]()
		if r.IntN(3) == 0 {
			kt = reflect.TypeFor[MyStr]()
		}
		return reflect.MapOf(kt, GenType(r, depth-1, false, o))
	case k == 11:
		return reflect.PointerTo(GenType(r, depth-1, true, o))
	default:
		return GenStruct(r, depth, addr, o)
	}
}

func GenStruct(r *rand.Rand, depth int, addr bool, o typeOpt) reflect.Type {
	var fs []reflect.StructField
	used := map[string]bool{}
	n := r.IntN(6)
	for range n {
		name := fieldNames[r.IntN(len(fieldNames))]
		if used[name] {
			continue
		}
		used[name] = true
		f := reflect.StructField{Name: name}
		embed := o.embed && depth > 0 && r.IntN(3) == 0
		if embed {
			f.Type = GenStruct(r, depth-1, addr, o)
			f.Anonymous = true
			if r.IntN(3) == 0 {
				f.Type = reflect.PointerTo(f.Type)
			}
		} else if o.embed && depth > 0 && r.IntN(2) == 0 {
			f.Type = scalars[r.IntN(len(scalars))]
		} else {
			f.Type = GenType(r, depth-1, addr, o)
		}
		switch r.IntN(10) {
		case 0:
			f.Tag = `bencode:"-"`
		case 1, 2, 3:
			if !embed || r.IntN(4) == 0 {
				f.Tag = reflect.StructTag("bencode:" + strconv.Quote(tagNames[r.IntN(len(tagNames))]))
			}
		case 4, 5:
			if !embed || r.IntN(4) == 0 {
				f.Tag = reflect.StructTag("bencode:" + strconv.Quote(tagNames[r.IntN(len(tagNames))]+",omitempty"))
			}
		case 6:
			f.Tag = `bencode:",omitempty"`
		case 7:
			f.Tag = `json:"other"`
		}
		fs = append(fs, f)
	}
	if o.embed {
		// No two embedded types are identical
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Uniq%d", uniq.Add(1)), Type: reflect.TypeFor[int]()})
	}
	return reflect.StructOf(fs)
}

// fullMaps keeps values without an encoding out of maps: they do not come back.
var fullMaps bool

// GenValue fills v. inList: no value without an encoding may appear.
func GenValue(r *rand.Rand, v reflect.Value, inList bool) {
	t := v.Type()
	switch t {
	case rawT:
		if !inList && r.IntN(6) == 0 {
			return
		}
		v.SetBytes(GenVal(r, 2, GenOpt{Big: true}).Text())
		return
	case vmT:
		v.Set(reflect.ValueOf(VM{string(GenBytes(r, 10))}))
		return
	case pmT:
		v.Set(reflect.ValueOf(PM{GenInt(r)}))
		return
	case anyT:
		if !inList && r.IntN(8) == 0 {
			return
		}
		v.Set(reflect.ValueOf(GenVal(r, 2, GenOpt{}).ToAny()))
		return
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(string(GenBytes(r, 60)))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i := GenInt(r)
		for v.OverflowInt(i) {
			i >>= 1
		}
		v.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i := uint64(GenInt(r))
		for v.OverflowUint(i) {
			i >>= 1
		}
		v.SetUint(i)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if !inList && r.IntN(6) == 0 {
				return
			}
			v.SetBytes(GenBytes(r, 60))
			return
		}
		if !inList && r.IntN(6) == 0 {
			return
		}
		n := r.IntN(4)
		v.Set(reflect.MakeSlice(t, n, n+r.IntN(3)))
		for i := range n {
			GenValue(r, v.Index(i), true)
		}
	case reflect.Array:
		for i := range v.Len() {
			GenValue(r, v.Index(i), true)
		}
	case reflect.Map:
		if !inList && r.IntN(6) == 0 {
			return
		}
		v.Set(reflect.MakeMap(t))
		for range r.IntN(6) {
			k := reflect.New(t.Key()).Elem()
			k.SetString(string(GenBytes(r, 8)))
			e := reflect.New(t.Elem()).Elem()
			GenValue(r, e, false)
			for absent(e) && fullMaps {
				GenValue(r, e, false)
			}
			v.SetMapIndex(k, e)
		}
	case reflect.Pointer:
		if !inList && r.IntN(4) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		GenValue(r, p.Elem(), inList || t.Elem() == rawT)
		v.Set(p)
	case reflect.Struct:
		for i := range v.NumField() {
			GenValue(r, v.Field(i), false)
		}
	default:
		panic("GenValue: " + t.String())
	}
}

// --- the reference field rules ---

type refField struct {
	key   string
	index []int
	omit  bool
	typ   reflect.Type
}

type cand struct {
	refField
	tagged bool
}

// refFields states the rules anew: collect every candidate of every depth, then
// decide each key on its own.
func refFields(t reflect.Type) []refField {
	var cands []cand
	var walk func(t reflect.Type, index []int)
	walk = func(t reflect.Type, index []int) {
		for i := range t.NumField() {
			f := t.Field(i)
			ft := f.Type
			if ft.Kind() == reflect.Pointer && f.Anonymous {
				ft = ft.Elem()
			}
			if !f.IsExported() && !(f.Anonymous && ft.Kind() == reflect.Struct) {
				continue
			}
			tag := f.Tag.Get("bencode")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := strings.ToLower(parts[0])
			omit := false
			for _, p := range parts[1:] {
				omit = omit || p == "omitempty"
			}
			idx := append(append([]int{}, index...), i)
			if f.Anonymous && name == "" && ft.Kind() == reflect.Struct {
				walk(ft, idx)
				continue
			}
			c := cand{refField{name, idx, omit, f.Type}, name != ""}
			if name == "" {
				c.key = strings.ToLower(f.Name)
			}
			cands = append(cands, c)
		}
	}
	walk(t, nil)
	byKey := map[string][]cand{}
	for _, c := range cands {
		byKey[c.key] = append(byKey[c.key], c)
	}
	var res []refField
	for _, cs := range byKey {
		depth := len(cs[0].index)
		for _, c := range cs {
			depth = min(depth, len(c.index))
		}
		var top, tagged []cand
		for _, c := range cs {
			if len(c.index) == depth {
				top = append(top, c)
				if c.tagged {
					tagged = append(tagged, c)
				}
			}
		}
		if len(top) == 1 {
			res = append(res, top[0].refField)
		} else if len(tagged) == 1 {
			res = append(res, tagged[0].refField)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].key < res[j].key })
	return res
}

func reach(v reflect.Value, index []int) (reflect.Value, bool) {
	for _, i := range index {
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return reflect.Value{}, false
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, true
}

// absent: the value has no encoding.
func absent(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return true
		}
		if v.Type().Implements(marshT) {
			return false
		}
		return absent(v.Elem())
	case reflect.Interface:
		return v.IsNil() || absent(v.Elem())
	case reflect.Slice, reflect.Map:
		return v.IsNil()
	}
	return false
}

func empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

func omitted(v reflect.Value, f refField) bool {
	fv, ok := reach(v, f.index)
	return !ok || absent(fv) || f.omit && empty(fv)
}

// RefEncode encodes by the rules of the property, independently of the encoder.
func RefEncode(b []byte, v reflect.Value) []byte {
	t := v.Type()
	switch t {
	case rawT:
		return append(b, v.Bytes()...)
	case vmT:
		return VDict("vm", VStr(v.Field(0).String())).Append(b)
	case pmT:
		return VInt(v.Field(0).Int()).Append(b)
	}
	switch t.Kind() {
	case reflect.String:
		return VStr(v.String()).Append(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return VInt(v.Int()).Append(b)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return append(append(append(b, 'i'), fmt.Sprint(v.Uint())...), 'e')
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 {
			return VStr(string(v.Bytes())).Append(b)
		}
		b = append(b, 'l')
		for i := range v.Len() {
			b = RefEncode(b, v.Index(i))
		}
		return append(b, 'e')
	case reflect.Map:
		type kv struct {
			k string
			v reflect.Value
		}
		var kvs []kv
		for it := v.MapRange(); it.Next(); {
			if !absent(it.Value()) {
				kvs = append(kvs, kv{it.Key().String(), it.Value()})
			}
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		b = append(b, 'd')
		for _, e := range kvs {
			b = RefEncode(VStr(e.k).Append(b), e.v)
		}
		return append(b, 'e')
	case reflect.Struct:
		b = append(b, 'd')
		for _, f := range refFields(t) {
			if omitted(v, f) {
				continue
			}
			fv, _ := reach(v, f.index)
			b = RefEncode(VStr(f.key).Append(b), fv)
		}
		return append(b, 'e')
	case reflect.Pointer, reflect.Interface:
		return RefEncode(b, v.Elem())
	}
	panic("RefEncode: " + t.String())
}

// EqualRT compares a value with what came back from a round trip: values without
// an encoding are equal, whether nil or empty.
func EqualRT(a, b reflect.Value) bool {
	if absent(a) || absent(b) {
		if absent(a) && absent(b) {
			return true
		}
		return (a.Kind() == reflect.Slice || a.Kind() == reflect.Map) && a.Len() == 0 && b.Len() == 0
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := range a.Len() {
			if !EqualRT(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		n := 0
		for it := a.MapRange(); it.Next(); {
			if absent(it.Value()) {
				continue
			}
			n++
			e := b.MapIndex(it.Key())
			if !e.IsValid() || !EqualRT(it.Value(), e) {
				return false
			}
		}
		return n == b.Len()
	case reflect.Struct:
		if a.Type() == vmT || a.Type() == pmT {
			return a.Interface() == b.Interface()
		}
		for _, f := range refFields(a.Type()) {
			if omitted(a, f) || omitted(b, f) {
				if omitted(a, f) != omitted(b, f) {
					return false
				}
				continue
			}
			fa, _ := reach(a, f.index)
			fb, _ := reach(b, f.index)
			if !EqualRT(fa, fb) {
				return false
			}
		}
		return true
	case reflect.Pointer, reflect.Interface:
		return EqualRT(a.Elem(), b.Elem())
	}
	return a.Interface() == b.Interface()
}

// Denotes checks a decoded typed value against the model: exactly the value, or,
// for a destination that cannot hold all of it, the part the destination defines.
func Denotes(v *Val, x reflect.Value) bool {
	t := x.Type()
	switch t {
	case rawT:
		return string(x.Bytes()) == string(v.Text())
	case vmT:
		return v.K == 'd' && v.Get("vm") != nil && v.Get("vm").S == x.Field(0).String()
	case pmT:
		return v.K == 'i' && v.I.IsInt64() && v.I.Int64() == x.Field(0).Int()
	case anyT:
		return v.EqualAny(x.Interface())
	}
	switch t.Kind() {
	case reflect.String:
		return v.K == 's' && v.S == x.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.K == 'i' && v.I.IsInt64() && v.I.Int64() == x.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.K == 'i' && v.I.IsUint64() && v.I.Uint64() == x.Uint()
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return v.K == 's' && v.S == string(x.Bytes())
		}
		if v.K != 'l' || x.Len() != len(v.L) {
			return false
		}
		for i := range v.L {
			if !Denotes(v.L[i], x.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		if v.K != 'l' {
			return false
		}
		for i := range x.Len() {
			if i < len(v.L) && !Denotes(v.L[i], x.Index(i)) {
				return false
			}
			if i >= len(v.L) && !x.Index(i).IsZero() {
				return false
			}
		}
		return true
	case reflect.Map:
		if v.K != 'd' || x.Len() != len(v.Keys) {
			return false
		}
		for i, k := range v.Keys {
			e := x.MapIndex(reflect.ValueOf(k).Convert(t.Key()))
			if !e.IsValid() || !Denotes(v.D[i], e) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if v.K != 'd' {
			return false
		}
		for _, f := range refFields(t) {
			fv, ok := reach(x, f.index)
			e := v.Get(f.key)
			if e == nil {
				if ok && !fv.IsZero() {
					return false
				}
				continue
			}
			if !ok || !Denotes(e, fv) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		return !x.IsNil() && Denotes(v, x.Elem())
	}
	panic("Denotes: " + t.String())
}
