package codec

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/browles/drip/bencode"
	"verif/harness/vk"
)

type base1 struct {
	Name string
	Only int
}
type base2 struct {
	Name string `bencode:"name"`
	Two  int
}
type base3 struct{ NAME string }
type Base4 struct{ Name string }
type hidden struct{ Shown, inner int }
type Deep struct{ Mid }
type Mid struct{ Leaf }
type Leaf struct {
	X int
	Y int `bencode:"why"`
}
type named string

// Declared types for what reflect.StructOf cannot build: unexported fields and
// unexported embedded types.
func declared() []any {
	return []any{
		&struct {
			base1
			base2
		}{}, &struct {
			base2
			base1
		}{}, &struct {
			base1
			base3
			base2
		}{}, &struct {
			base1
			base3
		}{}, &struct {
			Name int
			base2
			base1
		}{}, &struct{ hidden }{}, &struct{ Deep }{}, &struct {
			Deep
			X string
		}{}, &struct {
			*Deep
			Y string
		}{}, &struct {
			Base4 `bencode:"inner"`
			Name  string
		}{}, &struct {
			*Base4
			base1
		}{}, &struct {
			a, B int
			c    string
			D    []byte
			_    int
		}{}, &struct {
			A int `bencode:"-"`
			B int `bencode:"-,"`
			C int `bencode:",omitempty"`
			D int `bencode:"D,other,omitempty"`
		}{}, &struct {
			named
			Mid
			Deep
		}{}, &struct {
			Aa int
			AA int
			B  int
		}{}, &struct {
			X int `bencode:"k"`
			Y int `bencode:"K"`
			Z int
		}{}, &struct {
			X int `bencode:"z"`
			Z int
		}{},
	}
}

func fillFields(v reflect.Value, n *int) {
	switch v.Kind() {
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Field(i).CanSet() || v.Type().Field(i).Anonymous {
				fillFields(v.Field(i), n)
			}
		}
	case reflect.Pointer:
		if v.CanSet() {
			v.Set(reflect.New(v.Type().Elem()))
			fillFields(v.Elem(), n)
		}
	case reflect.Int:
		if v.CanSet() {
			*n++
			v.SetInt(int64(*n))
		}
	case reflect.String:
		if v.CanSet() {
			*n++
			v.SetString(fmt.Sprint("s", *n))
		}
	case reflect.Slice:
		if v.CanSet() {
			*n++
			v.SetBytes([]byte(fmt.Sprint("b", *n)))
		}
	}
}

func keysOf(t reflect.Type) []string {
	var ks []string
	for _, f := range refFields(t) {
		ks = append(ks, f.key)
	}
	return ks
}

func TestB08(t *testing.T) {
	r := vk.Start(t, "B08", "random struct types (tags, omitempty, embedding by value and pointer, name conflicts at several depths) and declared ones with unexported parts; keys written and keys read compared with the rules stated independently; non-trivial: distinct types with at least one field")
	check := func(c *vk.Case, p reflect.Value) {
		typ := p.Type().Elem()
		want := RefEncode(nil, p.Elem())
		got, err := bencode.Marshal(p.Interface())
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("encode-keys", "%s\n got %s, %v\nwant %s", typ, clip(got), err, clip(want))
		}
		// A dictionary with every key the rules give, and every name as it is spelled
		m := map[string]*Val{}
		for _, f := range refFields(typ) {
			m[f.key] = GenFor(c.Rand, f.typ, 0)
		}
		extra := 0
		for _, k := range append(append([]string{}, fieldNames...), tagNames...) {
			for _, k := range []string{k, strings.ToLower(k)} {
				if m[k] == nil && c.IntN(3) > 0 {
					m[k] = VStr("unknown")
					extra++
				}
			}
		}
		v := VMap(m)
		q := reflect.New(typ)
		if err := bencode.Unmarshal(v.Text(), q.Interface()); err == nil && !Denotes(v, q.Elem()) {
			c.Fail("decode-keys", "%s\nfrom %s\n got %+v", typ, clip(v.Text()), q.Elem())
		} else if err != nil {
			// The unknown keys must not be what is refused
			for _, k := range v.Keys {
				if m[k].K == 's' && m[k].S == "unknown" {
					delete(m, k)
				}
			}
			if bencode.Unmarshal(VMap(m).Text(), reflect.New(typ).Interface()) == nil {
				c.Fail("unknown-key-refused", "%s\nfrom %s: %v", typ, clip(v.Text()), err)
			}
		}
		c.Count("keys", len(m))
		if typ.NumField() > 0 {
			c.Seen(typ.String())
		}
	}
	r.Cases("random", r.N(40000, 800000), func(c *vk.Case) {
		typ := GenStruct(c.Rand, 3, true, typeOpt{embed: true, anys: true})
		p := reflect.New(typ)
		GenValue(c.Rand, p.Elem(), true)
		check(c, p)
		c.Sample("%s keys %q", typ, keysOf(typ))
	})
	r.Cases("declared", len(declared())*20, func(c *vk.Case) {
		p := reflect.ValueOf(declared()[c.Index%len(declared())])
		n := 0
		fillFields(p.Elem(), &n)
		// Unexported embedded structs cannot be read back through reflection by
		// the oracle's GenFor path unless they are reachable; keys are.
		typ := p.Type().Elem()
		got, err := bencode.Marshal(p.Interface())
		want := RefEncode(nil, p.Elem())
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("encode-keys", "%s\n got %s, %v\nwant %s", typ, clip(got), err, clip(want))
		}
		q := reflect.New(typ)
		if err := bencode.Unmarshal(want, q.Interface()); err != nil {
			c.Fail("decode-keys", "%s: %v", typ, err)
		}
		again, err := bencode.Marshal(q.Interface())
		if err != nil || !bytes.Equal(again, want) {
			c.Fail("decode-keys", "%s: comes back as %s, %v; want %s", typ, clip(again), err, clip(want))
		}
		c.Seen(typ.String())
		c.Count("declared_keys", len(refFields(typ)))
	})
}
