package codec

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/api/tracker"
	"github.com/browles/drip/bencode"

	"verif/harness/vk"
)

// Values with very many elements: no limit on nesting, and nothing kept per element,
// may add up over them.

func wideCount(c *vk.Case) int { return 10001 + c.IntN(12000) }

func small(c *vk.Case, o GenOpt) *Val {
	if c.IntN(3) > 0 {
		return VInt(int64(c.IntN(100)))
	}
	return GenVal(c.Rand, 2, GenOpt{StrMax: 6, Big: o.Big})
}

func wideVal(c *vk.Case, o GenOpt) *Val {
	n := wideCount(c)
	var v *Val
	if c.IntN(2) == 0 {
		v = VList()
		for range n {
			v.L = append(v.L, small(c, o))
		}
	} else {
		m := make(map[string]*Val, n)
		for i := range n {
			m[fmt.Sprint(i)] = small(c, o)
		}
		v = VMap(m)
	}
	for range c.IntN(3) {
		v = []*Val{VList(v), VDict("k", v), VList(VInt(1), v, VStr("x"))}[c.IntN(3)]
	}
	return v
}

func wideRoundTrip(r *vk.Run) {
	r.Cases("wide", r.N(60, 2000), func(c *vk.Case) {
		n := wideCount(c)
		type item struct {
			A int
			B []string `bencode:",omitempty"`
			C *item    `bencode:",omitempty"`
		}
		var in any
		switch c.Index % 7 {
		case 0:
			l := make([]int, n)
			for i := range l {
				l[i] = c.Int() >> c.IntN(60)
			}
			in = &l
		case 1:
			l := make([]string, n)
			for i := range l {
				l[i] = string(GenBytes(c.Rand, 5))
			}
			in = &l
		case 2:
			l := make([][]int8, n)
			for i := range l {
				l[i] = []int8{int8(i), -1}
			}
			in = &l
		case 3:
			m := map[string][]string{}
			for i := range n {
				m[fmt.Sprint(i)] = []string{"x"}
			}
			in = &m
		case 4:
			l := make([]item, n)
			for i := range l {
				l[i] = item{A: i, C: &item{A: -i, B: []string{"b"}}}
			}
			in = &l
		case 5:
			l := make([]*item, n)
			for i := range l {
				l[i] = &item{A: i}
			}
			in = &l
		case 6:
			l := make([]metainfo.File, n)
			for i := range l {
				l[i] = metainfo.File{Length: int64(i), Path: []string{"a", fmt.Sprint(i)}}
			}
			in = &l
		}
		out := reflect.New(reflect.TypeOf(in).Elem())
		data, err := bencode.Marshal(in)
		if err != nil {
			c.Fail("encode-error", "%T of %d elements: %v", in, n, err)
		}
		if err := bencode.Unmarshal(data, out.Interface()); err != nil {
			c.Fail("decode-error", "%T of %d elements: %v", in, n, err)
		}
		if !reflect.DeepEqual(in, out.Interface()) {
			c.Fail("round-trip", "%T of %d elements differs", in, n)
		}
		text := wideVal(c, GenOpt{}).Text()
		var x any
		err = bencode.Unmarshal(text, &x)
		var again []byte
		if err == nil {
			again, err = bencode.Marshal(x)
		}
		if err != nil || !bytes.Equal(again, text) {
			c.Fail("text-round-trip", "%s comes back as %s, %v", clip(text), clip(again), err)
		}
		c.Evals(2)
		c.Max("max_elements", n)
		c.SeenBytes(data)
	})
}

func wideParse(r *vk.Run) {
	r.Cases("wide", r.N(60, 2000), func(c *vk.Case) {
		v := wideVal(c, GenOpt{})
		var x any
		if err := bencode.Unmarshal(v.Text(), &x); err != nil || !v.EqualAny(x) {
			c.Fail("rejects-well-formed", "%s of %d bytes: %v", clip(v.Text()), len(v.Text()), err)
		}
		c.SeenBytes(v.Text())
	})
}

func wideRaw(r *vk.Run) {
	r.Cases("wide", r.N(60, 2000), func(c *vk.Case) {
		v := wideVal(c, GenOpt{Big: true})
		data := VDict("a", VInt(1), "m", v, "r", v, "z", VStr("end")).Text()
		rd, how := GenReader(c.Rand, append(bytes.Clone(data), "i5e"...), io.EOF)
		d := bencode.NewDecoder(rd)
		var h rawHolder
		if err := d.Decode(&h); err != nil || h.A != 1 || h.Z != "end" {
			c.Fail("wide", "%s (%s): %v", clip(data), how, err)
		}
		if !bytes.Equal(h.R, v.Text()) {
			c.Fail("capture", "%s: captured %s", clip(data), clip(h.R))
		}
		var n int
		if err := d.Decode(&n); err != nil || n != 5 {
			c.Fail("position", "%s (%s): after it %d, %v", clip(data), how, n, err)
		}
		c.SeenBytes(data)
	})
}

func wideStreams(r *vk.Run) {
	r.Cases("long", r.N(24, 800), func(c *vk.Case) {
		var all []byte
		var vals []*Val
		for range wideCount(c) {
			v := small(c, GenOpt{})
			vals = append(vals, v)
			all = v.Append(all)
		}
		rd, how := GenReader(c.Rand, bytes.Clone(all), io.EOF)
		d := bencode.NewDecoder(rd)
		var out bytes.Buffer
		e := bencode.NewEncoder(&out)
		mode := c.IntN(3)
		for i, v := range vals {
			var x any
			var raw bencode.RawMessage
			var err error
			if mode == 0 || mode == 1 && i%2 == 0 {
				if err = d.Decode(&x); err == nil && !v.EqualAny(x) {
					c.Fail("value", "value %d of %d, %s, decodes as %#v (%s)", i, len(vals), clip(v.Text()), x, how)
				}
				if err == nil {
					err = e.Encode(x)
				}
			} else {
				if err = d.Decode(&raw); err == nil && !bytes.Equal(raw, v.Text()) {
					c.Fail("value", "value %d of %d, %s, is captured as %s (%s)", i, len(vals), clip(v.Text()), clip(raw), how)
				}
				if err == nil {
					err = e.Encode(raw)
				}
			}
			if err != nil {
				c.Fail("stream-error", "value %d of %d, %s: %v (%s)", i, len(vals), clip(v.Text()), err, how)
			}
		}
		if !bytes.Equal(out.Bytes(), all) {
			c.Fail("encode-stream", "%d values come back as other bytes", len(vals))
		}
		c.Evals(len(vals))
		c.Max("max_values_on_one_stream", len(vals))
		c.SeenBytes(all)
	})
}

func wideMetainfo(r *vk.Run) {
	r.Cases("wide", r.N(24, 800), func(c *vk.Case) {
		n := wideCount(c)
		mi := &metainfo.Metainfo{Info: &metainfo.Info{Name: "wide", PieceLength: 1 << 14}}
		var total int64
		for i := range n {
			l := int64(c.IntN(3000))
			total += l
			mi.Info.Files = append(mi.Info.Files, &metainfo.File{Length: l, Path: []string{fmt.Sprint(i % 7), fmt.Sprint(i)}})
		}
		mi.Info.Pieces = make(metainfo.Pieces, max(1, (total+1<<14-1)>>14))
		for i := range mi.Info.Pieces {
			fill(c.Rand, mi.Info.Pieces[i][:])
		}
		for i := range c.IntN(2) * n {
			mi.AnnounceList = append(mi.AnnounceList, []string{fmt.Sprint("http://", i)})
		}
		var got metainfo.Metainfo
		data, err := bencode.Marshal(mi)
		if err == nil {
			err = bencode.Unmarshal(data, &got)
		}
		if err != nil {
			c.Fail("wide", "%d files: %v", n, err)
		}
		if !reflect.DeepEqual(got.Info.Files, mi.Info.Files) || !reflect.DeepEqual(got.Info.Pieces, mi.Info.Pieces) || len(got.AnnounceList) != len(mi.AnnounceList) || got.Info.GetLength() != total {
			c.Fail("wide", "%d files come back as %d, %d pieces as %d, length %d as %d", n, len(got.Info.Files), len(mi.Info.Pieces), len(got.Info.Pieces), total, got.Info.GetLength())
		}
		c.Max("max_files", n)
		c.SeenBytes(data)
	})
}

func wideResponse(r *vk.Run) {
	r.Cases("wide", r.N(24, 800), func(c *vk.Case) {
		n := wideCount(c)
		rs := &tracker.Response{Interval: 30, Peers: &tracker.Peers{Compact: c.Index%2 == 0}}
		for range n {
			rs.Peers.List = append(rs.Peers.List, genPeer(c, rs.Peers.Compact))
		}
		var got tracker.Response
		data, err := bencode.Marshal(rs)
		if err == nil {
			err = bencode.Unmarshal(data, &got)
		}
		if err != nil || got.Peers == nil || len(got.Peers.List) != n {
			c.Fail("wide", "%d peers, compact=%v: %v", n, rs.Peers.Compact, err)
		}
		for i, p := range rs.Peers.List {
			q := got.Peers.List[i]
			if p.IP != q.IP || p.Port != q.Port || !rs.Peers.Compact && p.ID != q.ID {
				c.Fail("wide", "peer %d of %d: %+v comes back as %+v", i, n, p, q)
			}
		}
		c.SeenBytes(data)
	})
}
