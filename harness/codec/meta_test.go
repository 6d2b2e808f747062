package codec

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"
	"reflect"
	"testing"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/bencode"
	"verif/harness/vk"
)

// metaCase is a metainfo file with the values it was made from.
type metaCase struct {
	v, info *Val
	multi   bool
	hashes  [][20]byte
	pl      int
	lengths []int64
	sums    []string
	paths   [][]string
	total   int64
	extraI  int // unknown keys in the info dictionary
	extraO  int // and outside
	f       map[string]*Val
}

func genText(c *vk.Case, n int) string { return string(GenBytes(c.Rand, n)) }

// genMeta makes a consistent torrent.
func genMeta(c *vk.Case) *metaCase {
	m := &metaCase{f: map[string]*Val{}}
	m.pl = []int{1, 2, 3, 7, 16, 20, 1024, 16384, 32768, 262144, 1 << 20, 1 << 30}[c.IntN(12)]
	n := c.IntN(6)
	switch c.IntN(8) {
	case 0:
		n = c.IntN(200)
	case 1:
		n = 1
	}
	if n > 0 {
		m.total = int64(n-1)*int64(m.pl) + 1 + c.Int64N(int64(m.pl))
	}
	for range n {
		var h [20]byte
		for i := range h {
			h[i] = "\x00\xff:eild0123abc"[c.IntN(14)]
		}
		if c.IntN(2) == 0 {
			h = sha1.Sum(h[:])
		}
		m.hashes = append(m.hashes, h)
	}
	info := map[string]*Val{"piece length": VInt(int64(m.pl)), "name": VStr(genText(c, 40))}
	var hs []byte
	for _, h := range m.hashes {
		hs = append(hs, h[:]...)
	}
	info["pieces"] = VStr(string(hs))
	m.multi = c.IntN(2) == 0
	if m.multi {
		files := VList()
		left := m.total
		k := 1 + c.IntN(6)
		for i := range k {
			l := left
			if i < k-1 {
				l = c.Int64N(left + 1)
				if c.IntN(3) == 0 {
					l = 0
				}
			}
			left -= l
			var path []string
			pv := VList()
			for range 1 + c.IntN(4) {
				s := genText(c, 20)
				path = append(path, s)
				pv.L = append(pv.L, VStr(s))
			}
			sum := ""
			f := map[string]*Val{"length": VInt(l), "path": pv}
			if c.IntN(3) == 0 {
				sum = fmt.Sprintf("%032x", c.Uint64())
				f["md5sum"] = VStr(sum)
			}
			if c.IntN(4) == 0 {
				f["attr"] = VStr("x")
				f["sha1"] = GenVal(c.Rand, 1, GenOpt{Big: true})
			}
			m.lengths, m.paths, m.sums = append(m.lengths, l), append(m.paths, path), append(m.sums, sum)
			files.L = append(files.L, VMap(f))
		}
		info["files"] = files
	} else {
		info["length"] = VInt(m.total)
		if c.IntN(3) == 0 {
			m.f["md5sum"] = VStr(fmt.Sprintf("%032x", c.Uint64()))
			info["md5sum"] = m.f["md5sum"]
		}
	}
	if c.IntN(3) == 0 {
		m.f["private"] = VInt(int64(c.IntN(3)))
		info["private"] = m.f["private"]
	}
	known := map[string]bool{"piece length": true, "pieces": true, "private": true, "name": true, "length": true, "md5sum": true, "files": true}
	for range c.IntN(4) {
		k := []string{"source", "x_cross_seed", "meta version", "file tree", "", "zz", "A", "Name", "PIECES", "sha1", genText(c, 8)}[c.IntN(11)]
		if !known[k] {
			info[k] = GenVal(c.Rand, 3, GenOpt{Big: true})
			m.extraI++
		}
	}
	m.info = VMap(info)
	top := map[string]*Val{"info": m.info}
	opt := func(k string, v *Val) {
		if c.IntN(3) > 0 {
			top[k], m.f[k] = v, v
		}
	}
	opt("announce", VStr(genText(c, 60)))
	al := VList()
	for range c.IntN(4) {
		tier := VList()
		for range c.IntN(4) {
			tier.L = append(tier.L, VStr(genText(c, 40)))
		}
		al.L = append(al.L, tier)
	}
	opt("announce-list", al)
	opt("creation date", VInt([]int64{0, 1, -1, 1717651912, 1 << 31, 1<<31 - 1, 1 << 32, 253402300800, int64(c.Uint32()), -int64(c.Uint32())}[c.IntN(10)]))
	opt("comment", VStr(genText(c, 60)))
	opt("created by", VStr(genText(c, 30)))
	opt("encoding", VStr(genText(c, 10)))
	for range c.IntN(4) {
		k := []string{"nodes", "url-list", "httpseeds", "", "zz", "INFO", "Info", "info2", "azureus_properties", genText(c, 8)}[c.IntN(10)]
		if top[k] == nil && k != "announce" && k != "announce-list" && k != "comment" && k != "created by" && k != "encoding" && k != "creation date" {
			top[k] = GenVal(c.Rand, 3, GenOpt{Big: true})
			m.extraO++
		}
	}
	m.v = VMap(top)
	return m
}

func TestM01(t *testing.T) {
	r := vk.Start(t, "M01", "generated metainfo files with unknown keys and integers of any size inside and outside of the info dictionary, decoded whole, through split streams, beside changed outsides and with the info dictionary changed in one byte; the hash is compared with SHA-1 over the bytes written; non-trivial: distinct info dictionaries")
	r.Cases("files", r.N(40000, 800000), func(c *vk.Case) {
		m := genMeta(c)
		data := m.v.Text()
		want := sha1.Sum(m.info.Text())
		var mi metainfo.Metainfo
		if err := bencode.Unmarshal(data, &mi); err != nil {
			c.Fail("decode-error", "%s: %v", clip(data), err)
		}
		if mi.Info == nil || mi.Info.SHA1 != want {
			c.Fail("info-hash", "%s: %x, want %x", clip(data), mi.Info.SHA1, want)
		}
		rd, how := GenReader(c.Rand, append(bytes.Clone(data), "i1e"...), io.EOF)
		var mi2 metainfo.Metainfo
		if err := bencode.NewDecoder(rd).Decode(&mi2); err != nil || mi2.Info.SHA1 != want {
			c.Fail("stream", "%s (%s): %v %x, want %x", clip(data), how, err, mi2.Info.SHA1, want)
		}
		var alone metainfo.Info
		if err := bencode.Unmarshal(m.info.Text(), &alone); err != nil || alone.SHA1 != want {
			c.Fail("alone", "%s: %v %x, want %x", clip(m.info.Text()), err, alone.SHA1, want)
		}
		// The same info dictionary in another file, decoded into a used variable
		other := VDict("info", m.info, "announce", VStr(genText(c, 30)), "aaa", GenVal(c.Rand, 2, GenOpt{Big: true}), "zzz", GenVal(c.Rand, 2, GenOpt{Big: true}))
		if err := bencode.Unmarshal(other.Text(), &mi2); err != nil || mi2.Info.SHA1 != want {
			c.Fail("outside", "%s: %v %x, want %x", clip(other.Text()), err, mi2.Info.SHA1, want)
		}
		// Another info dictionary into the same variable
		m3 := genMeta(c)
		if err := bencode.Unmarshal(m3.v.Text(), &mi2); err != nil || mi2.Info.SHA1 != sha1.Sum(m3.info.Text()) {
			c.Fail("reused", "%s: %v %x", clip(m3.v.Text()), err, mi2.Info.SHA1)
		}
		c.Evals(4)
		c.SeenBytes(m.info.Text())
		c.Count("unknown_info_keys", m.extraI)
		c.Count("unknown_outer_keys", m.extraO)
		c.Sample("%s", clip(data))
	})
	r.Cases("changed", r.N(20000, 400000), func(c *vk.Case) {
		m := genMeta(c)
		info := mutate(c.Rand, m.info.Text())
		data := append(append([]byte("d4:info"), info...), "1:zi0ee"...)
		_, n, verdict := Parse(data)
		var mi metainfo.Metainfo
		if err := bencode.Unmarshal(data, &mi); err != nil || mi.Info == nil {
			c.Skip()
		}
		if verdict == Reject {
			c.Fail("accepts-malformed", "%s", clip(data))
		}
		_ = n
		_, in, _ := Parse(data[7:])
		if want := sha1.Sum(data[7 : 7+in]); mi.Info.SHA1 != want {
			c.Fail("info-hash", "%s: %x, want %x", clip(data), mi.Info.SHA1, want)
		}
		c.Count("changed_accepted", 1)
		c.SeenBytes(info)
	})
}

func checkMeta(c *vk.Case, m *metaCase, mi *metainfo.Metainfo, what string) {
	bad := func(field string, got, want any) {
		c.Fail("field", "%s: %s is %#v, want %#v\n%s", what, field, got, want, clip(m.v.Text()))
	}
	str := func(key, got string) {
		want := ""
		if m.f[key] != nil {
			want = m.f[key].S
		}
		if got != want {
			bad(key, got, want)
		}
	}
	i := mi.Info
	if i == nil {
		bad("info", i, "present")
	}
	if name := m.info.Get("name").S; i.Name != name {
		bad("name", i.Name, name)
	}
	if i.PieceLength != m.pl {
		bad("piece length", i.PieceLength, m.pl)
	}
	if len(i.Pieces) != len(m.hashes) {
		bad("pieces", len(i.Pieces), len(m.hashes))
	}
	for k := range m.hashes {
		if i.Pieces[k] != m.hashes[k] {
			bad(fmt.Sprintf("piece %d", k), i.Pieces[k], m.hashes[k])
		}
	}
	priv := 0
	if m.f["private"] != nil {
		priv = int(m.f["private"].I.Int64())
	}
	if i.Private != priv {
		bad("private", i.Private, priv)
	}
	str("md5sum", i.MD5Sum)
	if len(i.Files) != len(m.lengths) {
		bad("files", len(i.Files), len(m.lengths))
	}
	for k, f := range i.Files {
		if f == nil || f.Length != m.lengths[k] || f.MD5Sum != m.sums[k] || !reflect.DeepEqual(f.Path, m.paths[k]) {
			bad(fmt.Sprintf("file %d", k), f, []any{m.lengths[k], m.sums[k], m.paths[k]})
		}
	}
	if !m.multi && i.Length != m.total {
		bad("length", i.Length, m.total)
	}
	if m.multi && i.Length != 0 {
		bad("length", i.Length, 0)
	}
	str("announce", mi.Announce)
	str("comment", mi.Comment)
	str("created by", mi.CreatedBy)
	str("encoding", mi.Encoding)
	var al [][]string
	if v := m.f["announce-list"]; v != nil {
		for _, tier := range v.L {
			var t []string
			for _, u := range tier.L {
				t = append(t, u.S)
			}
			al = append(al, t)
		}
	}
	if len(al) != len(mi.AnnounceList) {
		bad("announce-list", mi.AnnounceList, al)
	}
	for k := range al {
		if len(al[k]) != len(mi.AnnounceList[k]) || fmt.Sprintf("%q", al[k]) != fmt.Sprintf("%q", mi.AnnounceList[k]) {
			bad("announce-list", mi.AnnounceList, al)
		}
	}
	if d := m.f["creation date"]; d == nil {
		if mi.CreationDate != nil {
			bad("creation date", mi.CreationDate, nil)
		}
	} else if mi.CreationDate == nil || !mi.CreationDate.Equal(time.Unix(d.I.Int64(), 0)) {
		bad("creation date", mi.CreationDate, d.I)
	}
	// The tiling
	if got := i.GetLength(); got != m.total {
		bad("GetLength", got, m.total)
	}
	var sum int64
	for k := range m.hashes {
		l := i.GetPieceLength(k)
		if k < len(m.hashes)-1 && l != m.pl || l <= 0 || l > m.pl {
			bad(fmt.Sprintf("GetPieceLength(%d)", k), l, m.pl)
		}
		sum += int64(l)
	}
	if sum != m.total {
		bad("sum of piece lengths", sum, m.total)
	}
}

func TestM02(t *testing.T) {
	r := vk.Start(t, "M02", "generated metainfo files (single and multi-file, empty files, every optional field, unknown keys) decoded, compared field by field with the generator's values, encoded and decoded again; piece strings of every length; sizes beyond 32 bits; non-trivial: distinct files")
	wideMetainfo(r)
	r.Cases("files", r.N(40000, 800000), func(c *vk.Case) {
		m := genMeta(c)
		data := m.v.Text()
		var mi metainfo.Metainfo
		if err := bencode.Unmarshal(data, &mi); err != nil {
			c.Fail("decode-error", "%s: %v", clip(data), err)
		}
		checkMeta(c, m, &mi, "decoded")
		for _, v := range []any{&mi, mi} {
			again, err := bencode.Marshal(v)
			if err != nil {
				c.Fail("encode-error", "%s: %v", clip(data), err)
			}
			av, n, verdict := Parse(again)
			if verdict != Accept || n != len(again) {
				c.Fail("encode-malformed", "%s encodes as %s", clip(data), clip(again))
			}
			_ = av
			var mi2 metainfo.Metainfo
			if err := bencode.Unmarshal(again, &mi2); err != nil {
				c.Fail("decode-again", "%s: %v", clip(again), err)
			}
			checkMeta(c, m, &mi2, "encoded and decoded again")
		}
		// Without unknown keys (and optional fields that are spelt-out defaults) the
		// info dictionary comes back byte for byte.
		if m.extraI == 0 && !bytes.Contains(m.info.Text(), []byte("4:attr")) && (m.f["private"] == nil || m.f["private"].I.Sign() != 0) && m.total > 0 {
			again, err := bencode.Marshal(mi.Info)
			if err != nil || !bytes.Equal(again, m.info.Text()) {
				c.Fail("info-bytes", "%s, %v; want %s", clip(again), err, clip(m.info.Text()))
			}
			c.Count("info_bytes_compared", 1)
		}
		c.Evals(2)
		c.SeenBytes(data)
		c.Count("files", len(m.lengths))
		c.Count("pieces", len(m.hashes))
		c.Sample("%s", clip(data))
	})
	r.Cases("pieces-length", 130, func(c *vk.Case) {
		s := make([]byte, c.Index)
		for i := range s {
			s[i] = byte(c.Uint32())
		}
		v := VDict("name", VStr("x"), "length", VInt(1), "piece length", VInt(1), "pieces", VStr(string(s)))
		var i metainfo.Info
		err := bencode.Unmarshal(v.Text(), &i)
		if c.Index%20 == 0 {
			if err != nil || len(i.Pieces) != c.Index/20 {
				c.Fail("pieces", "%d bytes of hashes: %v, %d hashes", c.Index, err, len(i.Pieces))
			}
			for k := range i.Pieces {
				if !bytes.Equal(i.Pieces[k][:], s[20*k:20*k+20]) {
					c.Fail("pieces", "hash %d", k)
				}
			}
		} else if err == nil {
			c.Fail("pieces-accepted", "a pieces string of %d bytes is accepted", c.Index)
		}
		var p metainfo.Pieces
		if err := bencode.Unmarshal(VStr(string(s)).Text(), &p); (err == nil) != (c.Index%20 == 0) {
			c.Fail("pieces", "Pieces of %d bytes: %v", c.Index, err)
		}
		c.Seen("pieces", c.Index)
	})
	// Sizes beyond 32 bits, with the pieces only counted
	r.Cases("big", r.N(200, 2000), func(c *vk.Case) {
		n := 1 + c.IntN(3000)
		pl := 1 << (14 + c.IntN(17))
		last := 1 + c.IntN(pl)
		total := int64(n-1)*int64(pl) + int64(last)
		i := &metainfo.Info{PieceLength: pl, Pieces: make(metainfo.Pieces, n), Name: "big"}
		if c.IntN(2) == 0 {
			i.Length = total
		} else {
			left := total
			for range c.IntN(5) {
				l := c.Int64N(left + 1)
				left -= l
				i.Files = append(i.Files, &metainfo.File{Length: l, Path: []string{"f"}})
			}
			i.Files = append(i.Files, &metainfo.File{Length: left, Path: []string{"g"}})
		}
		var j metainfo.Info
		data, err := bencode.Marshal(i)
		if err == nil {
			err = bencode.Unmarshal(data, &j)
		}
		if err != nil || j.GetLength() != total || j.GetPieceLength(n-1) != last || n > 1 && (j.GetPieceLength(0) != pl || j.GetPieceLength(n-2) != pl) {
			c.Fail("big", "%v: %d pieces of %d, total %d: GetLength %d, last piece %d of %d", err, n, pl, total, j.GetLength(), j.GetPieceLength(n-1), last)
		}
		c.Seen(n, pl, last)
	})
	// What is not metainfo is refused
	r.Cases("wrong-types", 1, func(c *vk.Case) {
		m := genMeta(c)
		wrong := map[string][]*Val{
			"announce": {VInt(1), VList(), VDict()}, "announce-list": {VStr("x"), VInt(1), VList(VStr("x")), VList(VList(VInt(1))), VDict()},
			"creation date": {VStr("1"), VList(), VDict()}, "comment": {VInt(1), VList()}, "created by": {VInt(1)}, "encoding": {VList()}, "info": {VStr("x"), VInt(1), VList()},
		}
		for k, vs := range wrong {
			for _, v := range vs {
				top := map[string]*Val{"info": m.info}
				top[k] = v
				var mi metainfo.Metainfo
				if err := bencode.Unmarshal(VMap(top).Text(), &mi); err == nil {
					c.Fail("wrong-type", "%s of %s is accepted", k, clip(v.Text()))
				}
				c.Evals(1)
				c.Seen(k, string(v.Text()))
			}
		}
		wrong = map[string][]*Val{"name": {VInt(1), VList()}, "length": {VStr("1"), VList()}, "piece length": {VStr("1"), VDict()}, "pieces": {VInt(20), VList(VStr("01234567890123456789"))},
			"files": {VStr(""), VInt(1), VList(VInt(1)), VList(VStr("")), VList(VDict("length", VStr("x"))), VList(VDict("path", VStr("x"))), VDict()}, "private": {VStr("1")}, "md5sum": {VInt(1)}}
		for k, vs := range wrong {
			for _, v := range vs {
				info := map[string]*Val{"name": VStr("x"), "length": VInt(1), "piece length": VInt(1), "pieces": VStr("01234567890123456789")}
				info[k] = v
				var mi metainfo.Metainfo
				if err := bencode.Unmarshal(VDict("info", VMap(info)).Text(), &mi); err == nil {
					c.Fail("wrong-type", "info %s of %s is accepted", k, clip(v.Text()))
				}
				c.Evals(1)
				c.Seen("info", k, string(v.Text()))
			}
		}
	})
}
