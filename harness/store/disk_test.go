package store

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/browles/drip/api/metainfo"

	"verif/harness/steer"
	"verif/harness/vk"
)

var hostileNames = []string{"", ".", "..", "../x", "../../x", "../../../../../../tmp/verif-x", "/", "/x", "/tmp/verif-x", "/etc/passwd", "a/b", "a/../b", "a/../../x", "./a", "a/", "a/.", "a/..", "...", "..a", "a..",
	"//x", "\x00", "a\x00b", "..\x00", "\\..\\x", "C:\\x", "~", "~/x", "$HOME", "*", "\xff\xfe", "con", " ", "\n", "target", "work", "temp", "0.piece", "decoy", "../decoy", "../target/decoy", "../work/temp", "../work/decoy"}

func hostileName(c *vk.Case) string {
	switch c.IntN(12) {
	case 0:
		return strings.Repeat("../", 1+c.IntN(8)) + nameParts[c.IntN(len(nameParts))]
	case 1:
		return strings.Repeat("n", 250+c.IntN(20))
	case 2:
		return nameParts[c.IntN(len(nameParts))] + "/" + strings.Repeat("../", 1+c.IntN(3)) + "x"
	case 3:
		n := []byte(nameParts[c.IntN(len(nameParts))])
		n[c.IntN(len(n))] = "/.\x00\\"[c.IntN(4)]
		return string(n)
	default:
		return hostileNames[c.IntN(len(hostileNames))]
	}
}

// escapes says whether a relative path, joined the way file systems do it, leads out of
// (or is) the directory it is joined to.
func escapes(elems ...string) bool {
	depth := 0
	for _, e := range elems {
		for _, p := range strings.Split(e, "/") {
			switch p {
			case "", ".":
			case "..":
				if depth--; depth < 0 {
					return true
				}
			default:
				depth++
			}
		}
	}
	return depth == 0
}

// mustRefuse says that a torrent leads outside, or that its lengths do not add up.
func mustRefuse(info *metainfo.Info) string {
	if escapes(info.Name) {
		return fmt.Sprintf("name %q leads out of the target directory", info.Name)
	}
	for _, f := range info.Files {
		// "a/.." is the torrent's own directory again
		if len(f.Path) > 0 && escapes(f.Path...) {
			return fmt.Sprintf("file path %q leads out of the torrent's directory", f.Path)
		}
	}
	if info.PieceLength <= 0 {
		return "piece length is not positive"
	}
	total := float64(info.Length)
	if len(info.Files) > 0 {
		total = 0
		for _, f := range info.Files {
			if f.Length < 0 {
				return "negative file length"
			}
			total += float64(f.Length)
		}
	}
	if total < 0 {
		return "negative length"
	}
	if total > math.MaxInt64 {
		return "lengths overflow"
	}
	if total < 1<<50 && int64(len(info.Pieces)) != (int64(total)+int64(info.PieceLength)-1)/int64(info.PieceLength) && int64(info.PieceLength) < 1<<50 {
		return "number of pieces does not match the lengths"
	}
	return ""
}

func TestS10(t *testing.T) {
	r := vk.Start(t, "S10", "distinct metainfo (names, paths, lengths, most of them hostile) opened, loaded, filled and read under a monitor of every file operation of the process, which denies and records those outside of the torrent's places")
	r.Cases("hostile", r.N(4000, 300000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 2, small: true})
		defer w.drop()
		info := w.info
		benign := false
		switch k := c.IntN(8); {
		case k < 3:
			info.Name = hostileName(c)
		case k < 6 && len(info.Files) > 0:
			f := info.Files[c.IntN(len(info.Files))]
			switch c.IntN(6) {
			case 0:
				f.Path = nil
			case 1:
				f.Path = []string{hostileName(c)}
			case 2:
				f.Path = append(f.Path, hostileName(c))
			case 3:
				f.Path = append([]string{hostileName(c)}, f.Path...)
			case 4:
				f.Path = info.Files[c.IntN(len(info.Files))].Path
			default:
				f.Path = []string{"a", "..", "..", hostileName(c), "x"}
			}
		case k == 6:
			odd := []int64{-1, 0, 1, math.MinInt64, math.MaxInt64, math.MaxInt64 - 1, 1 << 62, -1 << 62, 1 << 32, int64(len(w.content)) + 1, int64(len(w.content)) - 1}
			if len(info.Files) > 0 && c.IntN(2) == 0 {
				for range 1 + c.IntN(2) {
					info.Files[c.IntN(len(info.Files))].Length = odd[c.IntN(len(odd))]
				}
				if c.IntN(2) == 0 { // lengths that wrap around to the right total
					info.Files = append(info.Files, &metainfo.File{Length: math.MaxInt64, Path: []string{"w1"}}, &metainfo.File{Length: math.MaxInt64, Path: []string{"w2"}}, &metainfo.File{Length: 2, Path: []string{"w3"}})
				}
			} else if c.IntN(2) == 0 {
				info.Length = odd[c.IntN(len(odd))]
			} else if c.IntN(2) == 0 {
				info.PieceLength = int(odd[c.IntN(len(odd))])
			} else if c.IntN(2) == 0 {
				info.Pieces = append(info.Pieces, [20]byte{})
			} else {
				info.Pieces = info.Pieces[:c.IntN(len(info.Pieces))]
			}
		default:
			benign = true
		}
		// Other people's files
		decoys := map[string]string{"decoy": "1", "x": "2", "target/decoy": "3", "target/x": "3", "work/decoy": "4", "work/temp/decoy": "5", "target/b": "6", "etc/passwd": "7",
			"work/0000000000000000000000000000000000000000/0.piece": "8"}
		for p, d := range decoys {
			p = filepath.Join(w.dir, p)
			if steer.Within(p, filepath.Join(w.target, strings.SplitN(info.Name, "/", 2)[0])) && !escapes(info.Name) {
				continue // would be the torrent itself
			}
			if c.IntN(4) == 0 && strings.HasPrefix(p, w.target) && benign {
				continue
			}
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, []byte(d), 0o644))
		}
		before := list(w.dir)
		own := ""
		if !escapes(info.Name) && !strings.ContainsRune(info.Name, 0) {
			own = filepath.Join(w.target, info.Name)
		}
		mine := func(p string) bool {
			return own != "" && steer.Within(p, own) || steer.Within(p, w.pieceDir()) || steer.Within(p, filepath.Join(w.work, "temp"))
		}
		outside := ""
		ops := 0
		stop := steer.Observe(&steer.FS{Outside: true, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
			ops++
			for _, p := range []string{op.Path, op.Path2} {
				if p == "" || mine(p) {
					continue
				}
				look := op.Name == "stat" || op.Name == "fstat" || op.Name == "open" || op.Name == "readdir"
				if look && (steer.Within(w.target, p) || steer.Within(w.work, p)) {
					continue // the directories above
				}
				if op.Name == "mkdir" && (steer.Within(w.target, p) || steer.Within(w.work, p)) && rawExists(p) {
					continue
				}
				if strings.HasPrefix(p, "/proc/") || strings.HasPrefix(p, "/sys/") || strings.HasPrefix(p, "/dev/") || strings.HasPrefix(p, "pipe:") || strings.HasPrefix(p, "anon_inode:") || strings.HasPrefix(p, "socket:") {
					continue
				}
				if p == filepath.Join(scratch, "log") { // the monitor's own output
					continue
				}
				if op.Name == "stat" && filepath.Dir(p) == w.target {
					// looking whether the name is there: of a name that is refused later
					return ^uintptr(0), syscall.ENOENT, true
				}
				if outside == "" {
					outside = op.Name + " " + op.Path + " " + op.Path2
				}
				return ^uintptr(0), syscall.EACCES, true
			}
			return 0, 0, false
		}})
		err := func() error {
			defer stop()
			s := w.open()
			if err := s.Load(); err != nil {
				return err
			}
			c.Count("loaded", 1)
			for round := range 2 {
				for i := range min(len(info.Pieces), 4) {
					for b := 0; b < 3*blockLen; b += blockLen {
						o := i*info.PieceLength + b
						for _, n := range []int{blockLen, info.GetPieceLength(i) - b} {
							if n >= 0 && n <= blockLen {
								d := make([]byte, n)
								if o >= 0 && o <= len(w.content) {
									copy(d, w.content[o:])
								}
								s.PutBlock(i, b, d)
							}
						}
					}
					s.GetBlock(i, 0, 1)
					s.GetBlock(i, 0, min(max(0, info.GetPieceLength(i)), 1<<16))
					if round == 0 && c.IntN(2) == 0 {
						s.ResetPiece(i)
					}
				}
			}
			s2 := w.open()
			s2.Load()
			if len(info.Pieces) > 0 {
				s2.GetBlock(0, 0, 1)
			}
			return nil
		}()
		c.Count("file_operations", ops)
		desc := fmt.Sprintf("name %q, length %d, piece length %d, %d pieces, files %v; Load: %v", info.Name, info.Length, info.PieceLength, len(info.Pieces), filesOf(info), err)
		if outside != "" {
			c.Fail("file operation outside", "%s\n%s (denied and recorded)", desc, strings.ReplaceAll(outside, w.dir, "..."))
		}
		after := list(w.dir)
		if err != nil {
			c.Count("refused", 1)
			if d := sameList(before, after); d != "" {
				c.Fail("refused metainfo changed files", "%s\n%s", desc, w.rel(d))
			}
			if benign {
				c.Fail("good metainfo refused", "%s", desc)
			}
		}
		for p, d := range before {
			if g, ok := after[p]; !mine(strings.TrimSuffix(p, "/")) && (!ok || !bytes.Equal(g, d)) || strings.HasSuffix(p, "temp/decoy") && !ok {
				c.Fail("foreign file touched", "%s\n%s", desc, w.rel(p))
			}
		}
		for p := range after {
			if _, ok := before[p]; !ok && !mine(strings.TrimSuffix(p, "/")) && !(own != "" && steer.Within(own, strings.TrimSuffix(p, "/"))) {
				c.Fail("file created outside", "%s\n%s", desc, w.rel(p))
			}
		}
		if why := mustRefuse(info); why != "" {
			c.Count("must_refuse", 1)
			if err == nil {
				c.Fail("bad metainfo accepted", "%s\n%s", desc, why)
			}
			if len(c.Group) > 0 {
				c.Sample("refused: %s", desc)
			}
		} else if benign {
			for p, d := range w.files() {
				if g, ok := after[p]; !ok || !bytes.Equal(g, d) {
					c.Fail("good torrent not written", "%s\n%s", desc, w.rel(p))
				}
			}
		}
		c.Seen(info.Name, info.Length, info.PieceLength, len(info.Pieces), fmt.Sprint(filesOf(info)))
	})
}

func filesOf(info *metainfo.Info) []string {
	var res []string
	for _, f := range info.Files {
		res = append(res, fmt.Sprintf("%q:%d", f.Path, f.Length))
	}
	return res
}

func TestS11(t *testing.T) {
	r := vk.Start(t, "S11", "distinct contents of the work and target directories found when loading, with the verdict about every piece compared with its bytes on disk, and the torrent finished from there")
	r.Cases("work", r.N(1200, 80000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 1 + c.IntN(12), small: c.IntN(2) == 0})
		defer w.drop()
		dir := w.pieceDir()
		must(os.MkdirAll(dir, 0o755))
		m := newMachine(c, w)
		desc := ""
		blocked := false
		for i := range w.pieces() {
			p := filepath.Join(dir, fmt.Sprintf("%d.piece", i))
			d := bytes.Clone(w.piece(i))
			kind := c.IntN(12)
			desc += fmt.Sprint(kind, ",")
			switch kind {
			case 0, 1:
				continue
			case 2, 3, 4:
				m.complete[i] = true
			case 5:
				d = d[:c.IntN(len(d))]
			case 6:
				d = append(d, make([]byte, 1+c.IntN(100))...)
			case 7:
				d[c.IntN(len(d))] ^= 1 << c.IntN(8)
			case 8:
				d = append(d, d...)
			case 9: // another piece's data
				j := c.IntN(w.pieces())
				d = bytes.Clone(w.piece(j))
				m.complete[i] = bytes.Equal(d, w.piece(i))
			case 10:
				d = make([]byte, len(d))
				m.complete[i] = bytes.Equal(d, w.piece(i))
			default:
				if c.IntN(4) > 0 {
					continue
				}
				must(os.MkdirAll(p, 0o755))
				if c.IntN(2) == 0 {
					must(os.WriteFile(filepath.Join(p, "x"), d, 0o644))
				}
				blocked = true
				continue
			}
			must(os.WriteFile(p, d, 0o644))
		}
		// things that are no pieces
		n := w.pieces()
		foreign := []string{fmt.Sprintf("%d.piece", n), fmt.Sprintf("%d.piece", n+7), "-1.piece", "-0.piece", "+0.piece", "00.piece", "0x0.piece", "0.piecex", "0.piece.bak", "0.piece~", " 0.piece", "0 .piece", "0.PIECE", "0", ".piece", "piece",
			"x", "99999999999999999999.piece", "9223372036854775807.piece", "4294967296.piece", "18446744073709551616.piece", "1e0.piece", "0.0.piece", "x.piece", ".0.piece", "٠.piece"}
		for range c.IntN(8) {
			f := foreign[c.IntN(len(foreign))]
			p := filepath.Join(dir, f)
			if c.IntN(5) == 0 {
				os.MkdirAll(p, 0o755)
			} else {
				os.WriteFile(p, w.piece(0), 0o644) // with the data of a real piece
			}
			desc += f + ","
		}
		if c.IntN(3) == 0 {
			must(os.MkdirAll(filepath.Join(w.work, "temp"), 0o755))
			must(os.WriteFile(filepath.Join(w.work, "temp", fmt.Sprintf("%x-0.piece123", w.info.SHA1)), w.piece(0), 0o644))
		}
		m.logf("work directory: %s", desc)
		kept := m.count()
		m.logf("load")
		err := m.s.Load()
		if blocked {
			// A directory in the place of a piece can not be told from an I/O problem;
			// only nothing wrong may be served
			bf := m.s.Torrent.CompletePieces()
			for i, ok := range m.complete {
				if bf.Has(i) && !ok {
					m.fail("unverified piece advertised", "piece %d", i)
				}
				d, err := m.s.GetBlock(i, 0, w.pieceLen(i))
				if err == nil && !bytes.Equal(d, w.piece(i)) {
					m.fail("wrong data served", "piece %d", i)
				}
			}
			c.Count("directories_as_pieces", 1)
			c.Seen(desc, len(w.content), w.info.PieceLength)
			return
		}
		if err != nil {
			m.fail("load fails", "load returned %v", err)
		}
		m.done = kept == n
		m.state()
		c.Count("intact_kept", kept)
		c.Count("pieces_not_trusted", n-kept)
		m.readSome()
		if c.IntN(2) == 0 {
			m.load(c.IntN(2) == 0)
			m.state()
		}
		m.obs = true
		for i := range w.pieces() {
			if m.complete[i] {
				continue
			}
			for _, b := range w.blocks(i) {
				m.put(b, true)
			}
		}
		m.state()
		if ts := w.targetState(); ts != "exact" {
			m.fail("finished torrent differs", "%s", ts)
		}
		m.readSome()
		m.load(false)
		m.state()
		c.Seen(desc, len(w.content), w.info.PieceLength)
		c.Sample("%v; work directory %s kept %d", w, desc, kept)
	})
	r.Cases("target", r.N(900, 60000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 1 + c.IntN(4), zero: true})
		defer w.drop()
		w.putTarget()
		files := w.files()
		var names []string
		for p := range files {
			names = append(names, p)
		}
		sortStrings(names)
		p := names[c.IntN(len(names))]
		d := bytes.Clone(files[p])
		what, good := "", false
		switch c.IntN(9) {
		case 0, 1:
			what, good = "exact", true
		case 2:
			what = "file missing"
			must(os.Remove(p))
			if len(names) == 1 && len(w.info.Files) == 0 {
				what, good = "absent", true
			}
		case 3:
			what = "file truncated"
			if len(d) == 0 {
				c.Skip()
			}
			must(os.WriteFile(p, d[:c.IntN(len(d))], 0o644))
		case 4:
			what = "file too long"
			must(os.WriteFile(p, append(d, make([]byte, 1+c.IntN(100))...), 0o644))
		case 5:
			what = "file corrupt"
			if len(d) == 0 {
				c.Skip()
			}
			d[c.IntN(len(d))] ^= 1 << c.IntN(8)
			must(os.WriteFile(p, d, 0o644))
		case 6:
			what = "directory for a file"
			must(os.Remove(p))
			must(os.MkdirAll(p, 0o755))
		case 7:
			what = "torrent of the other kind"
			root := filepath.Join(w.target, w.info.Name)
			must(os.RemoveAll(root))
			if len(w.info.Files) > 0 {
				must(os.WriteFile(root, w.content, 0o644))
			} else {
				must(os.MkdirAll(root, 0o755))
				must(os.WriteFile(filepath.Join(root, "x"), w.content, 0o644))
			}
		default: // bytes moved over a file boundary: lengths wrong, concatenation right
			if len(w.info.Files) < 2 {
				c.Skip()
			}
			what = "bytes moved between files"
			o := 0
			k := c.IntN(len(w.info.Files) - 1)
			for i, f := range w.info.Files {
				q := filepath.Join(append([]string{w.target, w.info.Name}, f.Path...)...)
				n := int(f.Length)
				if i == k {
					if n == 0 || len(w.content) == 0 {
						c.Skip()
					}
					must(os.WriteFile(q, w.content[o:o+n-1], 0o644))
				} else if i == k+1 {
					must(os.WriteFile(q, w.content[o-1:o+n], 0o644))
				}
				o += n
			}
		}
		if c.IntN(3) == 0 && w.pieces() > 0 { // pieces besides
			must(os.MkdirAll(w.pieceDir(), 0o755))
			must(os.WriteFile(filepath.Join(w.pieceDir(), "0.piece"), w.piece(0), 0o644))
			what += ", and a piece"
		}
		c.Count("target "+what, 1)
		before := list(w.target)
		s := w.open()
		for range 2 {
			err := s.Load()
			desc := fmt.Sprintf("%v\ntarget: %s (%s); Load: %v", w, what, w.rel(p), err)
			if (err == nil) != good {
				c.Fail("target misjudged", "%s", desc)
			}
			if d := sameList(before, list(w.target)); d != "" && !strings.HasPrefix(what, "absent") {
				c.Fail("target changed by loading", "%s\n%s", desc, w.rel(d))
			}
			for i := range w.pieces() {
				d, e := s.GetBlock(i, 0, w.pieceLen(i))
				if e == nil && !bytes.Equal(d, w.piece(i)) {
					c.Fail("wrong data served", "%s", desc)
				}
				if e != nil && strings.HasPrefix(what, "exact") {
					c.Fail("complete torrent not readable", "%s\n%v", desc, e)
				}
				if !good && (s.Torrent.HasPiece(i)) && e != nil {
					c.Fail("piece advertised but not readable", "%s\n%v", desc, e)
				}
			}
			if strings.HasPrefix(what, "exact") && s.Downloaded() != int64(len(w.content)) {
				c.Fail("wrong downloaded count", "%s\ndownloaded=%d", desc, s.Downloaded())
			}
		}
		if !good { // and is not overwritten by what comes
			for _, b := range w.allBlocks() {
				s.PutBlock(b.i, b.begin, w.good(b))
			}
			after := list(w.target)
			for q, d := range before {
				if g, ok := after[q]; strings.HasSuffix(q, "/") == false && ok && !bytes.Equal(g, d) && !bytes.Equal(g, files[q]) {
					c.Fail("target damaged", "%s: %s", what, w.rel(q))
				}
			}
		}
		c.Seen(what, len(w.content), w.info.PieceLength, len(w.info.Files))
		c.Sample("%v; target %s", w, what)
	})
}
