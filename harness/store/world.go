// Package store monitors github.com/browles/drip/storage.
package store

import (
	"bytes"
	"crypto/sha1"
	"errors"
	"fmt"
	"io/fs"
	"log/slog"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"unsafe"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/storage"

	"verif/harness/vk"
)

const blockLen = storage.BLOCK_LENGTH

func init() {
	slog.SetDefault(slog.New(slog.DiscardHandler))
}

var scratch = func() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		var err error
		if d, err = os.MkdirTemp("", "verif-store-"); err != nil {
			panic(err)
		}
	}
	d, err := filepath.EvalSymlinks(d)
	if err != nil {
		panic(err)
	}
	return d
}()

var worldSeq int

// world is a torrent with its content, and a pair of directories for it.
type world struct {
	dir, target, work string
	info              *metainfo.Info
	content           []byte
	shared            bool // there are other torrents in these directories
}

type blk struct{ i, begin, n int }

func (w *world) pieces() int { return len(w.info.Pieces) }

func (w *world) pieceLen(i int) int {
	return min(w.info.PieceLength, len(w.content)-i*w.info.PieceLength)
}

func (w *world) piece(i int) []byte {
	o := i * w.info.PieceLength
	return w.content[o : o+w.pieceLen(i)]
}

func (w *world) blocks(i int) []blk {
	var res []blk
	for b := 0; b < w.pieceLen(i); b += blockLen {
		res = append(res, blk{i, b, min(blockLen, w.pieceLen(i)-b)})
	}
	return res
}

func (w *world) allBlocks() []blk {
	var res []blk
	for i := range w.pieces() {
		res = append(res, w.blocks(i)...)
	}
	return res
}

// good returns a fresh copy of a block's content.
func (w *world) good(b blk) []byte { return bytes.Clone(w.piece(b.i)[b.begin : b.begin+b.n]) }

// bad returns a block with wrong content.
func (w *world) bad(c *vk.Case, b blk) []byte {
	d := w.good(b)
	switch c.IntN(3) {
	case 0:
		d[c.IntN(len(d))] ^= 1 << c.IntN(8)
	case 1:
		d[len(d)-1]++
	default:
		d[0]++
		for i := range d[1:] {
			d[i+1] = byte(i)
		}
	}
	return d
}

type worldOpts struct {
	maxPieces int
	small     bool // at most one block per piece
	zero      bool // allow torrents without content
	single    bool
	multi     bool
}

func fill(c *vk.Case, b []byte) {
	for i := 0; i < len(b); i += 8 {
		x := c.Uint64()
		for j := i; j < len(b) && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
}

var nameParts = []string{"a", "b", "c.txt", "Ünï", "with space", "...", "x.piece", "temp", "0.piece", "-", "~", "%41", "a.b.c", "long-" + strings.Repeat("n", 60)}

func newWorld(c *vk.Case, o worldOpts) *world {
	if o.maxPieces == 0 {
		o.maxPieces = 4
	}
	w := &world{info: &metainfo.Info{}}
	fill(c, w.info.SHA1[:])
	n := 1 + c.IntN(o.maxPieces)
	pl := 0
	switch c.IntN(8) {
	case 0:
		pl = 1 + c.IntN(200)
	case 1:
		pl = blockLen - 1
	case 2, 3:
		pl = blockLen
	case 4:
		pl = blockLen + 1
	case 5, 6:
		pl = 2 * blockLen
	default:
		pl = 2*blockLen + 1 + c.IntN(blockLen-1)
	}
	if o.small {
		pl = min(pl, 1+c.IntN(blockLen))
	}
	last := pl
	switch c.IntN(6) {
	case 0, 1:
	case 2:
		last = 1
	case 3:
		last = max(1, pl-1)
	case 4:
		last = max(1, pl/blockLen*blockLen)
	default:
		last = 1 + c.IntN(pl)
	}
	total := (n-1)*pl + last
	if o.zero && c.IntN(12) == 0 {
		total = 0
	}
	w.content = make([]byte, total)
	fill(c, w.content)
	if n > 1 && total > 0 && c.IntN(8) == 0 {
		copy(w.content[pl:], w.content[:pl]) // two pieces alike
	}
	w.info.PieceLength = pl
	w.info.Pieces = metainfo.Pieces{}
	for o := 0; o < total; o += pl {
		w.info.Pieces = append(w.info.Pieces, sha1.Sum(w.content[o:min(o+pl, total)]))
	}
	w.info.Name = nameParts[c.IntN(len(nameParts))] + fmt.Sprint(c.IntN(3))
	if c.IntN(10) == 0 { // as long as names may be
		w.info.Name = strings.Repeat("n", 240+c.IntN(16))
	}
	if !o.multi && (o.single || c.IntN(2) == 0) {
		w.info.Length = int64(total)
	} else {
		w.cut(c)
	}
	w.fresh()
	return w
}

// cut splits the content into files.
func (w *world) cut(c *vk.Case) {
	n := 1 + c.IntN(6)
	total := len(w.content)
	cuts := []int{0, total}
	for range n - 1 {
		switch c.IntN(4) {
		case 0: // an empty file, or a neighbour of a boundary
			cuts = append(cuts, cuts[c.IntN(len(cuts))])
		case 1: // at a piece boundary
			if total > 0 {
				cuts = append(cuts, min(total, c.IntN(w.pieces()+1)*w.info.PieceLength))
			} else {
				cuts = append(cuts, 0)
			}
		case 2:
			cuts = append(cuts, min(total, max(0, cuts[c.IntN(len(cuts))]+1-2*c.IntN(2))))
		default:
			cuts = append(cuts, c.IntN(total+1))
		}
	}
	slices.Sort(cuts)
	files := map[string]bool{}
	dirs := map[string]bool{}
	for i := 0; i+1 < len(cuts); i++ {
		var path []string
		for {
			path = nil
			for range 1 + c.IntN(3) {
				path = append(path, nameParts[c.IntN(len(nameParts))]+fmt.Sprint(c.IntN(4)))
			}
			if c.IntN(12) == 0 {
				path[len(path)-1] = strings.Repeat("f", 240+c.IntN(16))
			}
			p := strings.Join(path, "/")
			ok := !files[p] && !dirs[p]
			for j := 1; j < len(path); j++ {
				ok = ok && !files[strings.Join(path[:j], "/")]
			}
			if ok {
				files[p] = true
				for j := 1; j < len(path); j++ {
					dirs[strings.Join(path[:j], "/")] = true
				}
				break
			}
		}
		w.info.Files = append(w.info.Files, &metainfo.File{Length: int64(cuts[i+1] - cuts[i]), Path: path})
	}
}

// fresh gives the world empty directories.
func (w *world) fresh() {
	w.drop()
	worldSeq++
	w.dir = filepath.Join(scratch, fmt.Sprintf("w%d", worldSeq))
	w.target, w.work = filepath.Join(w.dir, "target"), filepath.Join(w.dir, "work")
	must(os.MkdirAll(w.target, 0o755))
	must(os.MkdirAll(w.work, 0o755))
}

func (w *world) drop() {
	if w.dir != "" && strings.HasPrefix(w.dir, scratch+"/w") {
		os.RemoveAll(w.dir)
	}
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func (w *world) open() *storage.Storage { return storage.New(w.target, w.work, w.info) }

// files lists the files of the torrent with their content.
func (w *world) files() map[string][]byte {
	root := filepath.Join(w.target, w.info.Name)
	if len(w.info.Files) == 0 {
		return map[string][]byte{root: w.content}
	}
	res := map[string][]byte{}
	o := 0
	for _, f := range w.info.Files {
		res[filepath.Join(append([]string{root}, f.Path...)...)] = w.content[o : o+int(f.Length)]
		o += int(f.Length)
	}
	return res
}

// putTarget writes the exact content under the target name.
func (w *world) putTarget() {
	for p, d := range w.files() {
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, d, 0o644))
	}
}

func (w *world) pieceDir() string { return filepath.Join(w.work, fmt.Sprintf("%x", w.info.SHA1)) }

// list returns all entries below a directory; file contents as they are, directories
// as nil with a trailing slash.
func list(dir string) map[string][]byte {
	res := map[string][]byte{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if p == dir {
			return nil
		}
		if d.IsDir() {
			res[p+"/"] = nil
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			b = []byte(err.Error())
		}
		res[p] = b
		return nil
	})
	return res
}

func sameList(a, b map[string][]byte) string {
	for p, d := range a {
		e, ok := b[p]
		if !ok {
			return p + " is gone"
		}
		if !bytes.Equal(d, e) {
			return p + " changed"
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return p + " appeared"
		}
	}
	return ""
}

// inTarget lists the target directory, or of one that is shared what has the
// torrent's name.
func (w *world) inTarget() map[string][]byte {
	got := list(w.target)
	if w.shared {
		own := filepath.Join(w.target, w.info.Name)
		for p := range got {
			if p != own && !strings.HasPrefix(p, own+"/") {
				delete(got, p)
			}
		}
	}
	return got
}

// targetState compares the target directory with the torrent: absent, exact, or else
// what is wrong with it.
func (w *world) targetState() string {
	got := w.inTarget()
	if len(got) == 0 {
		return "absent"
	}
	want := w.files()
	for p, d := range want {
		g, ok := got[p]
		if !ok {
			return fmt.Sprintf("file %q is missing", w.rel(p))
		}
		if !bytes.Equal(g, d) {
			return fmt.Sprintf("file %q has %d bytes that differ from the %d described", w.rel(p), len(g), len(d))
		}
	}
	for p := range got {
		if strings.HasSuffix(p, "/") {
			needed := false
			for q := range want {
				needed = needed || strings.HasPrefix(q, p)
			}
			if !needed {
				return fmt.Sprintf("directory %q is not part of the torrent", w.rel(p))
			}
		} else if _, ok := want[p]; !ok {
			return fmt.Sprintf("file %q is not part of the torrent", w.rel(p))
		}
	}
	return "exact"
}

func (w *world) rel(p string) string {
	if r, ok := strings.CutPrefix(p, w.dir+"/"); ok {
		return r
	}
	return p
}

func (w *world) String() string {
	s := fmt.Sprintf("%q total=%d piece length=%d pieces=%d", w.info.Name, len(w.content), w.info.PieceLength, w.pieces())
	for _, f := range w.info.Files {
		s += fmt.Sprintf(" %q:%d", strings.Join(f.Path, "/"), f.Length)
	}
	return s
}

// leftovers names a file that remains in the work directory.
func (w *world) leftovers() string {
	for p := range list(w.work) {
		if w.shared && !strings.HasPrefix(p, w.pieceDir()) && !strings.HasPrefix(filepath.Base(p), fmt.Sprintf("%x", w.info.SHA1)) {
			continue
		}
		if !strings.HasSuffix(p, "/") {
			return w.rel(p)
		}
		if p == w.pieceDir()+"/" {
			return w.rel(p)
		}
	}
	return ""
}

// set returns the pieces advertised.
func set(s *storage.Storage, n int) map[int]bool {
	res := map[int]bool{}
	bf := s.Torrent.CompletePieces()
	for i := range n {
		if bf.Has(i) {
			res[i] = true
		}
	}
	return res
}

func isChecksum(err error) bool {
	var ce *storage.ChecksumError
	return errors.As(err, &ce)
}

// rawExists looks for a path without going through the hooks.
func rawExists(path string) bool {
	b := append([]byte(path), 0)
	var st syscall.Stat_t
	atFdcwd := -100
	_, _, e := syscall.RawSyscall6(syscall.SYS_NEWFSTATAT, uintptr(atFdcwd), uintptr(unsafe.Pointer(&b[0])), uintptr(unsafe.Pointer(&st)), 0, 0, 0)
	return e == 0
}

func sortStrings(s []string) { slices.Sort(s) }
