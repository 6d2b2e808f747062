package store

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/browles/drip/storage"

	"verif/harness/steer"
	"verif/harness/vk"
)

// machine runs operations on the real storage next to a model of it.
type machine struct {
	c *vk.Case
	w *world
	s *storage.Storage

	held     []map[int]bool // per piece: block -> good
	complete []bool
	done     bool
	log      []string

	// of the operation under way, for the observers in between file operations
	may map[int]bool // pieces that may be advertised while it runs
	ops int          // file operations seen in it
	mut int          // of these, mutating ones

	obs bool
	err string

	order []blk // in which blocks come

	after func() // called after each operation

	blind  bool // nothing is observed in between file operations
	litter bool // bad files of pieces appear before the directories are opened
}

func newMachine(c *vk.Case, w *world) *machine {
	m := &machine{c: c, w: w, s: w.open(), held: make([]map[int]bool, w.pieces()), complete: make([]bool, w.pieces())}
	for i := range m.held {
		m.held[i] = map[int]bool{}
	}
	return m
}

func (m *machine) logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	m.log = append(m.log, s)
	m.c.Logf("%s", s)
}

func (m *machine) fail(sig, format string, args ...any) {
	m.c.Fail(sig, "%s\ntorrent: %v\nhistory:\n  %s", fmt.Sprintf(format, args...), m.w, strings.Join(m.log, "\n  "))
}

func (m *machine) downloaded() int64 {
	var n int64
	for i, ok := range m.complete {
		if ok {
			n += int64(m.w.pieceLen(i))
		}
	}
	return n
}

func (m *machine) all() bool {
	for _, ok := range m.complete {
		if !ok {
			return false
		}
	}
	return true
}

// during runs one operation; between its file operations, the observer checks that
// nothing unverified is advertised or present in the target directory.
func (m *machine) during(f func()) {
	m.ops, m.mut = 0, 0
	if m.blind {
		f()
		return
	}
	before := m.downloaded()
	after := before
	for i := range m.may {
		if !m.complete[i] {
			after += int64(m.w.pieceLen(i))
		}
	}
	observe := func() {
		m.c.Evals(1)
		if m.err != "" {
			return
		}
		for i := range m.w.pieces() {
			if m.s.Torrent.Bitfield.Has(i) && !m.complete[i] && !m.may[i] {
				m.err = fmt.Sprintf("piece %d is advertised although it is not verified", i)
			}
		}
		if d := m.s.Downloaded(); (d < before || d > after) && !m.loading() {
			m.err = fmt.Sprintf("downloaded=%d, between %d before and %d after", d, before, after)
		}
		if e := m.partial(); e != "" {
			m.err = e
		}
	}
	stop := steer.Observe(&steer.FS{Root: m.w.dir, Handle: func(op *steer.Op) (uintptr, syscall.Errno, bool) {
		r, e := op.Do()
		m.ops++
		if op.Mutate {
			m.mut++
		}
		if m.obs && op.Mutate {
			steer.Quiet(observe)
		}
		return r, e, true
	}})
	func() {
		defer stop()
		f()
	}()
	m.c.Count("file_operations", m.ops)
	if m.err != "" {
		m.fail("unverified state in between", "during the last operation: %s", m.err)
	}
}

func (m *machine) loading() bool {
	return len(m.log) > 0 && strings.HasPrefix(m.log[len(m.log)-1], "load")
}

// partial reports any bytes in the target directory that are not the verified content
// at their place.
func (m *machine) partial() string {
	want := m.w.files()
	off := map[string]int{}
	o := 0
	if len(m.w.info.Files) > 0 {
		for _, f := range m.w.info.Files {
			off[filepath.Join(append([]string{m.w.target, m.w.info.Name}, f.Path...)...)] = o
			o += int(f.Length)
		}
	}
	for p, d := range m.w.inTarget() {
		if strings.HasSuffix(p, "/") {
			continue
		}
		w, ok := want[p]
		if !ok {
			return fmt.Sprintf("file %q appeared in the target directory", m.w.rel(p))
		}
		if len(d) > len(w) || !bytes.Equal(d, w[:len(d)]) {
			return fmt.Sprintf("file %q in the target directory has content that is not the torrent's", m.w.rel(p))
		}
		for i := range m.w.pieces() {
			a, b := i*m.w.info.PieceLength-off[p], (i+1)*m.w.info.PieceLength-off[p]
			if a < len(d) && b > 0 && !m.complete[i] && !m.may[i] {
				return fmt.Sprintf("file %q in the target directory has bytes of piece %d, which is not verified", m.w.rel(p), i)
			}
		}
	}
	return ""
}

// state compares everything observable with the model.
func (m *machine) state() {
	m.c.Evals(1)
	if m.after != nil {
		m.after()
	}
	bf := m.s.Torrent.CompletePieces()
	for i, ok := range m.complete {
		if bf.Has(i) != ok || m.s.Torrent.HasPiece(i) != ok {
			m.fail("wrong pieces advertised", "piece %d advertised=%v HasPiece=%v, complete=%v", i, bf.Has(i), m.s.Torrent.HasPiece(i), ok)
		}
	}
	if items := bf.Items(); len(items) != m.count() {
		m.fail("wrong pieces advertised", "bitfield %v", items)
	}
	if d := m.s.Downloaded(); d != m.downloaded() {
		m.fail("wrong downloaded count", "downloaded=%d, complete pieces have %d bytes", d, m.downloaded())
	}
	if e := m.partial(); e != "" {
		m.fail("unverified data in the target directory", "%s", e)
	}
	if m.done {
		if st := m.w.targetState(); st != "exact" {
			m.fail("finished torrent differs", "all pieces are stored, target directory: %s", st)
		}
	}
}

func (m *machine) count() int {
	n := 0
	for _, ok := range m.complete {
		if ok {
			n++
		}
	}
	return n
}

// put puts a block that is one of the torrent's, with good or bad content.
func (m *machine) put(b blk, good bool) {
	data := m.w.good(b)
	if !good {
		data = m.w.bad(m.c, b)
	}
	m.logf("put piece=%d begin=%d good=%v", b.i, b.begin, good)
	j := b.begin / blockLen
	_, have := m.held[b.i][j]
	refuse := m.done || m.complete[b.i] || have
	last := !refuse && len(m.held[b.i])+1 == len(m.w.blocks(b.i))
	ok := good
	for _, g := range m.held[b.i] {
		ok = ok && g
	}
	m.may = map[int]bool{}
	if last && ok {
		m.may[b.i] = true
	}
	var err error
	m.during(func() { err = m.s.PutBlock(b.i, b.begin, data) })
	m.logf("  -> %v", err)
	switch {
	case refuse:
		if err == nil {
			m.fail("block admitted twice", "put of a block already held or of a complete piece succeeded")
		}
		if m.mut > 0 {
			m.fail("refused put changed files", "a refused put made %d changes", m.mut)
		}
		m.c.Count("puts_refused", 1)
	case last && !ok:
		m.held[b.i][j] = good
		if !isChecksum(err) {
			m.fail("corrupt piece not reported", "put that completes a corrupt piece returned %v", err)
		}
		m.c.Count("corrupt_pieces_refused", 1)
	default:
		m.held[b.i][j] = good
		if err != nil {
			m.fail("valid block refused", "put failed: %v", err)
		}
		if last {
			m.complete[b.i] = true
			m.c.Count("pieces_completed", 1)
			if m.all() {
				m.done = true
				m.c.Count("torrents_completed", 1)
			}
		}
	}
	m.may = nil
}

// reset empties an incomplete piece.
func (m *machine) reset(i int) {
	m.logf("reset piece=%d", i)
	m.may = nil
	m.during(func() { m.s.ResetPiece(i) })
	if !m.complete[i] {
		m.held[i] = map[int]bool{}
	}
	m.c.Count("resets", 1)
}

func (m *machine) get(i, begin, n int) {
	m.may = nil
	var data []byte
	var err error
	m.during(func() { data, err = m.s.GetBlock(i, begin, n) })
	inside := i >= 0 && i < m.w.pieces() && begin >= 0 && n >= 0 && begin <= m.w.pieceLen(i) && n <= m.w.pieceLen(i)-begin
	if !inside || !m.complete[i] {
		if err == nil {
			m.logf("get piece=%d begin=%d length=%d -> %d bytes", i, begin, n, len(data))
			m.fail("unverified or outside data served", "a read of an incomplete piece or outside of one succeeded")
		}
		m.c.Count("reads_refused", 1)
		return
	}
	if err != nil {
		m.logf("get piece=%d begin=%d length=%d", i, begin, n)
		m.fail("complete piece not readable", "read failed: %v", err)
	}
	if !bytes.Equal(data, m.w.piece(i)[begin:begin+n]) {
		m.logf("get piece=%d begin=%d length=%d", i, begin, n)
		m.fail("wrong data served", "read returned %d bytes that are not the content's", len(data))
	}
	m.c.Count("reads_exact", 1)
}

// strew leaves files of pieces that are not complete, with other content, as a
// power failure or another program may have.
func (m *machine) strew() {
	if m.done || m.c.IntN(3) == 0 {
		return
	}
	must(os.MkdirAll(m.w.pieceDir(), 0o700))
	for i, ok := range m.complete {
		if ok || m.c.IntN(2) == 0 {
			continue
		}
		d := bytes.Clone(m.w.piece(i))
		switch m.c.IntN(4) {
		case 0:
			d[m.c.IntN(len(d))] ^= 1 << m.c.IntN(8)
		case 1:
			d = d[:m.c.IntN(len(d))]
		case 2:
			d = append(d, 0)
		case 3:
			fill(m.c, d)
			d[0] = ^m.w.piece(i)[0]
		}
		m.logf("file of %d bytes in place of piece %d", len(d), i)
		must(os.WriteFile(filepath.Join(m.w.pieceDir(), fmt.Sprintf("%d.piece", i)), d, 0o600))
		m.c.Count("bad_piece_files", 1)
	}
}

// load opens the directories again, as a new process would.
func (m *machine) load(again bool) {
	if m.litter && !again {
		m.strew()
	}
	m.logf("load again=%v", again)
	if !again {
		m.s = m.w.open()
	}
	m.may = map[int]bool{}
	m.obs = false
	var err error
	m.during(func() { err = m.s.Load() })
	m.obs = true
	m.may = nil
	if err != nil {
		m.fail("load fails", "load returned %v", err)
	}
	if m.w.pieces() == 0 {
		m.done = true
	}
	for i := range m.held {
		if again && !m.complete[i] {
			m.s.ResetPiece(i)
		}
		m.held[i] = map[int]bool{}
	}
	m.c.Count("loads", 1)
}

// readSome reads ranges of all pieces.
func (m *machine) readSome() {
	for i := range m.w.pieces() {
		n := m.w.pieceLen(i)
		m.get(i, 0, n)
		for range 3 {
			a := m.c.IntN(n + 1)
			b := m.c.IntN(n - a + 1)
			m.get(i, a, b)
		}
		if n > blockLen {
			m.get(i, blockLen-1, 2)
		}
		m.get(i, n-1, 1)
		if m.c.IntN(4) == 0 {
			m.get(i, n, 0)
		}
		for _, fo := range m.fileEdges(i) {
			a := max(0, fo-1-m.c.IntN(3))
			b := min(n, fo+1+m.c.IntN(3))
			m.get(i, a, b-a)
		}
	}
}

// fileEdges returns where files begin within a piece.
func (m *machine) fileEdges(i int) []int {
	var res []int
	o := 0
	for _, f := range m.w.info.Files {
		if a := o - i*m.w.info.PieceLength; a > 0 && a < m.w.pieceLen(i) {
			res = append(res, a)
		}
		o += int(f.Length)
	}
	return res
}

// finish completes the torrent.
func (m *machine) finish() {
	for i := range m.w.pieces() {
		if m.complete[i] {
			continue
		}
		bad := false
		for _, g := range m.held[i] {
			bad = bad || !g
		}
		if bad || m.c.IntN(8) == 0 {
			m.reset(i)
		}
	}
	bs := m.w.allBlocks()
	m.c.Shuffle(len(bs), func(a, b int) { bs[a], bs[b] = bs[b], bs[a] })
	for _, b := range bs {
		if _, have := m.held[b.i][b.begin/blockLen]; have || m.complete[b.i] {
			continue
		}
		m.put(b, true)
	}
	m.state()
	if !m.done && m.w.pieces() > 0 {
		m.fail("harness", "not done")
	}
	if l := m.w.leftovers(); l != "" {
		m.fail("work files remain", "the torrent is finished, and %q remains in the work directory", l)
	}
}

var hugeInts = []int{math.MinInt, math.MinInt + 1, -1 << 40, -1 << 32, -1 << 31, -1<<31 - 1, -blockLen, -2, -1, 0, 1, 2, blockLen - 1, blockLen, blockLen + 1, 2 * blockLen,
	1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, 1 << 62, math.MaxInt - blockLen, math.MaxInt - 1, math.MaxInt, math.MaxInt/blockLen*blockLen + 1 - 1}

func oddInt(c *vk.Case, near ...int) int {
	if c.IntN(2) == 0 && len(near) > 0 {
		return near[c.IntN(len(near))] + c.IntN(5) - 2
	}
	if c.IntN(3) == 0 {
		return c.IntN(6) * blockLen
	}
	return hugeInts[c.IntN(len(hugeInts))]
}

// oddPut puts something that may or may not be a block.
func (m *machine) oddPut() {
	w, c := m.w, m.c
	i := c.IntN(w.pieces()+2) - 1
	if c.IntN(3) == 0 {
		i = oddInt(c, w.pieces())
	}
	pl := w.info.PieceLength
	if i >= 0 && i < w.pieces() {
		pl = w.pieceLen(i)
	}
	begin := oddInt(c, pl, pl/blockLen*blockLen, blockLen)
	n := 0
	switch c.IntN(5) {
	case 0:
		n = c.IntN(3 * blockLen)
	case 1:
		n = blockLen
	case 2:
		n = max(0, pl%blockLen+c.IntN(3)-1)
	case 3:
		n = max(0, pl-max(0, min(pl, begin)))
	default:
		n = c.IntN(3) * blockLen / 2
	}
	if i >= 0 && i < w.pieces() && c.IntN(2) == 0 { // nearly right
		b := w.blocks(i)[c.IntN(len(w.blocks(i)))]
		begin, n = b.begin, b.n
		switch c.IntN(4) {
		case 0:
			begin += c.IntN(3) - 1
		case 1:
			n = max(0, n+c.IntN(3)-1)
		case 2:
			begin += (c.IntN(5) - 2) * blockLen
		default:
			i += (c.IntN(3) - 1) * w.pieces()
		}
	}
	if i >= 0 && i < w.pieces() {
		for _, b := range w.blocks(i) {
			if b.begin == begin && b.n == n {
				return // a block after all
			}
		}
	}
	m.logf("odd put piece=%d begin=%d length=%d", i, begin, n)
	m.may = nil
	var err error
	m.during(func() { err = m.s.PutBlock(i, begin, make([]byte, n)) })
	if err == nil {
		m.fail("bad block admitted", "a put that is no block of the torrent succeeded")
	}
	if m.mut > 0 {
		m.fail("refused put changed files", "a refused put made %d changes", m.mut)
	}
	c.Count("odd_puts_refused", 1)
}

func (m *machine) oddGet() {
	w, c := m.w, m.c
	i := c.IntN(w.pieces()+2) - 1
	if c.IntN(3) == 0 {
		i = oddInt(c, w.pieces())
	}
	pl := w.info.PieceLength
	if i >= 0 && i < w.pieces() {
		pl = w.pieceLen(i)
	}
	m.get(i, oddInt(c, 0, pl, w.info.PieceLength), oddInt(c, 0, pl, w.info.PieceLength))
}

type weights struct{ put, bad, again, reset, read, load, oddPut, oddGet int }

// history runs random operations and finishes the torrent.
func (m *machine) history(steps int, ws weights) {
	c, w := m.c, m.w
	m.begin()
	for range steps {
		m.step(ws)
	}
	m.end()
	c.Seen(m.key(), len(w.content), w.info.PieceLength, len(w.info.Files))
	c.Sample("%v: %d operations, e.g. %s", w, len(m.log), strings.Join(m.log[:min(6, len(m.log))], "; "))
}

func (m *machine) begin() {
	m.obs = true
	m.load(false)
	m.state()
	m.order = m.w.allBlocks()
	m.c.Shuffle(len(m.order), func(a, b int) { m.order[a], m.order[b] = m.order[b], m.order[a] })
}

// step performs one operation of a history.
func (m *machine) step(ws weights) {
	c, w, bs := m.c, m.w, m.order
	if len(bs) == 0 {
		return
	}
	total := ws.put + ws.bad + ws.again + ws.reset + ws.read + ws.load + ws.oddPut + ws.oddGet
	k := c.IntN(total)
	pick := func(n int) bool { k -= n; return k < 0 }
	b := bs[c.IntN(len(bs))]
	switch {
	case pick(ws.put):
		// the next block not held, in the random order
		for _, x := range bs {
			if _, have := m.held[x.i][x.begin/blockLen]; !have && !m.complete[x.i] {
				b = x
				break
			}
		}
		m.put(b, true)
	case pick(ws.bad):
		m.put(b, false)
	case pick(ws.again):
		m.put(b, true)
	case pick(ws.reset):
		m.reset(b.i)
	case pick(ws.read):
		m.readSome()
	case pick(ws.load):
		m.load(c.IntN(3) == 0)
	case pick(ws.oddPut):
		m.oddPut()
	default:
		m.oddGet()
	}
	m.state()
	if c.IntN(6) == 0 {
		n := w.pieceLen(b.i)
		a := c.IntN(n)
		m.get(b.i, a, c.IntN(n-a+1))
	}
}

// end completes the torrent.
func (m *machine) end() {
	m.finish()
	m.readSome()
	if m.c.IntN(2) == 0 {
		m.load(false)
		m.state()
		m.readSome()
	}
}

// key tells histories apart.
func (m *machine) key() string {
	key := ""
	for _, l := range m.log {
		key += l[:min(len(l), 26)] + ";"
	}
	return key
}
