package store

import (
	"testing"

	"verif/harness/vk"
)

func TestS01(t *testing.T) {
	r := vk.Start(t, "S01", "distinct histories (operations with their arguments' classes, and layout of the torrent) on which every read, every advertised piece and, in between all file operations, the target directory were compared with the verified content")
	r.Cases("corrupt", r.N(700, 60000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{})
		defer w.drop()
		m := newMachine(c, w)
		m.litter = c.IntN(3) == 0
		m.history(10+c.IntN(25), weights{put: 8, bad: 6, again: 2, reset: 4, read: 2, load: 1, oddGet: 1})
	})
	r.Cases("mixed", r.N(300, 20000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 8, small: true})
		defer w.drop()
		m := newMachine(c, w)
		m.litter = c.IntN(2) == 0
		m.history(20+c.IntN(60), weights{put: 4, bad: 4, again: 2, reset: 5, read: 1, load: 2, oddPut: 1, oddGet: 1})
	})
}

func TestS02(t *testing.T) {
	r := vk.Start(t, "S02", "distinct histories on torrents whose finished files were compared byte for byte, with ranges across file, block and piece boundaries read before and after")
	r.Cases("multi", r.N(900, 60000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{multi: true, zero: true, maxPieces: 1 + c.IntN(6)})
		defer w.drop()
		newMachine(c, w).history(c.IntN(14), weights{put: 8, read: 3, load: 1, oddGet: 2})
	})
	r.Cases("single", r.N(300, 20000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{single: true, zero: true, maxPieces: 1 + c.IntN(6)})
		defer w.drop()
		newMachine(c, w).history(c.IntN(14), weights{put: 8, read: 3, load: 1, oddGet: 2})
	})
	r.Cases("many", r.N(40, 1500), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 70, small: true})
		defer w.drop()
		newMachine(c, w).history(c.IntN(30), weights{put: 8, read: 1, load: 1})
	})
}

func TestS03(t *testing.T) {
	r := vk.Start(t, "S03", "distinct histories with puts and reads of arbitrary indices, offsets and lengths, each judged by an independent model, in all states of the pieces")
	r.Cases("odd", r.N(900, 60000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{})
		defer w.drop()
		newMachine(c, w).history(20+c.IntN(40), weights{put: 4, bad: 1, again: 4, reset: 1, read: 1, load: 1, oddPut: 14, oddGet: 8})
	})
	// Every offset and length around every boundary of small torrents
	r.Cases("grid", r.N(24, 600), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 2})
		defer w.drop()
		m := newMachine(c, w)
		m.load(false)
		near := []int{-1, 0, 1, blockLen - 1, blockLen, blockLen + 1, w.info.PieceLength - 1, w.info.PieceLength, w.info.PieceLength + 1, 2 * blockLen, 2*blockLen + 1,
			w.pieceLen(w.pieces()-1) - 1, w.pieceLen(w.pieces() - 1), w.pieceLen(w.pieces()-1) + 1, 3 * blockLen}
		lens := []int{0, 1, blockLen - 1, blockLen, blockLen + 1, 2 * blockLen, w.pieceLen(w.pieces()-1) % blockLen, w.info.PieceLength % blockLen, w.info.PieceLength}
		buf := make([]byte, 4*blockLen)
		for i := -1; i <= w.pieces(); i++ {
			for _, b := range near {
				for _, n := range lens {
					isBlock := false
					if i >= 0 && i < w.pieces() {
						for _, x := range w.blocks(i) {
							isBlock = isBlock || x.begin == b && x.n == n
						}
					}
					if !isBlock {
						c.Evals(1)
						if err := m.s.PutBlock(i, b, buf[:n]); err == nil {
							m.fail("bad block admitted", "put piece=%d begin=%d length=%d succeeded", i, b, n)
						}
						c.Count("odd_puts_refused", 1)
					}
					m.get(i, b, n)
				}
			}
		}
		m.state()
		m.finish()
		for i := -1; i <= w.pieces(); i++ {
			for _, b := range near {
				for _, n := range append(lens, near...) {
					m.get(i, b, n)
				}
			}
		}
		c.Seen("grid", len(w.content), w.info.PieceLength, len(w.info.Files))
	})
}

func TestS09(t *testing.T) {
	r := vk.Start(t, "S09", "distinct histories of puts (good, corrupt, repeated), resets, loads and completions, after each step of which, and in between the file operations, the count was compared with the pieces held")
	r.Cases("history", r.N(900, 60000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{zero: true})
		defer w.drop()
		m := newMachine(c, w)
		m.litter = c.IntN(3) == 0
		m.history(15+c.IntN(30), weights{put: 8, bad: 4, again: 4, reset: 4, load: 3, oddPut: 1})
	})
	r.Cases("many", r.N(100, 8000), func(c *vk.Case) {
		w := newWorld(c, worldOpts{maxPieces: 20, small: true})
		defer w.drop()
		m := newMachine(c, w)
		m.litter = c.IntN(3) == 0
		m.history(40, weights{put: 8, bad: 3, again: 3, reset: 3, load: 4})
	})
}
