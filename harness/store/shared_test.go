package store

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"

	"verif/harness/vk"
)

// together gives worlds the directories of the first, and names and hashes that are
// distinct but alike.
func together(c *vk.Case, n int, o worldOpts) []*world {
	var ws []*world
	names := map[string]bool{}
	for len(ws) < n {
		w := newWorld(c, o)
		if len(ws) > 0 {
			w.drop()
			f := ws[0]
			w.dir, w.target, w.work = f.dir, f.target, f.work
			switch c.IntN(4) {
			case 0: // hashes that begin alike
				last := w.info.SHA1[19]
				w.info.SHA1 = f.info.SHA1
				w.info.SHA1[19] = last
			case 1: // names that begin alike
				w.info.Name = f.info.Name + fmt.Sprint(c.IntN(10))
			case 2: // the same content
				v := newWorld(c, o)
				v.drop()
				v.dir, v.target, v.work = f.dir, f.target, f.work
				v.content, v.info.PieceLength, v.info.Pieces, v.info.Length, v.info.Files = f.content, f.info.PieceLength, f.info.Pieces, f.info.Length, f.info.Files
				w = v
			}
		}
		w.shared = true
		if len(w.info.Name) > 255 || names[w.info.Name] || names[string(w.info.SHA1[:])] {
			if len(ws) == 0 {
				w.drop()
			}
			continue
		}
		names[w.info.Name], names[string(w.info.SHA1[:])] = true, true
		ws = append(ws, w)
	}
	return ws
}

func TestS13(t *testing.T) {
	r := vk.Start(t, "S13", "distinct histories, or schedules, of several torrents that share their directories, each operation judged as if its torrent were alone; non-trivial: two torrents or more had pieces at a time")
	// One operation at a time, with observers in between all file operations
	r.Cases("in turn", r.N(200, 20000), func(c *vk.Case) {
		ws := together(c, 2+c.IntN(3), worldOpts{maxPieces: 3, small: c.IntN(2) == 0, zero: true})
		defer ws[0].drop()
		var ms []*machine
		for _, w := range ws {
			m := newMachine(c, w)
			m.litter = c.IntN(4) == 0
			ms = append(ms, m)
			m.begin()
		}
		order := ""
		for range 10 + c.IntN(50) {
			k := c.IntN(len(ms))
			ms[k].step(weights{put: 8, bad: 3, again: 1, reset: 2, read: 2, load: 2, oddGet: 1})
			order += fmt.Sprint(k)
			ms[c.IntN(len(ms))].state()
		}
		for _, k := range c.Perm(len(ms)) {
			ms[k].end()
			for _, m := range ms {
				m.state()
				m.readSome()
			}
		}
		for _, m := range ms {
			order += m.key()
			c.Count("operations", len(m.log))
		}
		none(c, ws, order)
		c.Seen(order)
		c.Sample("%d torrents: %v ...", len(ws), ws[0])
	})
	// All at once, preempted at every lock and file operation
	r.Cases("at once", r.N(200, 20000), func(c *vk.Case) {
		ws := together(c, 2+c.IntN(3), worldOpts{maxPieces: 3, small: c.IntN(2) == 0})
		defer ws[0].drop()
		ms := make([]*machine, len(ws))
		var mu sync.Mutex
		order := ""
		sp, stop := spread(c, ws[0])
		dead := bubble(c, func(spawn func(func())) {
			var wg sync.WaitGroup
			steps := c.IntN(25)
			for k, w := range ws {
				cc := &vk.Case{Rand: rand.New(rand.NewPCG(c.Uint64(), 1)), Run: c.Run, Group: c.Group, Index: c.Index}
				wg.Add(1)
				go func() {
					defer wg.Done()
					cc.Protect(func() {
						ms[k] = newMachine(cc, w)
						ms[k].blind = true
						ms[k].after = func() {
							mu.Lock()
							order += fmt.Sprint(k)
							mu.Unlock()
						}
						ms[k].begin()
						for range steps {
							sp.Delay()
							ms[k].step(weights{put: 8, bad: 3, again: 1, reset: 2, read: 2, load: 2})
						}
						ms[k].end()
					})
				}()
			}
			wg.Wait()
		})
		stop()
		if dead != "" {
			c.Fail("deadlock", "%s\n%s", dead, blocked(vk.Stacks()))
		}
		if c.Run.Failed() {
			return
		}
		for _, m := range ms {
			m.c = c
			m.state()
			m.readSome()
			c.Count("operations", len(m.log))
		}
		c.Count("yield_points", sp.Points())
		none(c, ws, order)
		c.Seen(order, len(ws))
		c.Sample("%d torrents: %v ...", len(ws), ws[0])
	})
}

// none: with all torrents finished, no file remains in the work directory.
func none(c *vk.Case, ws []*world, order string) {
	for p := range list(ws[0].work) {
		if !strings.HasSuffix(p, "/") || p != ws[0].work+"/temp/" {
			c.Fail("work files remain", "all torrents are finished, and %q remains in the work directory\n%s", ws[0].rel(p), order)
		}
	}
}
