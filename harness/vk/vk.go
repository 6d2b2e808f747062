// Package vk is the part every monitor shares: it hands out seed-determined
// cases, records what was observed, and reports violations.
package vk

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
)

// Violation is a refuted property, with the case that refutes it.
type Violation struct {
	Sig   string `json:"sig"`   // identifies what fails, independent of the run
	What  string `json:"what"`  // the full account
	Group string `json:"group"` // replay: the case group ...
	Index int    `json:"index"` // ... and the case in it
}

type result struct {
	Property     string           `json:"property"`
	Evaluations  int64            `json:"evaluations"`
	Rule         string           `json:"rule"`
	Samples      []string         `json:"samples"`
	Counters     map[string]int64 `json:"counters"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Done         bool             `json:"done"`
}

// Run is one execution of a check (or a shard of one).
type Run struct {
	T        *testing.T
	Prop     string
	Seed     uint64
	Thorough bool
	Shard    int
	Shards   int
	Replay   bool

	only      string
	onlyIndex int
	out       string
	marker    *os.File

	mu       sync.Mutex
	res      result
	seen     map[uint64]struct{}
	groups   map[string]int
	stopped  atomic.Bool
	parallel int
}

// Start reads the run's parameters from the environment.
func Start(t *testing.T, prop, rule string) *Run {
	r := &Run{T: t, Prop: prop, Seed: 1, Shards: 1, out: os.Getenv("VERIF_OUT"),
		seen: make(map[uint64]struct{}), groups: make(map[string]int), parallel: 1}
	r.res.Property, r.res.Rule = prop, rule
	r.res.Counters = make(map[string]int64)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.Seed = s
	}
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	if a, b, ok := strings.Cut(os.Getenv("VERIF_SHARD"), "/"); ok {
		r.Shard, _ = strconv.Atoi(a)
		r.Shards, _ = strconv.Atoi(b)
	}
	if c := os.Getenv("VERIF_CASE"); c != "" {
		i := strings.LastIndex(c, ":")
		r.only = c[:i]
		r.onlyIndex, _ = strconv.Atoi(c[i+1:])
		r.Replay = true
	}
	if m := os.Getenv("VERIF_MARKER"); m != "" {
		r.marker, _ = os.OpenFile(m, os.O_CREATE|os.O_RDWR, 0o600)
	}
	t.Cleanup(r.finish)
	return r
}

// N picks the number of cases for the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	f, ok := more[r.Prop]
	if !ok && !strings.HasPrefix(r.Prop, "P") {
		f = 5
	}
	return max(quick, min(thorough, quick*f))
}

// The checks whose quick runs are not five times as long as their tests say.
var more = map[string]int{"S04": 3, "S06": 3, "S07": 2, "S10": 3, "X02": 2, "X03": 1, "B07": 3}

// Case is one generated execution.
type Case struct {
	*rand.Rand
	Run   *Run
	Group string
	Index int
	keys  []uint64
	n     int64
}

type stop struct{}

// Fail reports a violation and ends the case. sig must name what is wrong and not
// carry details of the run.
func (c *Case) Fail(sig, format string, args ...any) {
	c.Report(sig, fmt.Sprintf(format, args...))
	panic(stop{})
}

// Report reports a violation without ending the case; it may be called from any
// goroutine.
func (c *Case) Report(sig, what string) {
	if len(what) > 20000 {
		what = what[:20000] + " ..."
	}
	c.Run.mu.Lock()
	defer c.Run.mu.Unlock()
	c.Run.res.Violations = append(c.Run.res.Violations, Violation{sig, what, c.Group, c.Index})
	if len(c.Run.res.Violations) >= 8 {
		c.Run.stopped.Store(true)
	}
}

// Skip ends the case without a verdict.
func (c *Case) Skip() { panic(stop{}) }

// Inconclusive records that a verdict could not be reached.
func (c *Case) Inconclusive(format string, args ...any) {
	c.Run.mu.Lock()
	defer c.Run.mu.Unlock()
	c.Run.res.Inconclusive = append(c.Run.res.Inconclusive, fmt.Sprintf(format, args...))
}

// Seen marks the case as having observed something distinct.
func (c *Case) Seen(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.keys = append(c.keys, h.Sum64())
}

// SeenBytes is Seen for raw data.
func (c *Case) SeenBytes(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	c.keys = append(c.keys, h.Sum64())
}

// Evals counts additional evaluations of the oracle in this case.
func (c *Case) Evals(n int) { c.n += int64(n) }

// Count adds to a named counter of observed events.
func (c *Case) Count(name string, n int) {
	if n == 0 {
		return
	}
	c.Run.mu.Lock()
	c.Run.res.Counters[name] += int64(n)
	c.Run.mu.Unlock()
}

// Max raises a named counter.
func (c *Case) Max(name string, n int) {
	c.Run.mu.Lock()
	c.Run.res.Counters[name] = max(c.Run.res.Counters[name], int64(n))
	c.Run.mu.Unlock()
}

// Sample offers a written-out case for the evidence.
func (c *Case) Sample(format string, args ...any) {
	c.Run.mu.Lock()
	defer c.Run.mu.Unlock()
	if c.Run.groups[c.Group] >= 2 || len(c.Run.res.Samples) >= 10 {
		return
	}
	c.Run.groups[c.Group]++
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + " ..."
	}
	c.Run.res.Samples = append(c.Run.res.Samples, fmt.Sprintf("%s:%d %s", c.Group, c.Index, s))
}

// Logf prints during a replay.
func (c *Case) Logf(format string, args ...any) {
	if c.Run.Replay {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}

// Failed reports whether anything was reported so far.
func (r *Run) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.res.Violations) > 0
}

// Cases runs f on the cases 0..n-1 of a group, of which this shard takes its share.
func (r *Run) Cases(group string, n int, f func(c *Case)) {
	if r.only != "" && r.only != group {
		return
	}
	for i := range n {
		if r.stopped.Load() {
			return
		}
		if r.only != "" {
			if i != r.onlyIndex {
				continue
			}
		} else if i%r.Shards != r.Shard {
			continue
		}
		r.one(group, i, f)
	}
}

func (r *Run) one(group string, i int, f func(c *Case)) {
	h := fnv.New64a()
	fmt.Fprint(h, r.Prop, "/", group)
	c := &Case{Rand: rand.New(rand.NewPCG(r.Seed^h.Sum64(), uint64(i)*0x9e3779b97f4a7c15+1)), Run: r, Group: group, Index: i, n: 1}
	r.Mark(group, i)
	c.protect(func() { f(c) })
	r.mu.Lock()
	r.res.Evaluations += c.n
	if len(r.seen) < 400000 {
		for _, k := range c.keys {
			r.seen[k] = struct{}{}
		}
	}
	r.mu.Unlock()
}

// protect turns a panic of the code under test into a violation.
func (c *Case) protect(f func()) {
	defer func() {
		switch p := recover(); p := p.(type) {
		case nil, stop:
		default:
			s := string(debug.Stack())
			c.Report("panic", fmt.Sprintf("panic: %v\n%s", p, s))
		}
	}()
	f()
}

// Protect runs f, reporting a panic as a violation.
func (c *Case) Protect(f func()) { c.protect(f) }

// Mark notes the current case, so that it is known if the process dies in it.
func (r *Run) Mark(group string, i int) {
	if r.marker != nil {
		s := fmt.Sprintf("%s:%d", group, i)
		r.marker.WriteAt([]byte(fmt.Sprintf("%-119s\n", s)), 0)
	}
}

func (r *Run) finish() {
	r.res.Done = true
	r.write()
	if len(r.res.Violations) > 0 {
		for _, v := range r.res.Violations {
			r.T.Errorf("%s:%d [%s] %s", v.Group, v.Index, v.Sig, v.What)
		}
	}
}

func (r *Run) write() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.out == "" {
		r.T.Logf("evaluations=%d distinct=%d counters=%v", r.res.Evaluations, len(r.seen), r.res.Counters)
		return
	}
	data, err := json.Marshal(&r.res)
	if err != nil {
		panic(err)
	}
	keys := make([]uint64, 0, len(r.seen))
	for k := range r.seen {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	b := make([]byte, 0, 8*len(keys))
	for _, k := range keys {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	if err := os.WriteFile(r.out+".keys", b, 0o600); err != nil {
		panic(err)
	}
	tmp := filepath.Join(filepath.Dir(r.out), filepath.Base(r.out)+".tmp")
	if err := os.WriteFile(tmp, data, 0o600); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, r.out); err != nil {
		panic(err)
	}
}

// FinishNow writes the result and ends the process: for runs whose goroutines
// cannot be ended otherwise.
func (r *Run) FinishNow() {
	r.finish()
	code := 0
	if r.Failed() {
		code = 1
	}
	os.Exit(code)
}

// Stacks returns the stacks of all goroutines.
func Stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}
