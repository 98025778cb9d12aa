// Package mc is an explicit-state model checker that runs directly on the real
// implementation: states are real objects built through the public API,
// transitions are public operations, and every transition is compared with a
// reference model.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Sys is one instance of the system under test together with its reference
// model.
type Sys interface {
	// Apply runs operation op on implementation and model and compares the
	// results. It reports false if op is not enabled in this state (and then
	// must not have changed anything).
	Apply(op int) (enabled bool, err error)
	// Observe compares every observer of the implementation with the model.
	Observe() error
	// Roots returns the roots of the state, model first.
	Roots() []any
}

// ObserveOp is the pseudo operation "run all observers": observers must not
// influence later behaviour, so it is part of every alphabet.
const ObserveOp = -1

// A Sys may be a Reader: single observers (one lookup of one key, say), each
// of which is an operation of its own as well, numbered from -2 down. They must
// not influence later behaviour either; where the code remembers anything about
// the last of them, the exploration goes on from there.
type Reader interface {
	NReads() int
	Read(i int) any // a summary of the answer that does not depend on iteration order
	ReadName(i int) string
}

func readOp(i int) int { return -2 - i }

// Space is a transition system explored breadth first.
type Space struct {
	Name      string
	New       func() Sys
	NOps      int
	OpName    func(op int) string
	HistName  func(h []int) []string // overrides OpName for whole histories
	Init      int                    // operations 0..Init-1 choose a configuration: only and exactly they are enabled first
	Depth     int                    // maximal history length; 0 = until fixpoint
	NoRepeat  bool                   // repeating operations without end is beyond what the property promises
	NoLoop    func(op int) bool      // operations (counted from Init) that are not to be repeated, nor any others very often
	MaxStates int                    // safety cap; hitting it is reported, never silent
}

// Failure is a counterexample.
type Failure struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Job      string   `json:"job"`
	Kind     string   `json:"kind"`
	History  []int    `json:"history,omitempty"`
	Ops      []string `json:"ops,omitempty"`
	Case     int      `json:"case,omitempty"`
	CaseName string   `json:"case_name,omitempty"`
	Msg      string   `json:"msg"`
	Crash    bool     `json:"crash,omitempty"`
}

func (f *Failure) Error() string { return f.Msg }

// Stats describes what a job covered; every number is measured.
type Stats struct {
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Histories   int64            `json:"histories"` // complete histories executed on the implementation
	Steps       int64            `json:"steps"`     // operations executed on the implementation, replays included
	Cases       int64            `json:"cases"`     // cases of enumerated families
	MaxDepth    int              `json:"max_depth"`
	Closed      bool             `json:"closed"` // fixpoint reached or family completely enumerated
	Capped      string           `json:"capped,omitempty"`
	Divergent   int64            `json:"divergent,omitempty"`
	OpCount     map[string]int64 `json:"op_count,omitempty"`
	Sample      string           `json:"sample,omitempty"`
	Extra       map[string]int64 `json:"extra,omitempty"`
	WallS       float64          `json:"wall_s"`
}

func (s *Stats) Add(name string, n int64) {
	if s.Extra == nil {
		s.Extra = map[string]int64{}
	}
	s.Extra[name] += n
}

// Job is a unit of work of a check.
type Job interface {
	JobName() string
	Run(c *Ctx) *Failure
	Replay(c *Ctx, f *Failure) *Failure
}

// Ctx is the environment of a running job.
type Ctx struct {
	Stats    Stats
	Deadline time.Time
	Journal  *Journal
	Budget   time.Duration // for the breadth first search of one Space
	Loops    time.Duration // for the loops of an unfinished Space
	Repeat   int64         // operations for the loops of a finished Space
	Stop     func() string // non-empty: stop and report this cap
	canon    *Canon
}

func NewCtx() *Ctx { return &Ctx{canon: NewCanon(), Journal: &Journal{}} }

func (c *Ctx) stop() string {
	if !c.Deadline.IsZero() && time.Now().After(c.Deadline) {
		return "deadline"
	}
	if c.Stop != nil {
		return c.Stop()
	}
	return ""
}

type node struct {
	parent int32
	op     int16
	depth  int16
}

// config is a Sys whose first operation chooses a configuration.
type config struct {
	mk    func(i int) Sys
	n     int
	inner Sys
	which int
}

func (c *config) Apply(op int) (bool, error) {
	if c.inner == nil {
		if op >= c.n {
			return false, nil
		}
		c.which = op
		c.inner = c.mk(op)
		return true, nil
	}
	return c.inner.Apply(op - c.n)
}

func (c *config) Observe() error {
	if c.inner == nil {
		return nil
	}
	return c.inner.Observe()
}

func (c *config) Roots() []any {
	if c.inner == nil {
		return nil
	}
	return append([]any{c.which}, c.inner.Roots()...)
}

func (c *config) reader() Reader {
	r, _ := c.inner.(Reader)
	return r
}

func (c *config) NReads() int {
	if r := c.reader(); r != nil {
		return r.NReads()
	}
	return 0
}
func (c *config) Read(i int) any        { return c.reader().Read(i) }
func (c *config) ReadName(i int) string { return c.reader().ReadName(i) }

// Configs explores one space per configuration, in shards jobs; the choice of
// the configuration is the first operation of each history.
func Configs(shards int, name string, cfgs []string, nops int, opName func(op int) string, depth int, mk func(i int) Sys) []Job {
	if shards > len(cfgs) {
		shards = len(cfgs)
	}
	var js []Job
	for sh := 0; sh < shards; sh++ {
		var idx []int
		for i := sh; i < len(cfgs); i += shards {
			idx = append(idx, i)
		}
		nm := name
		if shards > 1 {
			nm = fmt.Sprintf("%s#%d/%d", name, sh, shards)
		}
		d := depth
		if d > 0 {
			d++
		}
		js = append(js, &Space{
			Name: nm,
			Init: len(idx),
			NOps: nops + len(idx),
			New:  func() Sys { return &config{n: len(idx), mk: func(i int) Sys { return mk(idx[i]) }} },
			OpName: func(op int) string {
				if op < len(idx) {
					return "config(" + cfgs[idx[op]] + ")"
				}
				return opName(op - len(idx))
			},
			Depth: d,
		})
	}
	return js
}

func (s *Space) JobName() string { return s.Name }

func (s *Space) opName(op int) string {
	if op == ObserveOp {
		return "observe"
	}
	if op < ObserveOp {
		return "read"
	}
	if s.OpName != nil {
		return s.OpName(op)
	}
	return fmt.Sprint("op", op)
}

func (s *Space) histNames(h []int) (r []string) {
	if s.HistName != nil {
		return s.HistName(h)
	}
	var rd Reader
	for i, op := range h {
		if op < ObserveOp && rd == nil {
			guard("names", func() error {
				sys := s.New()
				for _, o := range h[:min(i, 1)] {
					if o >= 0 && o < s.Init {
						sys.Apply(o)
					}
				}
				rd, _ = sys.(Reader)
				return nil
			})
		}
		if op < ObserveOp && rd != nil {
			r = append(r, rd.ReadName(-2-op))
			continue
		}
		r = append(r, s.opName(op))
	}
	return
}

// guard runs f and turns a panic into an error.
func guard(what string, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if fe, ok := r.(failPanic); ok {
				err = fe.err
				return
			}
			err = fmt.Errorf("%s: unexpected panic: %v [at %s]", what, r, panicSite())
		}
	}()
	return f()
}

func panicSite() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") && !strings.Contains(l, "/mc/") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/debug/") {
			if i := strings.Index(l, " +"); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// step applies op to sys; observe after it if obs is set.
func (s *Space) step(c *Ctx, sys Sys, op int, obs bool) (enabled bool, err error) {
	defer func() {
		if err != nil && strings.HasPrefix(err.Error(), "?: ") {
			err = fmt.Errorf("%s%s", s.opName(op), err.Error()[1:])
		}
	}()
	err = guard("?", func() error {
		var e error
		if op == ObserveOp {
			enabled = true
		} else if op < ObserveOp {
			enabled = true
			c.Stats.Steps++
			r := sys.(Reader).Read(-2 - op)
			if !obs {
				return nil
			}
			a := fmt.Sprint(r)
			if e := sys.Observe(); e != nil {
				return e
			}
			if b := fmt.Sprint(sys.(Reader).Read(-2 - op)); a != b {
				return fmt.Errorf("answers %s, and %s after the other observers", a, b)
			}
			return nil
		} else {
			c.Stats.Steps++
			enabled, e = sys.Apply(op)
			if e != nil || !enabled {
				return e
			}
		}
		if obs || op == ObserveOp {
			return sys.Observe()
		}
		return nil
	})
	return
}

// reads runs every single observer after the history h and returns those that
// have to be explored as operations: all of them if any changes the state.
//
// each: compare the state after each one, not only after all of them.
func (s *Space) reads(c *Ctx, h []int, each bool) (ops []int, f *Failure) {
	var sys Sys
	var n int
	build := func() (err error) {
		sys = s.New()
		for _, o := range h {
			if _, err = s.step(c, sys, o, false); err != nil {
				return
			}
		}
		if r, ok := sys.(Reader); ok {
			n = r.NReads()
		}
		return
	}
	c.Journal.Space(h)
	if err := guard("new", build); err != nil {
		return nil, s.fail(h, fmt.Errorf("on re-execution: %w", err))
	}
	if n == 0 {
		return
	}
	k := c.canon.Key(sys.Roots()...)
	for i := 0; i < n; i++ {
		full := append(h[:len(h):len(h)], readOp(i))
		c.Journal.Space(full)
		if _, err := s.step(c, sys, readOp(i), false); err != nil {
			return nil, s.fail(full, err)
		}
		if !each && i < n-1 {
			continue
		}
		c.Stats.Transitions++
		if c.canon.Key(sys.Roots()...) != k {
			for j := 0; j < n; j++ {
				ops = append(ops, readOp(j))
			}
			return
		}
	}
	c.Stats.Add("single_reads", int64(n))
	return
}

func (s *Space) fail(hist []int, err error) *Failure {
	f := &Failure{Job: s.Name, Kind: "space", History: append([]int{}, hist...), Msg: err.Error()}
	f.Ops = compress(s.histNames(hist))
	return f
}

// Run explores the space breadth first.
func (s *Space) Run(c *Ctx) *Failure {
	t0 := time.Now()
	defer func() { c.Stats.WallS = time.Since(t0).Seconds() }()
	maxStates := s.MaxStates
	if maxStates == 0 {
		maxStates = 4000000
	}
	seen := map[Key]struct{}{}
	nodes := []node{{parent: -1}}
	var hist []int
	path := func(i int32) []int {
		hist = hist[:0]
		for i > 0 {
			hist = append(hist, int(nodes[i].op))
			i = nodes[i].parent
		}
		for l, r := 0, len(hist)-1; l < r; l, r = l+1, r-1 {
			hist[l], hist[r] = hist[r], hist[l]
		}
		return hist
	}
	opCount := make([]int64, s.NOps+1)
	final := func() {
		c.Stats.OpCount = map[string]int64{}
		for i, n := range opCount {
			// aggregate by operation, not by argument
			name := s.opName(i - 1)
			if j := strings.IndexAny(name, "(["); j > 0 {
				name = name[:j]
			}
			c.Stats.OpCount[name] += n
		}
		c.Stats.States = int64(len(seen))
	}
	defer func() { final() }()

	// initial state
	c.Journal.Space(nil)
	var sys Sys
	if err := guard("new", func() error { sys = s.New(); return sys.Observe() }); err != nil {
		return s.fail(nil, err)
	}
	c.Stats.Histories++
	seen[c.canon.Key(s.New().Roots()...)] = struct{}{}

	capped := ""
	budget := ""
	var last int32
	// base states of the loops of an unfinished space: per configuration the
	// first state and the first of the largest
	type base struct {
		first, large int32
		size         int
	}
	bases := map[int]*base{}
	var order []int
	note := func(i int32, size int) {
		cfg := -1
		if s.Init > 0 {
			cfg = path(i)[0]
		}
		b := bases[cfg]
		if b == nil {
			b = &base{first: i, large: i, size: size}
			bases[cfg] = b
			order = append(order, cfg)
		} else if size > b.size {
			b.large, b.size = i, size
		}
	}
	if s.Init == 0 {
		note(0, 0)
	}
	for i := int32(0); int(i) < len(nodes); i++ {
		nd := nodes[i]
		if s.Depth > 0 && int(nd.depth) >= s.Depth {
			continue
		}
		if int(nd.depth) > c.Stats.MaxDepth {
			c.Stats.MaxDepth = int(nd.depth)
		}
		if i%64 == 0 {
			if capped = c.stop(); capped != "" {
				if capped == "memory" {
					budget = capped
				}
				break
			}
			if c.Budget > 0 && time.Since(t0) > c.Budget {
				capped = fmt.Sprintf("budget of %v for one space", c.Budget)
				budget = capped
				break
			}
		}
		h := append([]int(nil), path(i)...)
		reads, f := s.reads(c, h, i < 1000)
		if f != nil {
			return f
		}
		for k := -len(reads); k < s.NOps+1; k++ {
			op := k - 1
			if k < 0 {
				op = reads[-1-k]
			}
			if s.Init > 0 {
				if root := len(h) == 0; root && op >= s.Init {
					break
				} else if !root && op >= 0 && op < s.Init {
					op = s.Init
					k = op + 1
				}
			}
			full := append(h, op)
			c.Journal.Space(full)
			var sys Sys
			var err error
			bad := 0
			if err = guard("new", func() error { sys = s.New(); return nil }); err == nil {
				for k, o := range h {
					if _, err = s.step(c, sys, o, false); err != nil {
						bad = k + 1
						break
					}
				}
			}
			if err != nil {
				return s.fail(h[:bad], fmt.Errorf("on re-execution: %w", err))
			}
			answer := ""
			enabled := true
			if op < ObserveOp {
				err = guard("read", func() error { answer = fmt.Sprint(sys.(Reader).Read(-2 - op)); return nil })
				c.Stats.Steps++
			} else {
				enabled, err = s.step(c, sys, op, false)
			}
			if err != nil {
				return s.fail(full, err)
			}
			if !enabled {
				continue
			}
			c.Stats.Histories++
			c.Stats.Transitions++
			opCount[max(op, ObserveOp)+1]++
			// The key is taken before the observers run: continuations are
			// re-executed without them. Should observing change the state, the
			// observe operation itself leads to that other state.
			k := c.canon.Key(sys.Roots()...)
			if op != ObserveOp {
				if err := guard("observe", sys.Observe); err != nil {
					return s.fail(full, err)
				}
			}
			if op < ObserveOp {
				again := ""
				err := guard("read", func() error { again = fmt.Sprint(sys.(Reader).Read(-2 - op)); return nil })
				if err == nil && again != answer {
					err = fmt.Errorf("answers %s, and %s after the other observers", answer, again)
				}
				if err != nil {
					return s.fail(full, err)
				}
			}
			if _, ok := seen[k]; ok {
				continue
			}
			seen[k] = struct{}{}
			nodes = append(nodes, node{parent: i, op: int16(op), depth: nd.depth + 1})
			last = int32(len(nodes) - 1)
			if last < 2000 {
				note(last, len(c.canon.buf))
			}
			if len(nodes) >= maxStates {
				capped = fmt.Sprintf("state cap %d", maxStates)
				budget = capped
				break
			}
		}
		if capped != "" {
			break
		}
	}
	c.Stats.Capped = capped
	c.Stats.Closed = capped == ""
	if last > 0 {
		c.Stats.Sample = s.Name + ": " + s.histString(path(last))
		if int(nodes[last].depth) > c.Stats.MaxDepth {
			c.Stats.MaxDepth = int(nodes[last].depth)
		}
	}
	var bs [][]int
	for _, cfg := range order {
		b := bases[cfg]
		bs = append(bs, append([]int(nil), path(b.first)...))
		if b.large != b.first {
			bs = append(bs, append([]int(nil), path(b.large)...))
		}
	}
	final()
	final = func() {}
	seen, nodes = nil, nil
	if budget != "" && s.Depth == 0 && c.Loops > 0 {
		runtime.GC()
		return s.lasso(c, bs, c.Loops)
	}
	if capped == "" && c.Repeat > 0 && !s.NoRepeat {
		return s.repeat(c, bs, c.Repeat)
	}
	return nil
}

func (s *Space) histString(h []int) string {
	var b strings.Builder
	for i, op := range s.histNames(h) {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(op)
		if b.Len() > 400 {
			b.WriteString("; ...")
			break
		}
	}
	return b.String()
}

// Replay re-executes a counterexample without the explorer.
func (s *Space) Replay(c *Ctx, f *Failure) *Failure {
	c.Journal.Space(f.History)
	var sys Sys
	if err := guard("new", func() error { sys = s.New(); return sys.Observe() }); err != nil {
		return s.fail(nil, err)
	}
	// as found: observers only at the end ...
	sys = s.New()
	for i, op := range f.History {
		lastOp := i == len(f.History)-1
		if _, err := s.step(c, sys, op, lastOp); err != nil {
			return s.fail(f.History[:i+1], err)
		}
	}
	// ... and once more with observers after every operation.
	sys = s.New()
	for i, op := range f.History {
		if _, err := s.step(c, sys, op, true); err != nil {
			return s.fail(f.History[:i+1], err)
		}
	}
	return nil
}

type failPanic struct{ err error }

// Sweep is a completely enumerated family of cases.
type Sweep struct {
	Name   string
	Shard  int
	Shards int
	Body   func(cs *Cases)
}

// Cases runs the cases of a Sweep.
type Cases struct {
	ctx     *Ctx
	sweep   *Sweep
	idx     int
	replay  int
	failure *Failure
	stopped bool
	capped  string
	seen    map[Key]struct{}
	t       T
}

// T is passed to each case.
type T struct {
	cs     *Cases
	steps  int64
	stated bool
}

// Shard splits a sweep into n jobs.
func Shard(n int, name string, body func(cs *Cases)) []Job {
	var js []Job
	for i := 0; i < n; i++ {
		nm := name
		if n > 1 {
			nm = fmt.Sprintf("%s#%d/%d", name, i, n)
		}
		js = append(js, &Sweep{Name: nm, Shard: i, Shards: n, Body: body})
	}
	return js
}

func (s *Sweep) JobName() string { return s.Name }

func (s *Sweep) Run(c *Ctx) *Failure { return s.run(c, -1) }

func (s *Sweep) Replay(c *Ctx, f *Failure) *Failure { return s.run(c, f.Case) }

func (s *Sweep) run(c *Ctx, replay int) *Failure {
	t0 := time.Now()
	cs := &Cases{ctx: c, sweep: s, replay: replay, seen: map[Key]struct{}{}}
	cs.t.cs = cs
	s.Body(cs)
	c.Stats.States = int64(len(cs.seen))
	c.Stats.Steps += cs.t.steps
	c.Stats.Closed = cs.failure == nil && cs.capped == ""
	c.Stats.Capped = cs.capped
	c.Stats.WallS = time.Since(t0).Seconds()
	return cs.failure
}

// Stopped reports that no further case will run; enumerations may return.
func (cs *Cases) Stopped() bool { return cs.stopped }

// Do runs one case.
func (cs *Cases) Do(name func() string, fn func(t *T)) {
	i := cs.idx
	cs.idx++
	if cs.stopped {
		return
	}
	if cs.sweep.Shards > 1 && i%cs.sweep.Shards != cs.sweep.Shard {
		return
	}
	if cs.replay >= 0 && i != cs.replay {
		return
	}
	c := cs.ctx
	if c.Stats.Cases&63 == 0 && cs.replay < 0 {
		if r := c.stop(); r != "" {
			cs.stopped, cs.capped = true, r
			return
		}
	}
	c.Journal.Case(i)
	c.Stats.Cases++
	c.Stats.Histories++
	cs.t.stated = false
	err := guard("case", func() error { fn(&cs.t); return nil })
	if err != nil {
		cs.failure = &Failure{Job: cs.sweep.Name, Kind: "sweep", Case: i, CaseName: name(), Msg: err.Error()}
		cs.stopped = true
		return
	}
	if !cs.t.stated { // the enumerated input is the state
		cs.t.State(cs.sweep.Name, i)
	}
	if c.Stats.Sample == "" {
		c.Stats.Sample = cs.sweep.Name + ": " + name()
	}
	if cs.replay >= 0 {
		cs.stopped = true
	}
}

// Step marks one more operation on the implementation.
func (t *T) Step() {
	t.steps++
	t.cs.ctx.Stats.Transitions++
	t.cs.ctx.Journal.Beat()
}

// Failf ends the case with a violation.
func (t *T) Failf(format string, args ...any) {
	panic(failPanic{fmt.Errorf(format, args...)})
}

// Check ends the case with a violation if err is not nil.
func (t *T) Check(err error) {
	if err != nil {
		panic(failPanic{err})
	}
}

// State counts the distinct canonical states reached.
func (t *T) State(roots ...any) {
	t.stated = true
	t.cs.seen[t.cs.ctx.canon.Key(roots...)] = struct{}{}
}

// Add adds to an extra counter of the evidence.
func (t *T) Add(name string, n int64) { t.cs.ctx.Stats.Add(name, n) }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			if fe, ok := r.(failPanic); ok {
				panic(fe)
			}
			p, val = true, r
		}
	}()
	f()
	return false, nil
}

// Errf is fmt.Errorf, shortened.
func Errf(format string, args ...any) error { return fmt.Errorf(format, args...) }
