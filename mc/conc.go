package mc

import (
	"fmt"
	"runtime"
	"time"

	"verif/maporder"
	"verif/sched"
)

// Conc explores the interleavings of goroutines: for every scenario of Body,
// every schedule with at most the scenario's number of preemptions, at the
// scheduling points that cmd/instr inserts before the library's statements.
type Conc struct {
	Name   string
	Shard  int
	Shards int
	Body   func(s *Scenarios)
}

// Scenario is a few goroutines working on fresh containers.
type Scenario struct {
	Name func() string
	// Limits: up to i preemptions if the schedule without any has at most
	// Limits[i-1] decisions (all orders of the goroutines in any case).
	Limits []int
	// Patterns are explored instead, if there are any.
	Patterns []sched.Pattern
	// Fresh builds the containers and the goroutines. obs(i) is what goroutine
	// i observed, after(i) what its container holds in the end.
	Fresh func() (threads []func(), obs, after func(i int) []int64)
}

// Scenarios runs the scenarios of a Conc.
type Scenarios struct {
	c       *Conc
	ctx     *Ctx
	idx     int
	only    int // replay
	plan    []sched.Dev
	pattern *sched.Pattern
	names   bool
	name    string
	failure *Failure
	capped  string
}

// NewConcs makes one job per shard.
func NewConcs(shards int, name string, body func(s *Scenarios)) (r []Job) {
	for i := 0; i < shards; i++ {
		n := name
		if shards > 1 {
			n = fmt.Sprintf("%s #%d/%d", name, i, shards)
		}
		r = append(r, &Conc{n, i, shards, body})
	}
	return
}

func (j *Conc) JobName() string { return j.Name }

func (j *Conc) Run(c *Ctx) *Failure { return j.run(c, -1, nil, nil) }

func (j *Conc) Replay(c *Ctx, f *Failure) *Failure {
	var p []sched.Dev
	if len(f.History) > 1 && f.History[0] < 0 {
		pat := sched.Pattern{Ops: f.History[0] == -2}
		copy(pat.Quantum[:], f.History[1:])
		return j.run(c, f.Case, nil, &pat)
	}
	for i := 0; i+1 < len(f.History); i += 2 {
		p = append(p, sched.Dev{Pos: f.History[i], Thread: f.History[i+1]})
	}
	return j.run(c, f.Case, p, nil)
}

// CaseName is the name of a scenario.
func (j *Conc) CaseName(i int) string {
	s := &Scenarios{c: j, only: i, names: true}
	j.Body(s)
	return s.name
}

func (j *Conc) run(c *Ctx, only int, plan []sched.Dev, pat *sched.Pattern) *Failure {
	t0 := time.Now()
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	s := &Scenarios{c: j, ctx: c, only: only, plan: plan, pattern: pat}
	before := sched.Points()
	order := maporder.Policy
	maporder.Policy = 0 // the same in every execution
	defer func() { maporder.Policy = order }()
	j.Body(s)
	c.Stats.Add("scheduling_points_passed", sched.Points()-before)
	c.Stats.Add("turns_taken_from_blocked_goroutines", sched.Steals())
	c.Stats.Capped = s.capped
	c.Stats.Closed = s.failure == nil && s.capped == ""
	c.Stats.WallS = time.Since(t0).Seconds()
	return s.failure
}

const maxDecisions = 4096

// Do explores one scenario.
func (s *Scenarios) Do(sc Scenario) {
	i := s.idx
	s.idx++
	if s.failure != nil || s.capped != "" {
		return
	}
	if s.only >= 0 {
		if i != s.only {
			return
		}
		if s.names {
			s.name = sc.Name()
			return
		}
	} else {
		if s.c.Shards > 1 && i%s.c.Shards != s.c.Shard {
			return
		}
		if r := s.ctx.stop(); r != "" {
			s.capped = r
			return
		}
	}
	s.ctx.Journal.Case(i)
	st := &s.ctx.Stats
	st.Cases++
	if st.Sample == "" || st.Cases == 40 {
		st.Sample = sc.Name()
	}
	// what every goroutine does alone
	threads, _, _ := sc.Fresh()
	n := len(threads)
	var want, wantAfter [][]int64
	for k := 0; k < n; k++ {
		t, obs, after := sc.Fresh()
		t[k]()
		want = append(want, obs(k))
		wantAfter = append(wantAfter, after(k))
	}
	if len(sc.Patterns) > 0 {
		s.patterns(i, &sc, want, wantAfter)
		return
	}
	outcomes := map[string]bool{}
	truncated := false
	fail := func(plan []sched.Dev, format string, args ...any) {
		s.failure = &Failure{Job: s.c.Name, Kind: "schedule", Case: i, CaseName: sc.Name(), Msg: fmt.Sprintf(format, args...)}
		for _, d := range plan {
			s.failure.History = append(s.failure.History, d.Pos, d.Thread)
			s.failure.Ops = append(s.failure.Ops, fmt.Sprintf("at decision %d goroutine %d goes on", d.Pos, d.Thread))
		}
	}
	type item struct {
		plan []sched.Dev
		cost int
	}
	bound := 0
	stack := []item{{s.plan, 0}}
	for len(stack) > 0 && s.failure == nil {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		s.ctx.Journal.Beat()
		threads, obs, after := sc.Fresh()
		r := sched.Run(threads, it.plan, maxDecisions)
		st.Histories++
		st.Steps += int64(n)
		st.Transitions += int64(len(r.Trace))
		if len(r.Trace) > st.MaxDepth {
			st.MaxDepth = len(r.Trace)
		}
		truncated = truncated || r.Overflow
		if r.Diverged {
			st.Divergent++
		}
		if r.Panic != nil {
			fail(it.plan, "goroutine %d panicked: %v", r.Who, r.Panic)
			break
		}
		if len(it.plan) == 0 {
			for bound < len(sc.Limits) && len(r.Trace) <= sc.Limits[bound] {
				bound++
			}
			st.Add(fmt.Sprintf("scenarios_with_preemption_bound_%d", bound), 1)
		}
		out := ""
		for k := 0; k < n && s.failure == nil; k++ {
			o, a := obs(k), after(k)
			if !eq64(o, want[k]) {
				fail(it.plan, "goroutine %d observed %v; alone it observes %v", k, o, want[k])
			} else if !eq64(a, wantAfter[k]) {
				fail(it.plan, "the container of goroutine %d holds %v in the end; had it run alone, %v", k, a, wantAfter[k])
			}
			out += fmt.Sprint(o, a)
		}
		if !outcomes[out] {
			outcomes[out] = true
			st.States++
		}
		if s.plan != nil {
			break // replay of one schedule
		}
		from := 0
		if l := len(it.plan); l > 0 {
			from = it.plan[l-1].Pos + 1
		}
		for d := from; d < len(r.Trace); d++ {
			t := r.Trace[d]
			cost := it.cost
			if t.Running >= 0 {
				cost++
			}
			if cost > bound {
				continue
			}
			for k := 0; k < n; k++ {
				if k != int(t.Chosen) && t.Enabled>>k&1 == 1 {
					p := append(it.plan[:len(it.plan):len(it.plan)], sched.Dev{Pos: d, Thread: k})
					stack = append(stack, item{p, cost})
				}
			}
		}
		if len(stack)&255 == 0 {
			if r := s.ctx.stop(); r != "" {
				s.capped = r
				return
			}
		}
	}
	if truncated {
		st.Add("scenarios_longer_than_decision_limit", 1)
	}
}

// patterns runs the scenario under its periodic schedules.
func (s *Scenarios) patterns(i int, sc *Scenario, want, wantAfter [][]int64) {
	st := &s.ctx.Stats
	pats := sc.Patterns
	if s.pattern != nil {
		pats = []sched.Pattern{*s.pattern}
	}
	for _, p := range pats {
		s.ctx.Journal.Beat()
		threads, obs, after := sc.Fresh()
		p0 := sched.Points()
		r := sched.RunPattern(threads, &p)
		st.Histories++
		st.Steps += int64(len(threads))
		st.Transitions += sched.Points() - p0
		st.Add("periodic_schedules", 1)
		fail := func(format string, args ...any) {
			s.failure = &Failure{Job: s.c.Name, Kind: "schedule", Case: i, CaseName: sc.Name(), Msg: fmt.Sprintf(format, args...)}
			h := []int{cond(p.Ops, -2, -1)}
			for k := range threads {
				h = append(h, p.Quantum[k])
				s.failure.Ops = append(s.failure.Ops, fmt.Sprintf("goroutine %d goes on for %d %s at a time", k, p.Quantum[k], cond(p.Ops, "operations", "statements")))
			}
			s.failure.History = h
		}
		if r.Panic != nil {
			fail("goroutine %d panicked: %v", r.Who, r.Panic)
			return
		}
		for k := range threads {
			if o, a := obs(k), after(k); !eq64(o, want[k]) {
				at := 0
				for at < len(o) && at < len(want[k]) && o[at] == want[k][at] {
					at++
				}
				fail("observation %d of goroutine %d differs from what it observes alone", at, k)
				return
			} else if !eq64(a, wantAfter[k]) {
				fail("the container of goroutine %d holds %v in the end; had it run alone, %v", k, a, wantAfter[k])
				return
			}
		}
	}
	st.States++
}

func cond[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

func eq64(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
