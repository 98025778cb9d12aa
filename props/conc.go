package props

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/sched"
)

// script makes the goroutine that runs the operations one after the other.
func script(ops []cop, r *rec) func() {
	return func() {
		defer func() {
			if p := recover(); p != nil {
				r.I(-999)
				r.S(fmt.Sprint(p))
			}
		}()
		for _, o := range ops {
			o.f(r)
			sched.Op()
		}
	}
}

func (o *cobj) op(i int) cop {
	if i < len(o.reads) {
		return o.reads[i]
	}
	if i -= len(o.reads); i < len(o.writes) {
		return o.writes[i]
	}
	return o.more[i-len(o.writes)]
}

// concScenario: goroutine k runs the operations numbered ops[k] on container
// k, or on container 0 if shared (then container `which` of the family's).
func concScenario(fam cfam, v int, limits []int, shared, which int, ops ...[]int) mc.Scenario {
	return concScenarioAfter(-1, fam, v, limits, shared, which, ops...)
}

// concScenarioAfter: operation w (if any) was done before the goroutines start.
func concScenarioAfter(w int, fam cfam, v int, limits []int, shared, which int, ops ...[]int) mc.Scenario {
	n := len(ops)
	pick := func(os []*cobj, k int) *cobj {
		if shared > 0 {
			return os[which]
		}
		return os[k]
	}
	made := cond(shared > 0, shared, n)
	return mc.Scenario{
		Limits: limits,
		Name: func() string {
			objs := fam.mk(v, made)
			s := fmt.Sprintf("%s (%s)", fam.name, fam.variants[v])
			if w >= 0 {
				s += " after " + pick(objs, 0).op(w).name
			}
			if shared > 0 {
				s += fmt.Sprintf(" container %d", which)
			}
			for k, l := range ops {
				s += cond(k == 0, ": ", " || ")
				for i, o := range l {
					s += cond(i == 0, "", "; ") + pick(objs, k).op(o).name
				}
			}
			return s
		},
		Fresh: func() ([]func(), func(i int) []int64, func(i int) []int64) {
			objs := fam.mk(v, made)
			recs := make([]*rec, n)
			threads := make([]func(), n)
			if w >= 0 {
				script([]cop{pick(objs, 0).op(w)}, &rec{})()
			}
			for k, l := range ops {
				recs[k] = &rec{}
				var cs []cop
				for _, o := range l {
					cs = append(cs, pick(objs, k).op(o))
				}
				threads[k] = script(cs, recs[k])
			}
			return threads, func(i int) []int64 { return recs[i].v }, func(i int) []int64 {
				var r rec
				pick(objs, i).all(&r)
				return r.v
			}
		},
	}
}

// rounds: goroutine k repeats the operations numbered ops[k] n times, under
// periodic schedules. It is for what changes only after many operations.
func rounds(n int, pats []sched.Pattern, fam cfam, v int, shared, which int, ops ...[]int) mc.Scenario {
	rep := make([][]int, len(ops))
	for k, l := range ops {
		for i := 0; i < n; i++ {
			rep[k] = append(rep[k], l...)
		}
	}
	sc := concScenario(fam, v, nil, shared, which, rep...)
	short := concScenario(fam, v, nil, shared, which, ops...)
	sc.Name = func() string { return fmt.Sprintf("%s, %d times", short.Name(), n) }
	sc.Patterns = pats
	return sc
}

func quanta(ops bool, qs ...int) (r []sched.Pattern) {
	for _, a := range qs {
		for _, b := range qs {
			p := sched.Pattern{Ops: ops}
			p.Quantum[0], p.Quantum[1] = a, b
			r = append(r, p)
		}
	}
	return
}

const anyLen = 1 << 30

func periodic(thorough bool) []sched.Pattern {
	if thorough {
		return append(quanta(true, 1, 2, 3), quanta(false, 1, 2, 3, 5, 9)...)
	}
	return append(quanta(true, 1), quanta(false, 1, 3)...)
}

// K01: goroutines on distinct containers.
func k01(thorough bool) (js []mc.Job) {
	for _, fam := range concFams() {
		fam := fam
		js = append(js, mc.NewConcs(pick(thorough, 2, 8), "distinct containers: "+fam.name, func(s *mc.Scenarios) {
			for v := range fam.variants {
				o := fam.mk(v, 1)[0]
				nr, na := len(o.reads), len(o.reads)+len(o.writes)
				for a := 0; a < na; a++ {
					for b := a; b < na; b++ {
						if strings.Contains(o.op(a).name+o.op(b).name, "own") {
							continue // doubles in size every time
						}
						if thorough || b == a || b == na-1 {
							n := pick(thorough, 100, 600) / cond(fam.big[v], 10, 1)
							s.Do(rounds(n, periodic(thorough), fam, v, 0, 0, []int{a}, []int{b}))
						}
					}
				}
				if fam.big[v] {
					for a := 0; a < na; a++ {
						for b := 0; b < na; b++ {
							s.Do(concScenario(fam, v, []int{pick(thorough, 120, 1000)}, 0, 0, []int{a}, []int{b}))
						}
					}
					continue
				}
				for a := 0; a < na; a++ {
					for b := 0; b < na; b++ {
						s.Do(concScenario(fam, v, pick(thorough, []int{anyLen, 30}, []int{anyLen, 150, 30}), 0, 0, []int{a}, []int{b}))
					}
				}
				// an edit and a read against an edit; after another edit; three goroutines
				for a := nr; a < na; a++ {
					for b := nr; b < na; b++ {
						for w := nr; w < na; w++ {
							s.Do(concScenarioAfter(w, fam, v, pick(thorough, []int{60}, []int{anyLen, 30}), 0, 0, []int{a}, []int{b}))
						}
						for r := 0; r < pick(thorough, 1, nr); r++ {
							s.Do(concScenario(fam, v, pick(thorough, []int{anyLen}, []int{anyLen, 60}), 0, 0, []int{a, r}, []int{b}))
							s.Do(concScenario(fam, v, pick(thorough, []int{anyLen}, []int{anyLen, 60}), 0, 0, []int{r, a}, []int{b, r}))
						}
						if thorough {
							for c := nr; c < na; c++ {
								s.Do(concScenario(fam, v, pick(thorough, []int{anyLen}, []int{anyLen, 60}), 0, 0, []int{a}, []int{b}, []int{c}))
							}
						}
					}
				}
			}
		})...)
	}
	return
}

// K02: readers of one container.
func k02(thorough bool) (js []mc.Job) {
	for _, fam := range concFams() {
		fam := fam
		js = append(js, mc.NewConcs(4, "shared container: "+fam.name, func(s *mc.Scenarios) {
			for v := range fam.variants {
				for which := 0; which < 2; which++ {
					o := fam.mk(v, 2)[which]
					nr, nw := len(o.reads), len(o.writes)
					var rs []int
					for i := 0; i < nr+len(o.more); i++ {
						rs = append(rs, cond(i < nr, i, i+nw))
					}
					for i, a := range rs {
						for k, b := range rs[i:] {
							if thorough || k < 2 {
								n := pick(thorough, 300, 1100) / cond(fam.big[v], 10, 1)
								s.Do(rounds(n, periodic(thorough), fam, v, 2, which, []int{a}, []int{b}))
							}
						}
					}
					if fam.big[v] {
						for i, a := range rs {
							for _, b := range rs[i:] {
								s.Do(concScenario(fam, v, []int{pick(thorough, 250, 2000)}, 2, which, []int{a}, []int{b}))
								s.Do(concScenario(fam, v, []int{pick(thorough, 0, 250)}, 2, which, []int{a, b}, []int{b, a}))
							}
						}
						continue
					}
					for w := nr; w < nr+nw; w++ {
						for a := 0; a < nr; a++ {
							for b := a; b < nr; b++ {
								s.Do(concScenarioAfter(w, fam, v, pick(thorough, []int{20}, []int{anyLen, 20}), 2, which, []int{a}, []int{b}))
							}
						}
					}
					for i, a := range rs {
						for _, b := range rs {
							if b != a {
								// what a read leaves behind for later ones
								s.Do(concScenarioAfter(a, fam, v, pick(thorough, []int{100, 20}, []int{anyLen, 50}), 2, which, []int{a}, []int{b}))
								if a < nr {
									s.Do(concScenario(fam, v, pick(thorough, []int{120}, []int{anyLen, 40}), 2, which, []int{a, a}, []int{b}))
								}
							}
						}
						for _, b := range rs[i:] {
							s.Do(concScenario(fam, v, pick(thorough, []int{anyLen, 50, 20}, []int{anyLen, 200, 50}), 2, which, []int{a}, []int{b}))
							for c := b; c < nr; c++ {
								s.Do(concScenario(fam, v, pick(thorough, []int{60, 15}, []int{anyLen, 60}), 2, which, []int{a}, []int{b}, []int{c}))
								if thorough {
									s.Do(concScenario(fam, v, []int{anyLen, 40}, 2, which, []int{a, c}, []int{b}))
									s.Do(concScenario(fam, v, []int{anyLen, 40}, 2, which, []int{c, a}, []int{b, c}))
								}
							}
						}
					}
				}
			}
		})...)
	}
	return
}

func init() {
	assume := []string{stdAssume,
		"interleavings are explored at statement granularity; finer ones only matter if two goroutines make conflicting unsynchronised accesses, which the race detector reports on any schedule that contains both",
		"the happens-before race detector remembers the last few accesses per memory word"}
	reg(&mc.Property{ID: "K01", Rule: "for every container family, size and relation (separate, copy, copies of one, persistent edits): every pair of operations on two goroutines owning one container each (edits also just after an edit of one of the containers; 1 preemption up to 60 decisions), some two-operation scripts and triples; every schedule with at most 1 preemption (2 where the unpreempted schedule has at most 30 scheduling decisions; thorough: 2 up to 150 decisions, 3 up to 30) at statement granularity (containers of 90 elements: every order, and 1 preemption where the unpreempted schedule has at most 120 decisions, thorough 1000), executed on the instrumented library under the race detector; each goroutine's observations and final container compared with running alone",
		Assumptions: assume, Jobs: k01})
	reg(&mc.Property{ID: "K02", Rule: "for every container family, size and relation: every pair (also just after an edit or after the same read) and triple of read operations on goroutines sharing one container; every schedule with at most 1 preemption (2 where the unpreempted schedule has at most 50 scheduling decisions, 3 up to 20; triples: 1 up to 60, 2 up to 15, otherwise every order; thorough: pairs 2 up to 200 and 3 up to 50, triples 1, 2 up to 60, and two-operation scripts; containers of 90 elements: pairs, 1 preemption up to 250 decisions, thorough 2000, otherwise every order) at statement granularity, executed on the instrumented library under the race detector; results compared with running alone",
		Assumptions: assume, Jobs: k02})
}
