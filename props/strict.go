package props

import (
	"fmt"
	"sort"

	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"verif/mc"
)

// ---- N03: functions of the caller see only elements of the caller ----

// A spy hands out elements and functions on them. Elements are pointers, so
// nothing but what was handed out can pass for one; the functions record every
// call with something else, or outside an operation.
type spy struct {
	known  map[*int]bool
	own    map[*int]bool // given to the container so far
	inside bool
	bad    string
}

func newSpy(n int) (*spy, []*int) {
	s := &spy{known: map[*int]bool{}, own: map[*int]bool{}}
	var ks []*int
	for i := 0; i < n; i++ {
		v := i
		ks = append(ks, &v)
		s.known[&v] = true
	}
	return s, ks
}

func (s *spy) val(p *int) int {
	switch {
	case p == nil:
		s.bad = "the zero value"
		return 0
	case !s.own[p]:
		s.bad = fmt.Sprintf("element %d, which it was never given", *p)
	case !s.inside:
		s.bad = "something, but no operation is running"
	}
	return *p
}

func (s *spy) less(a, b *int) bool { x, y := s.val(a), s.val(b); return x < y }
func (s *spy) eq(a, b *int) bool   { x, y := s.val(a), s.val(b); return x == y }
func (s *spy) hash(a *int) uint64  { return uint64(s.val(a)) / 2 * 7 }
func (s *spy) each(p *int, visit func(i int)) {
	if p == nil {
		s.bad = "the zero value (iteration)"
	} else {
		visit(*p)
	}
}

// spied is a container of such elements. Functions come first, then put,
// remove, look up, iterate, count and clear (nil if there is no such thing);
// fork is a copy.
type spied struct {
	put, remove, look func(p *int)
	each              func(f func(p *int))
	size              func() int
	clear             func()
	fork              func() *spied
	pop               bool // remove takes the least element
	bag               bool // elements may be held several times
	root              any
}

type spyKind struct {
	name string
	mk   func(s *spy, pre []*int) *spied
}

func spyHashmap(m *hashmap.Map[*int, int]) *spied {
	return &spied{root: m,
		put:    func(p *int) { m.Put(p, *p) },
		remove: func(p *int) { m.Remove(p) },
		look:   func(p *int) { m.Get(p) },
		each:   func(f func(p *int)) { m.Each(func(k *int, v int) { f(k) }) },
		size:   m.Size, clear: m.Clear,
		fork: func() *spied { return spyHashmap(m.Copy()) }}
}

func spyHashset(m *hashset.Set[*int]) *spied {
	return &spied{root: m, put: m.Put, remove: m.Remove, look: func(p *int) { m.Has(p) }, each: m.Each, size: m.Size, clear: m.Clear,
		fork: func() *spied { return spyHashset(m.Copy()) }}
}

func spySet(m set.Set[*int], s *spy) *spied {
	return &spied{root: m.SetOf, put: m.Put, remove: m.Remove,
		look: func(p *int) {
			m.Has(p)
			m.Equal(m)
			m.Union(m).Intersection(m)
		}, each: m.Each, size: m.Size, clear: m.Clear,
		fork: func() *spied { return spySet(m.Clone(), s) }}
}

func spyHeap(m *heap.Heap[*int]) *spied {
	return &spied{root: m, pop: true, bag: true, put: m.Push, size: m.Size,
		remove: func(p *int) { m.Pop() },
		look:   func(p *int) { m.Peek() }}
}

func spyKinds() []spyKind {
	fill := func(c *spied, pre []*int) *spied {
		for _, p := range pre {
			c.put(p)
		}
		return c
	}
	return []spyKind{
		{"hashmap", func(s *spy, pre []*int) *spied {
			return fill(spyHashmap(hashmap.New[*int, int](uint64(len(pre)), s.eq, s.hash)), pre)
		}},
		{"hashset", func(s *spy, pre []*int) *spied { return spyHashset(hashset.Of(2, s.eq, s.hash, pre...)) }},
		{"set over hashset", func(s *spy, pre []*int) *spied { return spySet(set.NewHashset(2, s.eq, s.hash, pre...), s) }},
		{"avl", func(s *spy, pre []*int) *spied {
			m := avl.New[*int, int](s.less)
			return fill(&spied{root: m,
				put:    func(p *int) { m.Put(p, *p) },
				remove: m.Remove,
				look:   func(p *int) { m.Get(p) },
				each:   func(f func(p *int)) { m.Each(func(k *int, v int) { f(k) }) },
				size:   m.Size}, pre)
		}},
		{"btree", func(s *spy, pre []*int) *spied {
			m := btree.New[*int, int](s.less)
			return fill(&spied{root: m,
				put:    func(p *int) { m.Put(p, *p) },
				remove: m.Remove,
				look:   func(p *int) { m.Get(p) },
				each:   func(f func(p *int)) { m.Each(func(k *int, v int) { f(k) }) },
				size:   m.Size}, pre)
		}},
		{"multimap/AvlSlice", func(s *spy, pre []*int) *spied {
			m := multimap.NewAvlSlice[*int, int](s.less)
			return fill(&spied{root: m,
				put: func(p *int) { m.RemoveAll(p); m.Put(p, 1) },
				remove: func(p *int) {
					m.Remove(p, 2)
					m.Remove(p, 1)
				},
				look:  func(p *int) { m.Has(p); m.Count(p); m.Get(p) },
				each:  func(f func(p *int)) { m.Each(func(k *int, v int) { f(k) }) },
				clear: m.Clear, size: m.Size}, pre)
		}},
		{"multimap/AvlSet, values", func(s *spy, pre []*int) *spied {
			m := multimap.NewAvlSet[int, *int](func(a, b int) bool { return a < b }, s.less)
			return fill(&spied{root: m,
				put:    func(p *int) { m.Put(*p%2, p) },
				remove: func(p *int) { m.Remove(*p%2, p) },
				look:   func(p *int) { m.Get(*p % 2); m.Count(*p % 2) },
				each: func(f func(p *int)) {
					m.EachAssociation(func(k int, vs []*int) {
						for _, v := range vs {
							f(v)
						}
					})
				},
				clear: m.Clear, size: m.Size}, pre)
		}},
		{"multimap/MapSet, values", func(s *spy, pre []*int) *spied {
			m := multimap.NewMapSet[int, *int](s.less)
			return fill(&spied{root: m,
				put:    func(p *int) { m.Put(*p%2, p) },
				remove: func(p *int) { m.Remove(*p%2, p) },
				look:   func(p *int) { m.Get(*p % 2); m.Count(*p % 2) },
				each:   func(f func(p *int)) { m.Each(func(k int, v *int) { f(v) }) },
				clear:  m.Clear, size: m.Size}, pre)
		}},
		{"heap", func(s *spy, pre []*int) *spied { return spyHeap(heap.From(s.less, append([]*int{}, pre...)...)) }},
		{"heap from a slice with spare capacity", func(s *spy, pre []*int) *spied {
			return spyHeap(heap.FromSlice(s.less, append(make([]*int, 0, 40), pre...)))
		}},
	}
}

type spySys struct {
	k    spyKind
	s    *spy
	keys []*int
	max  int
	c    [2]*spied
	held [2][]int // how often each element is held
}

// operations: on container 0 or 1: put i, remove i, look up i; clear; fork
func (s *spySys) nops() int { return 2*(3*len(s.keys)+1) + 1 }

func (s *spySys) name(op int) string {
	if op == s.nops()-1 {
		return "second = copy of first"
	}
	n := 3*len(s.keys) + 1
	w := cond(op >= n, "second ", "")
	if op %= n; op == n-1 {
		return w + "clear"
	}
	return fmt.Sprintf("%s%s(%d)", w, []string{"put", "remove", "look up"}[op%3], op/3)
}

func (s *spySys) run(what string, f func()) error {
	s.s.inside = true
	f()
	s.s.inside = false
	if s.s.bad != "" {
		return errf("%s: a function of the caller got %s", what, s.s.bad)
	}
	return nil
}

func (s *spySys) Apply(op int) (bool, error) {
	if op == s.nops()-1 {
		if s.c[0].fork == nil {
			return false, nil
		}
		err := s.run("copy", func() { s.c[1] = s.c[0].fork() })
		s.held[1] = append([]int{}, s.held[0]...)
		return true, err
	}
	n := 3*len(s.keys) + 1
	w := op / n
	c := s.c[w]
	if c == nil {
		return false, nil
	}
	nm := s.name(op)
	if op %= n; op == n-1 {
		if c.clear == nil {
			return false, nil
		}
		clear(s.held[w])
		return true, s.run(nm, c.clear)
	}
	i := op / 3
	p := s.keys[i]
	h := s.held[w]
	switch op % 3 {
	case 0:
		total := 0
		for _, x := range h {
			total += x
		}
		if total >= s.max {
			return false, nil
		}
		h[i] = cond(c.bag, h[i]+1, 1)
		s.s.own[p] = true
		return true, s.run(nm, func() { c.put(p) })
	case 1:
		if c.pop {
			for j := range h {
				if h[j] > 0 {
					h[j]--
					break
				}
			}
		} else {
			h[i] = 0
		}
		s.s.own[p] = s.s.own[p] || !c.pop
		return true, s.run(nm, func() { c.remove(p) })
	default:
		// to look something up is to give it
		s.s.own[p] = s.s.own[p] || !c.pop
		return true, s.run(nm, func() { c.look(p) })
	}
}

func (s *spySys) Observe() error {
	for w, c := range s.c {
		if c == nil {
			continue
		}
		want := 0
		for _, x := range s.held[w] {
			want += x
		}
		if n := c.size(); n != want {
			return errf("size is %d, want %d", n, want)
		}
		if c.each == nil {
			continue
		}
		var got []int
		err := s.run("iteration", func() {
			c.each(func(p *int) { s.s.each(p, func(i int) { got = append(got, i) }) })
		})
		if err != nil {
			return err
		}
		sort.Ints(got)
		var exp []int
		for i, x := range s.held[w] {
			for ; x > 0; x-- {
				exp = append(exp, i)
			}
		}
		if !eqSlice(got, exp) {
			return errf("holds %v, want %v", got, exp)
		}
	}
	return nil
}

func (s *spySys) Roots() []any {
	r := []any{s.held[0], s.held[1]}
	for _, p := range s.keys {
		r = append(r, s.s.own[p], p)
	}
	for _, c := range s.c {
		if c != nil {
			r = append(r, c.root)
		} else {
			r = append(r, "none")
		}
	}
	return r
}

func spyJobs(th bool) (js []mc.Job) {
	for _, k := range spyKinds() {
		k := k
		mk := func(n, pre int) *spySys {
			s := &spySys{k: k, max: n + 1}
			s.s, s.keys = newSpy(n)
			for w := range s.held {
				s.held[w] = make([]int, n)
			}
			for _, p := range s.keys[:pre] {
				s.s.own[p] = true
				s.held[0][*p] = 1
			}
			s.s.inside = true
			s.c[0] = k.mk(s.s, s.keys[:pre:pre])
			s.s.inside = false
			return s
		}
		for pre := 0; pre < 4; pre++ {
			pre := pre
			n := pick(th, 3, 4)
			d := mk(n, 0)
			js = append(js, &mc.Space{Name: fmt.Sprintf("spy/%s, %d elements at first", k.name, pre), NOps: d.nops(), OpName: d.name,
				Depth: pick(th, 6, 8), New: func() mc.Sys { return mk(n, min(pre, n)) }})
		}
		js = append(js, mc.Shard(pick(th, 2, 4), "spy/large: "+k.name, func(cs *mc.Cases) {
			for _, n := range pick(th, []int{9, 33, 64, 65, 100, 129, 500, 2100}, []int{9, 16, 17, 33, 63, 64, 65, 66, 100, 129, 300, 500, 1000, 2100, 9000, 33000}) {
				for _, ins := range patterns {
					for di, del := range patterns {
						if n > 200 && di%3 != 0 {
							continue
						}
						cs.Do(name("%d elements, put %s, remove %s", n, ins.name, del.name), func(t *mc.T) {
							s := mk(n, 0)
							s.max = n + 5
							check := func(op int) {
								t.Step()
								_, err := s.Apply(op)
								t.Check(err)
							}
							for j, i := range ins.perm(n) {
								check(3 * i)
								check(3*((i*7+j)%n) + 2)
							}
							t.Check(s.Observe())
							for j, i := range del.perm(n) {
								if j == n/3 {
									check(s.nops() - 1)
								}
								check(3*i + 1)
								check(3*((i*5+j)%n) + 2)
								if j%3 == 0 && j < n-n/4 {
									check(3 * i)
								}
								if s.c[1] != nil {
									check(3*n + 1 + 3*((i+n/2)%n) + j%2)
								}
							}
							t.Check(s.Observe())
							t.State(n, ins.name, del.name)
						})
					}
				}
			}
		})...)
	}
	return
}

// ---- R05: leaves of ropes ----

// leafSys looks at nothing but the lengths of the leaves.
type leafSys struct{ *ropeSys }

func leavesOK(r *rope.Node[L], nm string) error {
	leaves, total := 0, 0
	var err error
	r.Each(func(n *rope.Node[L]) {
		leaves++
		l := n.Len()
		total += l
		if l > rope.SplitLength && err == nil {
			err = errf("%s has a leaf of %d elements, SplitLength is %d", nm, l, rope.SplitLength)
		}
	})
	if err == nil && leaves > 1 && total < rope.JoinLength {
		err = errf("%s has %d leaves for its %d elements, JoinLength is %d", nm, leaves, total, rope.JoinLength)
	}
	return err
}

func (s leafSys) Observe() error {
	for i, r := range s.slot {
		if r != nil {
			if err := leavesOK(r, fmt.Sprint("r", i)); err != nil {
				return err
			}
		}
	}
	return nil
}

func leafSpaces(nm string, lens [][2]int, inits []int, slots, max, depth int, ops []rop) []mc.Job {
	cfgs, names := ropeCfgs(lens, []float64{1.2}, inits)
	return fewRepeats(mc.Configs(8, nm, names, len(ops), func(o int) string { return ops[o].String() }, depth,
		func(i int) mc.Sys { return leafSys{newRopeSys(ops, slots, max, cfgs[i])} }), ops)
}

// leafSweep: every size and edit around multiples of the threshold.
func leafSweep(th bool) []mc.Job {
	return mc.Shard(8, "rope/leaves", func(cs *mc.Cases) {
		for _, cf := range []ropeCfg{{4096 * 4, 4096 * 2, 1.2, 0}, {1000, 500, 1.2, 0}, {64, 63, 1.2, 0}, {7, 3, 1.2, 0}, {5, 0, 1.2, 0}} {
			S := cf.split
			var ns []int
			for _, k := range []int{0, 1, 2, 3, 4, 7, 16} {
				for _, d := range []int{-1, 0, 1} {
					if n := k*S + d; n >= 0 {
						ns = append(ns, n)
					}
				}
			}
			for _, n := range ns {
				for _, ins := range ns {
					if n+ins > pick(th, 200000, 600000) {
						continue
					}
					cs.Do(name("%v: %d elements, insert %d", cf, n, ins), func(t *mc.T) {
						rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = cf.split, cf.join, cf.ratio
						for _, at := range []int{0, 33, 50, 100} {
							for after := 0; after < 5; after++ {
								t.Step()
								r := rope.New(make([]L, n))
								t.Check(leavesOK(r, "new rope"))
								r.Insert(n*at/100, make([]L, ins))
								t.Check(leavesOK(r, fmt.Sprintf("insertion at %d%%: rope", at)))
								l := r.Len()
								switch after {
								case 0:
									for l > 2 {
										r.Remove(l/3, 2*l/3)
										t.Check(leavesOK(r, "after removals from the middle: rope"))
										l = r.Len()
									}
								case 1:
									r.Rebuild()
									t.Check(leavesOK(r, "rebuilt rope"))
								case 2:
									r.Rebalance()
									t.Check(leavesOK(r, "rebalanced rope"))
								case 3:
									for k := 0; k < 6; k++ {
										a, b := r.SplitAt(r.Len() * (k + 1) / 8)
										t.Check(leavesOK(a, "first part"))
										t.Check(leavesOK(b, "second part"))
										r = rope.Join(b, a)
										t.Check(leavesOK(r, "joined rope"))
									}
								case 4:
									for k := 0; k < 12 && r.Len() > 0; k++ {
										r.Remove(cond(k%2 == 0, 0, r.Len()*7/8), cond(k%2 == 0, r.Len()/5+1, r.Len()))
										t.Check(leavesOK(r, "after removals from the ends: rope"))
										r.Insert(r.Len()/2, make([]L, k*S/3))
										t.Check(leavesOK(r, "after removals and insertions: rope"))
									}
								}
							}
						}
						t.State(cf, n, ins)
					})
				}
			}
		}
	})
}

func init() {
	reg(&mc.Property{ID: "N03",
		Rule:        "hash maps and sets, AVL and B-trees, multimaps and heaps of pointers, whose orderings, equalities and hashes record what they are called with: all histories of put, remove, look up, clear and copy over k elements, to the stated depth, from 0 to 3 elements; every size x pattern family",
		Assumptions: []string{stdAssume},
		Jobs:        func(th bool) []mc.Job { return spyJobs(th) }})
	reg(&mc.Property{ID: "R05",
		Rule:        "for every listed split/join setting and initial length: all histories of insertions, deletions, splits, joins, rebuilds and rebalances to the stated depth; the lengths of all leaves in every state; large ropes around multiples of the thresholds",
		Assumptions: []string{stdAssume, "splitting or joining consumes the operand ropes"},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				leafSweep(th),
				leafSpaces("rope/leaves-small", ropeLens[:4], []int{2, 3}, 2, 4, pick(th, 5, 7), jobsOps(editOps(0, 3, 1), editOps(1, 3, 1), structOps(2, 3))),
				leafSpaces("rope/leaves-deep", ropeLens, []int{0, 1, 2, 3, 5, 8}, 1, 9, pick(th, 3, 4), append(editOps(0, 9, pick(th, 2, 4)), aliasOps(0, pick(th, 2, 4))...)),
				leafSpaces("rope/leaves-parts", ropeLens, []int{1, 4, 7, 10}, 3, 11, pick(th, 2, 3), jobsOps(editOps(0, 10, 1), editOps(1, 6, 1), editOps(2, 4, 1), structOps(3, 10))),
			)
		}})
}
