package props

import (
	"fmt"

	"github.com/zyedidia/generic/heap"
	"verif/mc"
)

// he: the ordering looks at K only, ID tells elements with equal K apart.
type he struct {
	K  int8
	ID L
}

type hsys struct {
	h    *heap.Heap[he]
	less func(a, b he) bool
	held map[L]int8 // ID -> K
	keys int
	max  int
	next L
}

func heLess(desc bool) func(a, b he) bool {
	if desc {
		return func(a, b he) bool { return a.K > b.K }
	}
	return func(a, b he) bool { return a.K < b.K }
}

func newHsys(keys, max int, desc bool) *hsys {
	return &hsys{h: heap.New(heLess(desc)), less: heLess(desc), held: map[L]int8{}, keys: keys, max: max}
}

// from builds the heap from initial data in one of three ways.
func (s *hsys) from(how int, ks []int) *hsys {
	data := make([]he, len(ks), len(ks)+3)
	for i, k := range ks {
		s.next++
		data[i] = he{int8(k), s.next}
		s.held[s.next] = int8(k)
	}
	switch how {
	case 0:
		s.h = heap.FromSlice(s.less, data)
	case 1:
		s.h = heap.FromSlice(s.less, data[:len(ks):len(ks)])
	case 2:
		s.h = heap.From(s.less, data...)
	}
	return s
}

func (s *hsys) nops() int { return s.keys + 2 }
func (s *hsys) opName(op int) string {
	if op < s.keys {
		return fmt.Sprintf("Push(%d)", op)
	}
	return []string{"Pop", "PopAll"}[op-s.keys]
}
func (s *hsys) Apply(op int) (bool, error) {
	if op < s.keys {
		if len(s.held) >= s.max {
			return false, nil
		}
		s.push(op)
		return true, nil
	}
	if op == s.keys {
		return true, s.pop()
	}
	for len(s.held) > 0 {
		if err := s.pop(); err != nil {
			return true, err
		}
	}
	return true, s.pop()
}

func (s *hsys) push(k int) {
	s.next++
	s.held[s.next] = int8(k)
	s.h.Push(he{int8(k), s.next})
}

func (s *hsys) minimal(e he) error {
	k, ok := s.held[e.ID]
	if !ok || k != e.K {
		return errf("yields %v, which is not held", e)
	}
	for id, k := range s.held {
		if s.less(he{k, id}, e) {
			return errf("yields key %d while key %d is held", e.K, k)
		}
	}
	return nil
}

func (s *hsys) pop() error {
	e, ok := s.h.Pop()
	if len(s.held) == 0 {
		if ok || e != (he{}) {
			return errf("Pop() of an empty heap = %v,%v", e, ok)
		}
		return nil
	}
	if !ok {
		return errf("Pop() = false with %d elements", len(s.held))
	}
	if err := s.minimal(e); err != nil {
		return errf("Pop %w", err)
	}
	delete(s.held, e.ID)
	return nil
}

func (s *hsys) Observe() error {
	if n := s.h.Size(); n != len(s.held) {
		return errf("Size() = %d, want %d", n, len(s.held))
	}
	e, ok := s.h.Peek()
	if len(s.held) == 0 {
		if ok || e != (he{}) {
			return errf("Peek() of an empty heap = %v,%v", e, ok)
		}
		return nil
	}
	if !ok {
		return errf("Peek() = false with %d elements", len(s.held))
	}
	if err := s.minimal(e); err != nil {
		return errf("Peek %w", err)
	}
	return nil
}

// The implementation comes first, so that the labels of the (unordered) model
// are already numbered.
func (s *hsys) Roots() []any { return []any{s.h, s.held} }

func heapFrom(shards, maxLen, keys, depth int, th bool) []mc.Job {
	var cfgs []string
	type cfg struct {
		how int
		ks  []int
	}
	var cs []cfg
	for n := 0; n <= maxLen; n++ {
		tuples(n, keys, func(t []int) {
			for how := 0; how < 3; how++ {
				if how == 2 && n > 4 {
					continue
				}
				cs = append(cs, cfg{how, append([]int{}, t...)})
				cfgs = append(cfgs, fmt.Sprintf("%s%v", []string{"FromSlice", "FromSlice cap=len ", "From"}[how], t))
			}
		})
	}
	s := newHsys(keys, maxLen+2, false)
	return mc.Configs(shards, fmt.Sprintf("heap/from-len%d-keys%d", maxLen, keys), cfgs, s.nops(), s.opName, depth, func(i int) mc.Sys {
		return newHsys(keys, maxLen+2, false).from(cs[i].how, cs[i].ks)
	})
}

func heapSpace(keys, max, depth int, desc bool) []mc.Job {
	s := newHsys(keys, max, desc)
	return one(&mc.Space{Name: fmt.Sprintf("heap/keys%d-max%d-desc=%v", keys, max, desc), NOps: s.nops(), OpName: s.opName, Depth: depth,
		New: func() mc.Sys { return newHsys(keys, max, desc) }})
}

// heapArrays: heapify, then drain, every array of the given lengths.
func heapArrays(shards, n, keys int) []mc.Job {
	return mc.Shard(shards, fmt.Sprintf("heap/arrays-len%d-keys%d", n, keys), func(cs *mc.Cases) {
		tuples(n, keys, func(ks []int) {
			if cs.Stopped() {
				return
			}
			ks = append([]int{}, ks...)
			cs.Do(name("FromSlice(%v), drain", ks), func(t *mc.T) {
				s := newHsys(keys, n+1, false).from(0, ks)
				t.Check(s.Observe())
				for range ks {
					t.Step()
					t.Check(s.pop())
					t.Check(s.Observe())
				}
				t.Check(s.pop())
			})
		})
	})
}

// heapPerms: push every permutation of 0..n-1, with every number of pops in
// between, then drain.
func heapPerms(shards, n int) []mc.Job {
	return mc.Shard(shards, fmt.Sprintf("heap/perms-%d", n), func(cs *mc.Cases) {
		perms(n, func(p []int) {
			if cs.Stopped() {
				return
			}
			q := append([]int{}, p...)
			cs.Do(name("push %v, drain; heapify %v, drain", q, q), func(t *mc.T) {
				s := newHsys(n, n+1, false)
				for _, k := range q {
					t.Step()
					s.push(k)
					t.Check(s.Observe())
				}
				for range q {
					t.Step()
					t.Check(s.pop())
					t.Check(s.Observe())
				}
				s = newHsys(n, n+1, true).from(1, q)
				for range q {
					t.Step()
					t.Check(s.pop())
					t.Check(s.Observe())
				}
				t.Check(s.pop())
			})
		})
	})
}

func heapSweep(shards int, th bool) []mc.Job {
	return mc.Shard(shards, "heap/sweep", func(cs *mc.Cases) {
		for _, n := range append(rangeInts(1, 40, 1), pick(th, []int{63, 64, 65, 127, 128, 129, 300}, []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000})...) {
			for _, pt := range patterns {
				for _, mod := range []int{1, 2, 7, 1 << 20} {
					for _, mode := range []string{"push", "heapify", "replace"} {
						cs.Do(name("%s %d keys %s mod %d", mode, n, pt.name, mod), func(t *mc.T) {
							p := pt.perm(n)
							for i := range p {
								p[i] = p[i] % mod % 100
							}
							s := newHsys(100, 1<<30, n%2 == 0)
							ev := 1 + n/30
							if mode == "push" {
								for i, k := range p {
									t.Step()
									s.push(k)
									if i%ev == 0 {
										t.Check(s.Observe())
									}
								}
							} else {
								s.from(n%3, p)
								t.Check(s.Observe())
							}
							for i := range p {
								t.Step()
								t.Check(s.pop())
								if mode == "replace" && i%3 != 0 {
									s.push(p[(i*7)%n])
								}
								if i%ev == 0 {
									t.Check(s.Observe())
								}
							}
							for len(s.held) > 0 {
								t.Step()
								t.Check(s.pop())
							}
							t.Check(s.Observe())
							t.Check(s.pop())
							t.State(n, pt.name, mod, mode)
						})
					}
				}
			}
		}
	})
}

func init() {
	reg(&mc.Property{ID: "H01",
		Rule:        "all histories of pushes (every key, ties distinguishable), pops and drains up to the stated size and depth, from the empty heap and from every initial array; all arrays and all permutations of the stated lengths pushed or heapified and drained; large structured families; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "the ordering is a strict weak ordering"},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				heapSpace(2, 5, pick(th, 10, 14), false),
				heapSpace(3, 6, pick(th, 8, 10), false),
				heapSpace(3, 7, pick(th, 7, 9), true),
				heapSpace(4, 7, pick(th, 7, 8), false),
				heapFrom(8, pick(th, 5, 7), 3, pick(th, 3, 4), th),
				heapArrays(4, 7, 4), heapArrays(4, 6, 6), heapArrays(4, pick(th, 10, 13), 3), heapArrays(4, pick(th, 14, 18), 2),
				heapPerms(4, 7), heapPerms(8, pick(th, 8, 10)),
				typedSeq(th, "heap"),
				largeHeap(pick(th, []int{1023, 4097, 70000, 140000}, []int{1023, 4097, 33000, 70000, 300000})),
				heapSweep(8, th))
		}})
}
