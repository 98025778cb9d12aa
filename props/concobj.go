package props

import (
	"fmt"
	"sort"
	"strings"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
)

// rec is what a thread observes.
type rec struct{ v []int64 }

func (r *rec) I(vs ...int) {
	for _, v := range vs {
		r.v = append(r.v, int64(v))
	}
}
func (r *rec) B(b bool) { r.I(cond(b, 1, 0)) }
func (r *rec) S(s string) {
	r.I(len(s))
	for i := 0; i < len(s); i++ {
		r.I(int(s[i]))
	}
}
func (r *rec) L(s []int) {
	r.I(len(s))
	r.I(s...)
}

// unordered collects pairs and adds them sorted: Go map iteration order is not
// part of what is observed.
func (r *rec) unordered(each func(add func(k, v int))) {
	var p [][2]int
	each(func(k, v int) { hook(); p = append(p, [2]int{k, v}) })
	sort.Slice(p, func(i, j int) bool { return p[i][0] < p[j][0] || p[i][0] == p[j][0] && p[i][1] < p[j][1] })
	r.I(len(p))
	for _, x := range p {
		r.I(x[0], x[1])
	}
}

type cop struct {
	name string
	f    func(r *rec)
}

// cobj is one container as a thread sees it.
type cobj struct {
	reads, writes []cop
	more          []cop        // reads again, with other arguments
	all           func(r *rec) // everything it holds
	clone         func() *cobj // a copy of it, nil if there is no such operation
}

// cfam makes n distinct containers, related as the variant says.
type cfam struct {
	name     string
	variants []string
	mk       func(v, n int) []*cobj
	big      []bool // variants with many elements
}

// related makes n containers: separately (0), each a copy of the one before
// (1), or all copies of a further one (2).
func related[T any](rel, n int, mk func() T, cp func(T) T) (r []T) {
	var base T
	if rel == 2 {
		base = mk()
	}
	for i := 0; i < n; i++ {
		switch {
		case rel == 0 || rel == 1 && i == 0:
			r = append(r, mk())
		case rel == 1:
			r = append(r, cp(r[i-1]))
		default:
			r = append(r, cp(base))
		}
	}
	return
}

var relNames = []string{"separate", "copy of copy", "copies of one"}

// variants: sizes x relations
func sizesBy(sizes []int, rels int) (names []string, size, rel []int) {
	for _, s := range sizes {
		for r := 0; r < rels; r++ {
			n := fmt.Sprintf("%d elements", s)
			if rels > 1 {
				n += ", " + relNames[r]
			}
			names, size, rel = append(names, n), append(size, s), append(rel, r)
		}
	}
	return
}

// manyOf marks the sizes from which on only few interleavings are explored.
func manyOf(sizes []int) (big []bool) {
	for _, s := range sizes {
		big = append(big, s >= 64)
	}
	return
}

func wrap[T any](in []T, f func(i int, x T) *cobj) (r []*cobj) {
	for i, x := range in {
		r = append(r, f(i, x))
	}
	return
}

// withCopies wraps containers that can be copied.
func withCopies[T any](rel, n int, mk func() T, cp func(T) T, f func(i int, x T) *cobj) []*cobj {
	return wrap(related(rel, n, mk, cp), func(i int, x T) *cobj {
		o := f(i, x)
		o.clone = func() *cobj { return f(n, cp(x)) }
		return o
	})
}

func concFams() (fams []cfam) {
	add := func(name string, sizes []int, rels int, mk func(size, rel, n int) []*cobj) {
		names, size, rel := sizesBy(sizes, rels)
		fams = append(fams, cfam{name, names, func(v, n int) []*cobj { return mk(size[v], rel[v], n) }, manyOf(size)})
	}

	for _, h := range []string{"mix", "two"} {
		h := h
		newMap := func(size int) *hashmap.Map[int, int] {
			m := hashmap.New[int, int](0, hookEq, hookOf(ihash(h)))
			for i := 0; i < size; i++ {
				m.Put(i, 100+i)
			}
			return m
		}
		add("hashmap/"+h, cond(h == "mix", []int{0, 3, 5, 90}, []int{3}), 3, func(size, rel, n int) []*cobj {
			return withCopies(rel, n, func() *hashmap.Map[int, int] { return newMap(size) }, (*hashmap.Map[int, int]).Copy, func(i int, m *hashmap.Map[int, int]) *cobj {
				all := func(r *rec) {
					r.unordered(func(add func(k, v int)) { m.Each(add) })
					r.I(m.Size())
					for k := 0; k < size+2; k++ {
						v, ok := m.Get(k)
						r.I(v)
						r.B(ok)
					}
				}
				return &cobj{all: all,
					reads: []cop{
						{"Get(0)", func(r *rec) { v, ok := m.Get(0); r.I(v); r.B(ok) }},
						{"Get(absent)", func(r *rec) { v, ok := m.Get(77); r.I(v); r.B(ok) }},
						{"Size", func(r *rec) { r.I(m.Size()) }},
						{"Each", func(r *rec) { r.unordered(func(add func(k, v int)) { m.Each(add) }) }},
						{"Get(2)", func(r *rec) { v, ok := m.Get(2); r.I(v); r.B(ok) }},
					},
					writes: []cop{
						{"Put(0)", func(r *rec) { m.Put(0, 1000+i) }},
						{"Put(new)", func(r *rec) { m.Put(size+1, 2000+i) }},
						{"Remove(0)", func(r *rec) { m.Remove(0) }},
						{"Remove(absent)", func(r *rec) { m.Remove(77) }},
						{"Clear", func(r *rec) { m.Clear() }},
						{"Copy+edit", func(r *rec) {
							c := m.Copy()
							c.Put(1, 3000+i)
							v, ok := m.Get(1)
							r.I(v)
							r.B(ok)
							r.I(c.Size())
						}},
						{"New+use", func(r *rec) {
							c := newMap(2)
							c.Remove(0)
							c.Put(50+i, i)
							r.I(c.Size())
						}},
					}}
			})
		})
	}

	newHS := func(size int) *hashset.Set[int] {
		s := hashset.New(0, hookEq, hookHash)
		for i := 0; i < size; i++ {
			s.Put(i)
		}
		return s
	}
	add("hashset", []int{3, 90}, 3, func(size, rel, n int) []*cobj {
		return withCopies(rel, n, func() *hashset.Set[int] { return newHS(size) }, (*hashset.Set[int]).Copy, func(i int, s *hashset.Set[int]) *cobj {
			each := func(r *rec) { r.unordered(func(add func(k, v int)) { s.Each(func(k int) { add(k, 0) }) }) }
			return &cobj{
				all: func(r *rec) { each(r); r.I(s.Size()) },
				reads: []cop{
					{"Has(0)", func(r *rec) { r.B(s.Has(0)) }},
					{"Size", func(r *rec) { r.I(s.Size()) }},
					{"Each", each},
				},
				more: []cop{{"Has(1)", func(r *rec) { r.B(s.Has(1)) }}, {"Has(absent)", func(r *rec) { r.B(s.Has(77)) }}},
				writes: []cop{
					{"Put(0)", func(r *rec) { s.Put(0) }},
					{"Put(new)", func(r *rec) { s.Put(10 + i) }},
					{"Remove(0)", func(r *rec) { s.Remove(0) }},
					{"Clear", func(r *rec) { s.Clear() }},
					{"Copy+edit", func(r *rec) { c := s.Copy(); c.Put(20 + i); r.I(s.Size(), c.Size()) }},
				}}
		})
	})

	// three kinds of set.Set
	for k, mkSet := range []func(n int) set.Set[int]{
		func(n int) set.Set[int] { return set.NewMapset(rangeInts(0, n, 1)[:n]...) },
		func(n int) set.Set[int] {
			return set.NewHashset(0, hookEq, hookHash, rangeInts(0, n, 1)[:n]...)
		},
	} {
		add("set/"+[]string{"mapset", "hashset"}[k], []int{3, 90}, 3, func(size, rel, n int) []*cobj {
			other := mkSet(2)
			return withCopies(rel, n, func() set.Set[int] { return mkSet(size) }, set.Set[int].Clone, func(i int, s set.Set[int]) *cobj {
				keys := func(r *rec, s set.Set[int]) {
					k := s.Keys()
					sort.Ints(k)
					r.L(k)
				}
				o := other
				if n > 1 {
					o = mkSet(2)
				}
				return &cobj{
					all: func(r *rec) { keys(r, s); r.I(s.Size()) },
					reads: []cop{
						{"Has(0)", func(r *rec) { r.B(s.Has(0)) }},
						{"Size+Keys", func(r *rec) { r.I(s.Size()); keys(r, s) }},
						{"String", func(r *rec) { r.S(s.String()) }},
						{"Map", func(r *rec) { r.I(len(s.Map())) }},
						{"Equal", func(r *rec) { r.B(s.Equal(o)) }},
						{"IsSubset", func(r *rec) { r.B(s.IsSubset(o)); r.B(s.IsSuperset(o)) }},
						{"IsProperSuperset", func(r *rec) { r.B(s.IsProperSuperset(o)) }},
						{"IsDisjoint", func(r *rec) { r.B(s.IsDisjoint(o)) }},
						{"Union", func(r *rec) { keys(r, s.Union(o)) }},
						{"Difference", func(r *rec) { keys(r, s.Difference(o)) }},
						{"SymmetricDifference", func(r *rec) { keys(r, s.SymmetricDifference(o)) }},
						{"ConstIntersection", func(r *rec) { keys(r, s.ConstIntersection(1, 2, 9)) }},
					},
					more: []cop{
						{"Has(absent)", func(r *rec) { r.B(s.Has(77)) }},
						{"Equal(own keys)", func(r *rec) { r.B(s.Equal(s)) }},
						{"IsSubset(self)", func(r *rec) { r.B(s.IsSubset(s)); r.B(s.IsSuperset(s)) }},
						{"Difference(self)", func(r *rec) { keys(r, s.Difference(s)) }},
						{"Union(self)", func(r *rec) { keys(r, s.Union(s)) }},
						{"ConstIntersection(0)", func(r *rec) { keys(r, s.ConstIntersection(0)) }},
					},
					writes: []cop{
						{"Put(new)", func(r *rec) { s.Put(10 + i) }},
						{"Remove(0)", func(r *rec) { s.Remove(0) }},
						{"InPlaceUnion", func(r *rec) { keys(r, s.InPlaceUnion(o)) }},
						{"InPlaceIntersection", func(r *rec) { keys(r, s.InPlaceIntersection(o)) }},
						{"InPlaceDifference", func(r *rec) { keys(r, s.InPlaceDifference(o)) }},
						{"Clear", func(r *rec) { s.Clear() }},
						{"Clone+edit", func(r *rec) { c := s.Clone(); c.Put(20 + i); r.I(s.Size(), c.Size()) }},
					}}
			})
		})
	}

	add("mapset", []int{2, 90}, 1, func(size, rel, n int) []*cobj {
		var ss []mapset.Set[int]
		for i := 0; i < n; i++ {
			ss = append(ss, mapset.Of(rangeInts(0, size-1, 1)...))
		}
		return wrap(ss, func(i int, s mapset.Set[int]) *cobj {
			each := func(r *rec) { r.unordered(func(add func(k, v int)) { s.Each(func(k int) { add(k, 0) }) }) }
			return &cobj{all: each,
				reads: []cop{{"Has(0)", func(r *rec) { r.B(s.Has(0)) }}, {"Size", func(r *rec) { r.I(s.Size()) }}, {"Each", each}},
				more:  []cop{{"Has(1)", func(r *rec) { r.B(s.Has(1)) }}, {"Has(absent)", func(r *rec) { r.B(s.Has(77)) }}},
				writes: []cop{{"Put", func(r *rec) { s.Put(5 + i) }}, {"Remove", func(r *rec) { s.Remove(0) }}, {"Clear", func(r *rec) { s.Clear() }},
					{"Of", func(r *rec) { r.I(mapset.Of(i, i+1).Size()) }}}}
		})
	})

	// ordered trees
	type tree interface {
		Put(int, int)
		Remove(int)
		Get(int) (int, bool)
		Each(func(k, v int))
		Size() int
	}
	for _, tr := range []struct {
		name  string
		sizes []int
		mk    func() tree
	}{
		{"avl", []int{0, 3, 7, 90}, func() tree { return avl.New[int, int](hookLess) }},
		{"btree", []int{0, 4, 8, 20, 90}, func() tree { return btree.New[int, int](hookLess) }},
	} {
		tr := tr
		mkTree := func(size int) tree {
			t := tr.mk()
			for k := 0; k < size; k++ {
				t.Put(2*k, 100+k)
			}
			return t
		}
		add(tr.name, tr.sizes, 1, func(size, rel, n int) []*cobj {
			return wrap(related(0, n, func() tree { return mkTree(size) }, nil), func(i int, t tree) *cobj {
				each := func(r *rec) { t.Each(func(k, v int) { hook(); r.I(k, v) }) }
				return &cobj{
					all: func(r *rec) { each(r); r.I(t.Size()) },
					reads: []cop{
						{"Get(0)", func(r *rec) { v, ok := t.Get(0); r.I(v); r.B(ok) }},
						{"Get(last)", func(r *rec) { v, ok := t.Get(2 * (size - 1)); r.I(v); r.B(ok) }},
						{"Get(absent)", func(r *rec) { v, ok := t.Get(3); r.I(v); r.B(ok) }},
						{"Size", func(r *rec) { r.I(t.Size()) }},
						{"Each", each},
						{"Height", func(r *rec) {
							if h, ok := t.(interface{ Height() int }); ok {
								r.I(h.Height())
							}
						}},
					},
					writes: []cop{
						{"Put(0)", func(r *rec) { t.Put(0, 1000+i) }},
						{"Put(new)", func(r *rec) { t.Put(3, 2000+i) }},
						{"Put(append)", func(r *rec) { t.Put(2*size+1, 3000+i) }},
						{"Remove(0)", func(r *rec) { t.Remove(0) }},
						{"Remove(mid)", func(r *rec) { t.Remove(2 * (size / 2)) }},
						{"Remove(absent)", func(r *rec) { t.Remove(77) }},
						{"New+use", func(r *rec) { u := mkTree(2); u.Put(1, i); u.Remove(0); u.Each(func(k, v int) { r.I(k, v) }) }},
					}}
			})
		})
	}

	words := []string{"", "a", "ab", "abc", "b", "ba", "bab"}
	for i := 0; i < 90; i++ {
		words = append(words, fmt.Sprintf("abcd%c%d", 'a'+i%7, i))
	}
	newTrie := func(size int) *trie.Trie[int] {
		t := trie.New[int]()
		for i := 0; i < size; i++ {
			t.Put(words[1+i], i)
		}
		return t
	}
	add("trie", []int{0, 3, 6, 90}, 1, func(size, rel, n int) []*cobj {
		return wrap(related(0, n, func() *trie.Trie[int] { return newTrie(size) }, nil), func(i int, t *trie.Trie[int]) *cobj {
			keys := func(r *rec) {
				for _, k := range t.Keys() {
					r.S(k)
				}
			}
			all := func(r *rec) {
				keys(r)
				r.I(t.Size())
				for _, w := range words[:max(7, size)] {
					v, ok := t.Get(w)
					r.I(v)
					r.B(ok)
				}
			}
			return &cobj{all: all,
				reads: []cop{
					{"Get(ab)", func(r *rec) { v, ok := t.Get("ab"); r.I(v); r.B(ok) }},
					{"Contains(bb)", func(r *rec) { r.B(t.Contains("bb")) }},
					{"LongestPrefix", func(r *rec) { r.S(t.LongestPrefix("abcd")) }},
					{"Keys", keys},
					{"KeysWithPrefix(a)", func(r *rec) {
						for _, k := range t.KeysWithPrefix("a") {
							r.S(k)
						}
					}},
					{"KeysWithPrefix(b)", func(r *rec) {
						for _, k := range t.KeysWithPrefix("b") {
							r.S(k)
						}
					}},
					{"Size", func(r *rec) { r.I(t.Size()) }},
				},
				more: []cop{
					{"Get(a)", func(r *rec) { v, ok := t.Get("a"); r.I(v); r.B(ok) }},
					{"Contains(ab)", func(r *rec) { r.B(t.Contains("ab")) }},
					{"LongestPrefix(bbb)", func(r *rec) { r.S(t.LongestPrefix("bbb")) }},
					{"LongestPrefix(none)", func(r *rec) { r.S(t.LongestPrefix("zz")) }},
				},
				writes: []cop{
					{"Put(ab)", func(r *rec) { t.Put("ab", 1000+i) }},
					{"Put(new)", func(r *rec) { t.Put("abd", 2000+i) }},
					{"Remove(ab)", func(r *rec) { t.Remove("ab") }},
					{"Remove(absent)", func(r *rec) { t.Remove("zz") }},
					{"New+use", func(r *rec) {
						u := newTrie(2)
						u.Put("x", i)
						u.Remove("a")
						r.I(u.Size())
						r.S(u.LongestPrefix("abx"))
					}},
				}}
		})
	})

	type itree = interval.Tree[int, int]
	newIt := func(size int) *itree {
		t := interval.New[int, int]()
		for i := 0; i < size; i++ {
			t.Put(3*i, 3*i+5, i)
		}
		return t
	}
	ikv := func(r *rec, e interval.KV[int, int], ok bool) { r.I(e.Low, e.High, e.Val); r.B(ok) }
	add("interval", []int{0, 3, 7, 90}, 1, func(size, rel, n int) []*cobj {
		return wrap(related(0, n, func() *itree { return newIt(size) }, nil), func(i int, t *itree) *cobj {
			each := func(r *rec) { t.Each(func(l, h, v int) { hook(); r.I(l, h, v) }) }
			over := func(l, h int) func(r *rec) {
				return func(r *rec) {
					for _, e := range t.Overlaps(l, h) {
						ikv(r, e, true)
					}
				}
			}
			return &cobj{
				all: func(r *rec) { each(r); r.I(t.Size()); over(-100, 100)(r) },
				reads: []cop{
					{"Overlaps(4,8)", over(4, 8)},
					{"Overlaps(all)", over(-9, 99)},
					{"Overlaps(none)", over(50, 60)},
					{"Get(3)", func(r *rec) { e, ok := t.Get(3); ikv(r, e, ok) }},
					{"Get(0)", func(r *rec) { e, ok := t.Get(0); ikv(r, e, ok) }},
					{"Size+Height", func(r *rec) { r.I(t.Size(), t.Height()) }},
					{"Each", each},
				},
				writes: []cop{
					{"Put(3)", func(r *rec) { e, ok := t.Put(3, 20, 1000+i); ikv(r, e, ok) }},
					{"Put(new)", func(r *rec) { e, ok := t.Put(4, 30, 1000+i); ikv(r, e, ok) }},
					{"Add(3)", func(r *rec) { e, ok := t.Add(3, 40, 1000+i); ikv(r, e, ok) }},
					{"Remove(3)", func(r *rec) { e, ok := t.Remove(3); ikv(r, e, ok) }},
					{"Remove(absent)", func(r *rec) { e, ok := t.Remove(77); ikv(r, e, ok) }},
					{"New+use", func(r *rec) { u := newIt(2); u.Put(1, 9, i); u.Remove(0); r.I(u.Size(), len(u.Overlaps(0, 9))) }},
				}}
		})
	})

	for _, how := range []string{"", "/FromSlice", "/From"} {
		how := how
		add("heap"+how, cond(how == "", []int{0, 3, 8, 90}, []int{2, 8, 90}), 1, func(size, rel, n int) []*cobj {
			mk := func() *heap.Heap[int] {
				h := heap.New(hookLess)
				var ks []int
				for k := size; k > 0; k-- {
					ks = append(ks, k)
					if how == "" {
						h.Push(k)
					}
				}
				switch how {
				case "/FromSlice":
					h = heap.FromSlice(hookLess, ks)
				case "/From":
					h = heap.From(hookLess, ks...)
				}
				return h
			}
			return wrap(related(0, n, mk, nil), func(i int, h *heap.Heap[int]) *cobj {
				peek := func(r *rec) { v, ok := h.Peek(); r.I(v, h.Size()); r.B(ok) }
				pop := func(r *rec) { v, ok := h.Pop(); r.I(v); r.B(ok) }
				return &cobj{
					all:   func(r *rec) { peek(r) },
					reads: []cop{{"Peek", peek}, {"Size", func(r *rec) { r.I(h.Size()) }}},
					writes: []cop{
						{"Push(0)", func(r *rec) { h.Push(-i) }},
						{"Push(9)", func(r *rec) { h.Push(9) }},
						{"Pop", pop},
						{"FromSlice", func(r *rec) { u := heap.FromSlice(hookLess, []int{3, 1, 2, i}); v, _ := u.Pop(); r.I(v) }},
						{"drain", func(r *rec) {
							for h.Size() > 0 {
								pop(r)
							}
						}},
					}}
			})
		})
	}

	add("cache", []int{1, 3, 90}, 1, func(size, rel, n int) []*cobj {
		var out []*cobj
		for i := 0; i < n; i++ {
			i := i
			c := cache.New[int, int](size)
			var evicted []int
			c.SetEvictCallback(func(k, v int) { hook(); evicted = append(evicted, k, v) })
			for k := 0; k < size; k++ {
				c.Put(k, 100+k)
			}
			each := func(r *rec) { c.Each(func(k, v int) { hook(); r.I(k, v) }) }
			out = append(out, &cobj{
				all:   func(r *rec) { each(r); r.I(c.Size(), c.Capacity()); r.L(evicted) },
				reads: []cop{{"Each", each}, {"Size+Capacity", func(r *rec) { r.I(c.Size(), c.Capacity()) }}},
				writes: []cop{
					{"Get(0)", func(r *rec) { v, ok := c.Get(0); r.I(v); r.B(ok) }},
					{"Put(0)", func(r *rec) { c.Put(0, 1000+i) }},
					{"Put(new)", func(r *rec) { c.Put(99, 2000+i); r.L(evicted) }},
					{"Remove(0)", func(r *rec) { c.Remove(0) }},
					{"Resize", func(r *rec) { c.Resize(size - 1); r.L(evicted) }},
				}})
		}
		return out
	})

	add("queue", []int{0, 3, 90}, 3, func(size, rel, n int) []*cobj {
		mk := func() *queue.Queue[int] { return queue.Of(rangeInts(0, size, 1)[:size]) }
		return withCopies(rel, n, mk, (*queue.Queue[int]).Copy, func(i int, q *queue.Queue[int]) *cobj {
			each := func(r *rec) { q.Each(func(v int) { hook(); r.I(v) }) }
			return &cobj{
				all: func(r *rec) { r.L(q.PeekAll()); r.I(q.Len()) },
				reads: []cop{
					{"TryPeek", func(r *rec) { v, ok := q.TryPeek(); r.I(v); r.B(ok) }},
					{"PeekAll", func(r *rec) { r.L(q.PeekAll()) }},
					{"Len+Empty", func(r *rec) { r.I(q.Len()); r.B(q.Empty()) }},
					{"Each", each},
				},
				writes: []cop{
					{"Enqueue", func(r *rec) { q.Enqueue(50 + i) }},
					{"TryDequeue", func(r *rec) { v, ok := q.TryDequeue(); r.I(v); r.B(ok) }},
					{"DequeueAll", func(r *rec) { r.L(q.DequeueAll()) }},
					{"Clear", func(r *rec) { q.Clear() }},
					{"Copy+edit", func(r *rec) { c := q.Copy(); c.Enqueue(60 + i); r.I(q.Len(), c.Len()) }},
				}}
		})
	})

	add("stack", []int{0, 3, 90}, 3, func(size, rel, n int) []*cobj {
		mk := func() *stack.Stack[int] {
			s := stack.New[int]()
			for k := 0; k < size; k++ {
				s.Push(k)
			}
			return s
		}
		return withCopies(rel, n, mk, (*stack.Stack[int]).Copy, func(i int, s *stack.Stack[int]) *cobj {
			return &cobj{
				all:   func(r *rec) { r.I(s.Peek(), s.Size()) },
				reads: []cop{{"Peek", func(r *rec) { r.I(s.Peek()) }}, {"Size", func(r *rec) { r.I(s.Size()) }}},
				writes: []cop{
					{"Push", func(r *rec) { s.Push(50 + i); r.I(s.Peek()) }},
					{"Pop", func(r *rec) { r.I(s.Pop()) }},
					{"Pop+Push", func(r *rec) { r.I(s.Pop()); s.Push(60 + i); r.I(s.Peek()) }},
					{"Copy+edit", func(r *rec) { c := s.Copy(); c.Push(70 + i); c.Push(71 + i); r.I(s.Peek(), c.Pop(), c.Size()) }},
					{"drain", func(r *rec) {
						for s.Size() > 0 {
							r.I(s.Pop())
						}
					}},
				}}
		})
	})

	add("array2d", []int{2, 90}, 3, func(size, rel, n int) []*cobj {
		mk := func() array2d.Array2D[int] {
			a := array2d.NewFilled(3, size, 7)
			a.Set(1, 1, 8)
			return a
		}
		return withCopies(rel, n, mk, array2d.Array2D[int].Copy, func(i int, a array2d.Array2D[int]) *cobj {
			return &cobj{
				all: func(r *rec) { r.S(a.String()) },
				reads: []cop{
					{"Get", func(r *rec) { r.I(a.Get(1, 1), a.Width(), a.Height()) }},
					{"Row", func(r *rec) { r.L(a.Row(1)) }},
					{"RowSpan", func(r *rec) { r.L(a.RowSpan(2, 1, 0)) }},
					{"String", func(r *rec) { r.S(a.String()) }},
				},
				more: []cop{
					{"Get(0,0)", func(r *rec) { r.I(a.Get(0, 0)) }},
					{"Row(0)", func(r *rec) { r.L(a.Row(0)) }},
					{"RowSpan(0,1)", func(r *rec) { r.L(a.RowSpan(0, 1, 0)) }},
				},
				writes: []cop{
					{"Set", func(r *rec) { a.Set(0, 0, 10+i) }},
					{"Fill", func(r *rec) { a.Fill(2, 1, 1, 0, 20+i) }},
					{"write Row", func(r *rec) { a.Row(1)[0] = 30 + i }},
					{"New", func(r *rec) { b := array2d.OfJagged(2, 2, [][]int{{1}, {2, i}}); r.I(b.Get(1, 1)) }},
					{"Copy+edit", func(r *rec) { c := a.Copy(); c.Set(0, 0, 40+i); r.I(a.Get(0, 0), c.Get(0, 0)) }},
				}}
		})
	})

	add("bimap", []int{0, 3, 90}, 3, func(size, rel, n int) []*cobj {
		mk := func() *bimap.Bimap[int, int] {
			var b bimap.Bimap[int, int]
			for k := 0; k < size; k++ {
				b.Add(k, 10+k)
			}
			return &b
		}
		return withCopies(rel, n, mk, func(b *bimap.Bimap[int, int]) *bimap.Bimap[int, int] { c := b.Copy(); return &c }, func(i int, b *bimap.Bimap[int, int]) *cobj {
			each := func(r *rec) { r.unordered(func(add func(k, v int)) { b.Each(add) }) }
			return &cobj{
				all: func(r *rec) {
					each(r)
					r.I(b.Len())
					for v := 9; v < 22; v++ {
						k, ok := b.GetReverse(v)
						r.I(k)
						r.B(ok)
					}
				},
				reads: []cop{
					{"GetForward", func(r *rec) { v, ok := b.GetForward(0); r.I(v); r.B(ok) }},
					{"GetReverse", func(r *rec) { v, ok := b.GetReverse(11); r.I(v); r.B(ok) }},
					{"Contains", func(r *rec) { r.B(b.ContainsForward(0)); r.B(b.ContainsReverse(99)) }},
					{"Len", func(r *rec) { r.I(b.Len()) }},
					{"Each", each},
				},
				more: []cop{
					{"GetForward(1)", func(r *rec) { v, ok := b.GetForward(1); r.I(v); r.B(ok) }},
					{"GetReverse(10)", func(r *rec) { v, ok := b.GetReverse(10); r.I(v); r.B(ok) }},
					{"Contains(absent)", func(r *rec) { r.B(b.ContainsForward(77)); r.B(b.ContainsReverse(12)) }},
				},
				writes: []cop{
					{"Add(0,11)", func(r *rec) { b.Add(0, 11) }},
					{"Add(new)", func(r *rec) { b.Add(5, 20+i) }},
					{"RemoveForward", func(r *rec) { b.RemoveForward(0) }},
					{"RemoveReverse", func(r *rec) { b.RemoveReverse(11) }},
					{"Clear", func(r *rec) { b.Clear() }},
					{"Copy+edit", func(r *rec) { c := b.Copy(); c.Add(6, 20+i); r.I(b.Len(), c.Len()) }},
				}}
		})
	})

	for _, v := range xvariants()[:4] {
		v := v
		add("multimap/"+v.name, []int{2, 90}, 1, func(size, rel, n int) []*cobj {
			mk := func() multimap.MultiMap[int, int] {
				m := v.mk()
				for k := 0; k < size; k++ {
					m.Put(k, 2)
					m.Put(k, 1)
				}
				for j := 0; j < size-50; j++ { // keys with many values
					m.Put(j%2, 100+j)
				}
				return m
			}
			return wrap(related(0, n, mk, nil), func(i int, m multimap.MultiMap[int, int]) *cobj {
				each := func(r *rec) { r.unordered(func(add func(k, v int)) { m.Each(add) }) }
				assoc := func(r *rec) {
					r.unordered(func(add func(k, v int)) {
						m.EachAssociation(func(k int, vs []int) {
							for _, v := range vs {
								add(k, v)
							}
						})
					})
				}
				get := func(r *rec) {
					vs := append([]int{}, m.Get(0)...)
					sort.Ints(vs)
					r.L(vs)
				}
				return &cobj{
					all: func(r *rec) { each(r); r.I(m.Size(), m.Dimension()) },
					reads: []cop{
						{"Get", get},
						{"Has+Count", func(r *rec) { r.B(m.Has(0)); r.I(m.Count(0)) }},
						{"Size+Dimension", func(r *rec) { r.I(m.Size(), m.Dimension()) }},
						{"Each", each},
						{"EachAssociation", assoc},
					},
					more: []cop{
						{"Get(1)", func(r *rec) {
							vs := append([]int{}, m.Get(1)...)
							sort.Ints(vs)
							r.L(vs)
						}},
						{"Has+Count(1)", func(r *rec) { r.B(m.Has(1)); r.I(m.Count(1)) }},
						{"Has+Count(absent)", func(r *rec) { r.B(m.Has(77)); r.I(m.Count(77)) }},
					},
					writes: []cop{
						{"Put(0,1)", func(r *rec) { m.Put(0, 1); get(r) }},
						{"Put(new)", func(r *rec) { m.Put(5, i) }},
						{"Remove(0,1)", func(r *rec) { m.Remove(0, 1); get(r) }},
						{"RemoveAll", func(r *rec) { m.RemoveAll(0) }},
						{"Clear", func(r *rec) { m.Clear() }},
					}}
			})
		})
	}

	add("list", []int{0, 3, 90}, 1, func(size, rel, n int) []*cobj {
		mk := func() *list.List[int] {
			l := list.New[int]()
			for k := 0; k < size; k++ {
				l.PushBack(k)
			}
			return l
		}
		return wrap(related(0, n, mk, nil), func(i int, l *list.List[int]) *cobj {
			fwd := func(r *rec) { l.Front.Each(func(v int) { hook(); r.I(v) }) }
			back := func(r *rec) { l.Back.EachReverse(func(v int) { hook(); r.I(v) }) }
			return &cobj{
				all: func(r *rec) { fwd(r); back(r) },
				reads: []cop{{"Each", fwd}, {"EachReverse", back},
					{"EachNode", func(r *rec) { l.Front.EachNode(func(n *list.Node[int]) { hook(); r.I(n.Value) }) }},
					{"EachReverseNode", func(r *rec) { l.Back.EachReverseNode(func(n *list.Node[int]) { hook(); r.I(n.Value) }) }}},
				writes: []cop{
					{"PushBack", func(r *rec) { l.PushBack(50 + i) }},
					{"PushFront", func(r *rec) { l.PushFront(60 + i) }},
					{"Remove", func(r *rec) {
						if l.Front != nil {
							l.Remove(l.Front)
						}
					}},
					{"InsertAfter", func(r *rec) {
						if l.Front != nil {
							l.InsertAfter(l.Front, &list.Node[int]{Value: 70 + i})
						}
					}},
				}}
		})
	})

	add("ulist", []int{0, 3, 5, 90}, 1, func(size, rel, n int) []*cobj {
		mk := func() *ulist.UList[int] {
			l := ulist.New[int](2)
			for k := 0; k < size; k++ {
				l.PushBack(k)
			}
			return l
		}
		return wrap(related(0, n, mk, nil), func(i int, l *ulist.UList[int]) *cobj {
			fwd := func(r *rec) {
				for it := l.Begin(); it.IsValid(); it.Next() {
					hook()
					r.I(it.Get())
				}
			}
			back := func(r *rec) {
				for it := l.End(); it.IsValid(); it.Prev() {
					hook()
					r.I(it.Get())
				}
			}
			if size == 0 {
				back = func(r *rec) {}
			}
			return &cobj{
				all:   func(r *rec) { fwd(r); r.I(l.Size()) },
				reads: []cop{{"forward", fwd}, {"backward", back}, {"Size", func(r *rec) { r.I(l.Size()) }}},
				writes: []cop{
					{"PushBack", func(r *rec) { l.PushBack(50 + i) }},
					{"PushFront", func(r *rec) { l.PushFront(60 + i) }},
					{"AddAfter", func(r *rec) {
						if it := l.Begin(); it.IsValid() {
							l.AddAfter(it, 70+i)
							r.I(it.Get())
						}
					}},
					{"Remove", func(r *rec) {
						if it := l.Begin(); it.IsValid() {
							l.Remove(it)
						}
					}},
				}}
		})
	})

	type rnode = rope.Node[int]
	add("rope", []int{0, 3, 9, 90}, 1, func(size, rel, n int) []*cobj {
		rope.SplitLength, rope.JoinLength = 4, 2
		mk := func() *rnode { return rope.New(rangeInts(0, size, 1)[:size]) }
		return wrap(related(0, n, mk, nil), func(i int, p *rnode) *cobj {
			val := func(r *rec) { r.L(p.Value()) }
			w := []cop{
				{"Insert(mid)", func(r *rec) { p.Insert(size/2, []int{50 + i, 51 + i}) }},
				{"Insert(end)", func(r *rec) { p.Insert(size, []int{52 + i}) }},
				{"Remove(mid)", func(r *rec) { p.Remove(size/3, size*2/3) }},
				{"Rebalance", func(r *rec) { p.Rebalance() }},
				{"Rebuild", func(r *rec) { p.Rebuild() }},
				{"SplitAt+Join", func(r *rec) { a, b := p.SplitAt(size / 2); p = rope.Join(a, b) }},
			}
			rd := []cop{{"Value", val}, {"Len", func(r *rec) { r.I(p.Len()) }},
				{"Each", func(r *rec) { p.Each(func(n *rnode) { hook(); r.I(n.Len()) }) }}}
			if size > 0 {
				rd = append(rd, cop{"At", func(r *rec) { r.I(p.At(0), p.At(size-1)) }},
					cop{"Slice(mid)", func(r *rec) { r.L(p.Slice(1, size)) }})
			}
			var more []cop
			if size > 0 {
				more = []cop{{"At(0)", func(r *rec) { r.I(p.At(0)) }}, {"At(last)", func(r *rec) { r.I(p.At(size - 1)) }},
					{"Slice(front)", func(r *rec) { r.L(p.Slice(0, 2)) }}}
			}
			return &cobj{all: func(r *rec) { val(r); r.I(p.Len()) }, reads: rd, more: more, writes: w}
		})
	})

	type pnode = prope.Node[int]
	derive := []struct {
		name string
		f    func(v *pnode, size int) []*pnode
	}{
		{"separate", func(v *pnode, size int) []*pnode {
			return []*pnode{v, prope.New(rangeInts(20, 20+size, 1)), prope.New(rangeInts(40, 40+size, 1))}
		}},
		{"v, v.Insert, v.Remove", func(v *pnode, size int) []*pnode {
			return []*pnode{v, v.Insert(size/2, []int{30, 31}), v.Remove(1, size-1)}
		}},
		{"halves of v, and v", func(v *pnode, size int) []*pnode {
			a, b := v.SplitAt(size / 2)
			return []*pnode{a, b, v}
		}},
		{"v, v+v, v+v.Insert", func(v *pnode, size int) []*pnode {
			return []*pnode{v, prope.Join(v, v), prope.Join(v, v.Insert(0, []int{30}))}
		}},
	}
	derive = append(derive, derive[0])
	last := &derive[len(derive)-1]
	last.name = "x=1+1, x+v, v+x"
	last.f = func(v *pnode, size int) []*pnode {
		x := prope.Join(prope.New([]int{60}), prope.New([]int{61}))
		return []*pnode{x, prope.Join(x, v), prope.Join(v, x)}
	}
	var pnames []string
	var pbig []int
	psizes := []int{3, 9, 90}
	for _, s := range psizes {
		for _, d := range derive {
			pbig = append(pbig, s)
			pnames = append(pnames, fmt.Sprintf("%d elements, %s", s, d.name))
		}
	}
	fams = append(fams, cfam{"prope", pnames, func(v, n int) []*cobj {
		prope.SplitLength, prope.JoinLength = 4, 2
		size := psizes[v/len(derive)]
		vs := derive[v%len(derive)].f(prope.New(rangeInts(0, size, 1)[:size]), size)
		return wrap(vs[:n], func(i int, p *pnode) *cobj {
			orig := p
			val := func(r *rec) { r.L(p.Value()) }
			rd := []cop{{"Value", val}, {"Len", func(r *rec) { r.I(p.Len()) }},
				{"At", func(r *rec) { r.I(p.At(0), p.At(p.Len()-1)) }},
				{"Slice", func(r *rec) { r.L(p.Slice(1, p.Len())) }}}
			more := []cop{{"At(0)", func(r *rec) { r.I(p.At(0)) }}, {"At(last)", func(r *rec) { r.I(p.At(p.Len() - 1)) }},
				{"Slice(front)", func(r *rec) { r.L(p.Slice(0, 1)) }}}
			return &cobj{all: func(r *rec) { val(r); r.I(p.Len()); r.L(orig.Value()) }, reads: rd, more: more, writes: []cop{
				{"Insert(mid)", func(r *rec) { p = p.Insert(p.Len()/2, []int{50 + i, 51 + i}) }},
				{"Insert(end)", func(r *rec) { p = p.Insert(p.Len(), []int{52 + i}) }},
				{"Remove(0,1)", func(r *rec) { p = p.Remove(0, 1) }},
				{"SplitAt+Join", func(r *rec) { a, b := p.SplitAt(p.Len() / 2); p = prope.Join(b, a) }},
				{"Insert own slice", func(r *rec) { p = p.Insert(0, p.Slice(0, p.Len())) }},
			}}
		})
	}, manyOf(pbig)})

	add("helpers", []int{0, 90}, 1, func(size, rel, n int) []*cobj {
		var out []*cobj
		for i := 0; i < n; i++ {
			i := i
			b := []byte("shared" + strings.Repeat("-", 5*size))
			out = append(out, &cobj{all: func(r *rec) {}, reads: []cop{
				{"HashString", func(r *rec) { r.I(int(g.HashString("abc" + string(b)))) }},
				{"HashBytes", func(r *rec) { r.I(int(g.HashBytes(b))) }},
				{"HashInt", func(r *rec) { r.I(int(g.HashInt(7)), int(g.HashUint16(9))) }},
				{"Clamp", func(r *rec) { r.I(g.Clamp(5, 1, 3), g.ClampFunc(5, 1, 3, hookLess)) }},
			}, more: []cop{
				{"HashString(short)", func(r *rec) { r.I(int(g.HashString("b"))) }},
				{"HashBytes(part)", func(r *rec) { r.I(int(g.HashBytes(b[1:]))) }},
				{"HashInt(8)", func(r *rec) { r.I(int(g.HashInt(8)), int(g.HashUint16(10))) }},
				{"Compare", func(r *rec) { r.I(g.Compare(1, 2, hookLess), g.MinFunc(2, 1, hookLess), g.MaxFunc(2, 1, hookLess)) }},
			}, writes: []cop{
				{"HashString'", func(r *rec) { r.I(int(g.HashString(fmt.Sprint("x", i)))) }},
			}})
		}
		return out
	})
	return
}
