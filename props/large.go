package props

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	"verif/mc"
)

// Containers of tens of thousands of elements, filled, overwritten, thinned out
// and refilled in structured orders, compared completely with a table at
// checkpoints and locally at every step.

// lkeyed is a container of keys 0..n-1 with positive values. Nil members are
// not supported by it. each must visit keys in ascending order if sorted.
type lkeyed struct {
	put    func(k, v int)
	del    func(k int)
	get    func(k int) (int, bool)
	size   func() int
	each   func(f func(k, v int))
	sorted bool
	clear  func()
	cp     func() *lkeyed
	extra  func(val []int) error // further comparison with the table
}

func (c *lkeyed) check(t *mc.T, what string, val []int) {
	t.Step()
	held := 0
	for k, v := range val {
		if v != 0 {
			held++
		}
		if got, ok := c.get(k); got != v || ok != (v != 0) {
			t.Failf("%s: Get(%d) = %d,%v, want %d", what, k, got, ok, v)
		}
	}
	if n := c.size(); n != held {
		t.Failf("%s: Size() = %d, want %d", what, n, held)
	}
	if c.each != nil {
		seen := make([]bool, len(val))
		last, n := -1, 0
		c.each(func(k, v int) {
			if k < 0 || k >= len(val) || seen[k] || val[k] == 0 || v != val[k] {
				t.Failf("%s: iteration visits key %d with value %d", what, k, v)
			}
			if c.sorted && k <= last {
				t.Failf("%s: iteration visits %d after %d", what, k, last)
			}
			seen[k], last = true, k
			n++
		})
		if n != held {
			t.Failf("%s: iteration visits %d entries, want %d", what, n, held)
		}
	}
	if c.extra != nil {
		t.Step()
		if err := c.extra(val); err != nil {
			t.Failf("%s: %v", what, err)
		}
	}
}

// largeKeyed: mk makes an empty container for keys below the given bound.
func largeKeyed(nm string, sizes []int, mk func(n int) *lkeyed) []mc.Job {
	return mc.Shard(6, nm+"/large", func(cs *mc.Cases) {
		for _, n := range sizes {
			for _, pi := range [][2]int{{0, 0}, {1, 0}, {4, 5}, {5, 2}, {2, 3}, {0, 1}} {
				ins, del := patterns[pi[0]], patterns[pi[1]]
				cs.Do(name("%d keys, put %s, remove %s", n, ins.name, del.name), func(t *mc.T) {
					c := mk(n)
					val := make([]int, n)
					next := 0
					local := func(k int) {
						t.Step()
						for _, q := range []int{k, (k + 1) % n, n - 1 - k} {
							if got, ok := c.get(q); got != val[q] || ok != (val[q] != 0) {
								t.Failf("after changing key %d: Get(%d) = %d,%v, want %d", k, q, got, ok, val[q])
							}
						}
					}
					put := func(k int) {
						next++
						c.put(k, next)
						val[k] = next
						local(k)
					}
					rem := func(k int) {
						c.del(k)
						val[k] = 0
						local(k)
					}
					c.check(t, "empty", val)
					for i, k := range ins.perm(n) {
						put(k)
						if i > 500 && bits.OnesCount(uint(i+1)) == 1 {
							c.check(t, fmt.Sprintf("after %d puts", i+1), val)
						}
					}
					c.check(t, "full", val)
					for k := 0; k < n; k += 3 {
						put(k)
					}
					c.check(t, "after overwriting", val)
					var copies []*lkeyed
					var was [][]int
					snap := func() {
						if c.cp != nil {
							copies = append(copies, c.cp())
							was = append(was, append([]int{}, val...))
						}
					}
					snap()
					for i, k := range del.perm(n) {
						rem(k)
						if i%5 == 4 {
							rem(k) // absent
						}
						if left := n - 1 - i; left > 100 && bits.OnesCount(uint(left)) == 1 || left == n/2 {
							c.check(t, fmt.Sprintf("with %d left", left), val)
							if left == n/2 {
								snap()
								for j := 0; j < n/9; j++ {
									put(del.perm(9)[j%9] * (n / 9))
									rem(del.perm(9)[j%9] * (n / 9))
									if j > 40 {
										break
									}
								}
							}
						}
					}
					c.check(t, "after removing all", val)
					for _, k := range del.perm(n) {
						if k%2 == 0 {
							put(k)
						}
					}
					c.check(t, "after putting half back", val)
					if c.clear != nil {
						c.clear()
						for k := range val {
							val[k] = 0
						}
						c.check(t, "cleared", val)
						for k := 0; k < n; k += 1 + n/300 {
							put(k)
						}
						c.check(t, "refilled", val)
					}
					for i, cp := range copies {
						cp.check(t, fmt.Sprintf("copy %d", i), was[i])
						cp.put(0, 1<<40)
						cp.del(n - 1)
						was[i][0], was[i][n-1] = 1<<40, 0
					}
					for i, cp := range copies {
						cp.check(t, fmt.Sprintf("changed copy %d", i), was[i])
					}
					if len(copies) > 0 {
						c.check(t, "after changing the copies", val)
					}
					t.State(n, ins.name, del.name)
				})
			}
		}
	})
}

func less(a, b int) bool { return a < b }

// largeHashes by name.
var largeHashes = []struct {
	name string
	f    func(k int) uint64
}{
	{"HashInt", g.HashInt},
	{"twice the key", func(k int) uint64 { return 2 * uint64(k) }},
	{"groups of 3 from the top", func(k int) uint64 { return ^uint64(k / 3 * 8) }},
	{"high half", func(k int) uint64 { return uint64(k)<<40 + uint64(k)<<2 }},
}

func largeSizes(th bool) []int {
	return pick(th, []int{1025, 4097, 66000, 140000}, []int{1025, 4097, 66000, 140000, 300000})
}

func largeHash(th bool, nm string, copies bool) (r []mc.Job) {
	for _, h := range largeHashes {
		for _, capacity := range []uint64{0, 100000} {
			mk := lHashmap(capacity, h.f, copies)
			if nm == "hashset" {
				mk = lHashset(capacity, h.f, copies)
			}
			r = append(r, largeKeyed(fmt.Sprintf("%s/%s, capacity %d", nm, h.name, capacity), largeSizes(th), mk)...)
		}
	}
	return
}

func largeMultimaps(th bool) []mc.Job {
	sizes := largeSizes(th)
	return jobs(
		largeKeyed("multimap/map-slice", sizes, lMultimap(func() multimap.MultiMap[int, int] { return multimap.NewMapSlice[int, int]() }, false)),
		largeKeyed("multimap/map-set", sizes, lMultimap(func() multimap.MultiMap[int, int] { return multimap.NewMapSet[int, int](less) }, false)),
		largeKeyed("multimap/avl-slice", sizes, lMultimap(func() multimap.MultiMap[int, int] { return multimap.NewAvlSlice[int, int](less) }, true)),
		largeKeyed("multimap/avl-set", sizes, lMultimap(func() multimap.MultiMap[int, int] { return multimap.NewAvlSet[int, int](less, less) }, true)))
}

func lHashmap(capacity uint64, hash func(k int) uint64, copies bool) func(n int) *lkeyed {
	var wrap func(m *hashmap.Map[int, int]) *lkeyed
	wrap = func(m *hashmap.Map[int, int]) *lkeyed {
		c := &lkeyed{put: m.Put, del: m.Remove, get: m.Get, size: m.Size, each: m.Each, clear: m.Clear}
		if copies {
			c.cp = func() *lkeyed { return wrap(m.Copy()) }
		}
		return c
	}
	return func(n int) *lkeyed {
		return wrap(hashmap.New[int, int](capacity, func(a, b int) bool { return a == b }, hash))
	}
}

// lset adapts a set: the values are not kept.
func lset(s set.SetOf[int], cp func() set.SetOf[int]) *lkeyed {
	vals := map[int]int{}
	return lsetWith(s, vals, cp)
}

func lsetWith(s set.SetOf[int], vals map[int]int, cp func() set.SetOf[int]) *lkeyed {
	c := &lkeyed{
		put: func(k, v int) { s.Put(k); vals[k] = v },
		del: func(k int) { s.Remove(k); delete(vals, k) },
		get: func(k int) (int, bool) {
			if !s.Has(k) {
				return 0, false
			}
			if v, ok := vals[k]; ok {
				return v, true
			}
			return -1, true
		},
		size: s.Size,
		each: func(f func(k, v int)) { s.Each(func(k int) { f(k, vals[k]) }) },
		clear: func() {
			s.Clear()
			vals = map[int]int{}
		},
	}
	if cp != nil {
		c.cp = func() *lkeyed {
			m := make(map[int]int, len(vals))
			for k, v := range vals {
				m[k] = v
			}
			d := cp()
			var again func() set.SetOf[int]
			if h, ok := d.(*hashset.Set[int]); ok {
				again = func() set.SetOf[int] { return h.Copy() }
			}
			return lsetWith(d, m, again)
		}
	}
	return c
}

func eqInt(a, b int) bool { return a == b }

func lHashset(capacity uint64, hash func(k int) uint64, copies bool) func(n int) *lkeyed {
	return func(n int) *lkeyed {
		s := hashset.New[int](capacity, eqInt, hash)
		if copies {
			return lset(s, func() set.SetOf[int] { return s.Copy() })
		}
		return lset(s, nil)
	}
}

func lMapset(n int) *lkeyed { return lset(mapset.New[int](), nil) }

func lAvl(n int) *lkeyed {
	t := avl.New[int, int](less)
	return &lkeyed{put: t.Put, del: t.Remove, get: t.Get, size: t.Size, each: t.Each, sorted: true}
}

func lBtree(n int) *lkeyed {
	t := btree.New[int, int](less)
	return &lkeyed{put: t.Put, del: t.Remove, get: t.Get, size: t.Size, each: t.Each, sorted: true}
}

// lTrie: keys of 3 and 4 bytes, in the order of the numbers, every fourth a
// prefix of the next ones; for k below 2^20.
func lTrie(list bool) func(n int) *lkeyed {
	return func(n int) *lkeyed {
		t := trie.New[int]()
		key := make([]string, n)
		for k := range key {
			b := []byte{byte(k >> 12), byte(k >> 6 & 63), byte(k >> 2 & 15)}
			if k&3 != 0 {
				b = append(b, byte(k&3)*85)
			}
			key[k] = string(b)
		}
		c := &lkeyed{
			put: func(k, v int) { t.Put(key[k], v) },
			del: func(k int) { t.Remove(key[k]) },
			get: func(k int) (int, bool) {
				v, ok := t.Get(key[k])
				if t.Contains(key[k]) != ok {
					return -1, ok
				}
				return v, ok
			},
			size: t.Size,
		}
		if list {
			c.extra = func(val []int) error {
				var want []string
				for k, v := range val {
					if v != 0 {
						want = append(want, key[k])
					}
				}
				if !sort.StringsAreSorted(want) {
					panic("keys out of order")
				}
				got := t.Keys()
				if !eqSlice(got, want) {
					return errf("Keys() lists %d keys, want %d, or in another order", len(got), len(want))
				}
				for k := 0; k < len(val); k += 1 + len(val)/50 {
					for cut := 1; cut <= len(key[k]); cut++ {
						p := key[k][:cut]
						lo := sort.SearchStrings(want, p)
						hi := lo
						for hi < len(want) && len(want[hi]) >= cut && want[hi][:cut] == p {
							hi++
						}
						if got := t.KeysWithPrefix(p); !eqSlice(got, want[lo:hi]) {
							return errf("KeysWithPrefix(%q) lists %d keys, want %d, or in another order", p, len(got), hi-lo)
						}
					}
					longest := ""
					q := key[k] + "\x55\x07"
					for cut := 1; cut <= len(q); cut++ {
						if i := sort.SearchStrings(want, q[:cut]); i < len(want) && want[i] == q[:cut] {
							longest = q[:cut]
						}
					}
					if got := t.LongestPrefix(q); got != longest {
						return errf("LongestPrefix(%q) = %q, want %q", q, got, longest)
					}
				}
				return nil
			}
		}
		return c
	}
}

// lInterval: interval [k, k+len(k)].
func lInterval(query bool) func(n int) *lkeyed {
	return func(n int) *lkeyed {
		t := interval.New[int, int]()
		high := func(k, v int) int {
			if k%1000 == 7 {
				return k + n/2
			}
			return k + v%7
		}
		c := &lkeyed{
			put: func(k, v int) { t.Put(k, high(k, v), v) },
			del: func(k int) { t.Remove(k) },
			get: func(k int) (int, bool) {
				kv, ok := t.Get(k)
				if ok && (kv.Low != k || kv.High != high(k, kv.Val)) {
					return -1, true
				}
				return kv.Val, ok
			},
			size:   t.Size,
			sorted: true,
			each: func(f func(k, v int)) {
				t.Each(func(lo, hi, v int) {
					if hi != high(lo, v) {
						v = -1
					}
					f(lo, v)
				})
			},
		}
		if query {
			c.extra = func(val []int) error {
				for i := 0; i < 40; i++ {
					lo := i * n / 40
					hi := lo + []int{0, 1, 3, 50, n / 3}[i%5]
					var want []int
					for k := 0; k < n && k < hi; k++ {
						if val[k] != 0 && high(k, val[k]) > lo {
							want = append(want, k)
						}
					}
					got := t.Overlaps(lo, hi)
					if len(got) != len(want) {
						return errf("Overlaps(%d,%d) returns %d intervals, want %d", lo, hi, len(got), len(want))
					}
					for j, kv := range got {
						if kv.Low != want[j] || kv.Val != val[want[j]] || kv.High != high(kv.Low, kv.Val) {
							return errf("Overlaps(%d,%d)[%d] = %v, want start %d", lo, hi, j, kv, want[j])
						}
					}
				}
				return nil
			}
		}
		return c
	}
}

func lBimap(copies bool) func(n int) *lkeyed {
	var wrap func(b *bimap.Bimap[int, int]) *lkeyed
	wrap = func(b *bimap.Bimap[int, int]) *lkeyed {
		c := &lkeyed{
			put:  b.Add,
			del:  b.RemoveForward,
			get:  b.GetForward,
			size: b.Len,
			each: b.Each,
			clear: func() {
				b.Clear()
			},
			extra: func(val []int) error {
				for k, v := range val {
					if v == 0 {
						continue
					}
					if q, ok := b.GetReverse(v); !ok || q != k || !b.ContainsReverse(v) {
						return errf("GetReverse(%d) = %d,%v, want %d", v, q, ok, k)
					}
				}
				for _, v := range []int{0, -1, 1 << 50} {
					if b.ContainsReverse(v) {
						return errf("ContainsReverse(%d)", v)
					}
				}
				return nil
			},
		}
		if copies {
			c.cp = func() *lkeyed { d := b.Copy(); return wrap(&d) }
		}
		return c
	}
	return func(n int) *lkeyed { return wrap(&bimap.Bimap[int, int]{}) }
}

func lMultimap(mk func() multimap.MultiMap[int, int], sorted bool) func(n int) *lkeyed {
	return func(n int) *lkeyed {
		m := mk()
		return &lkeyed{
			put: func(k, v int) {
				if m.Has(k) {
					m.RemoveAll(k)
				}
				m.Put(k, v)
			},
			del: func(k int) {
				if vs := m.Get(k); len(vs) == 1 && k%3 != 0 {
					m.Remove(k, vs[0])
				} else {
					m.RemoveAll(k)
				}
			},
			get: func(k int) (int, bool) {
				vs := m.Get(k)
				if len(vs) != m.Count(k) || m.Has(k) != (len(vs) > 0) || len(vs) > 1 {
					return -1, true
				}
				if len(vs) == 0 {
					return 0, false
				}
				return vs[0], true
			},
			size: func() int {
				if m.Size() != m.Dimension() {
					return -1
				}
				return m.Size()
			},
			each: func(f func(k, v int)) {
				i := 0
				var ks []int
				m.EachAssociation(func(k int, vs []int) { ks = append(ks, k) })
				m.Each(func(k, v int) {
					if sorted && (i >= len(ks) || ks[i] != k) {
						v = -1
					}
					i++
					f(k, v)
				})
				if i != len(ks) {
					f(-1, -1)
				}
			},
			sorted: sorted,
			clear:  m.Clear,
		}
	}
}

// largeValues: one key with many values, next to a few others.
func largeValues(sizes []int) []mc.Job {
	type variant struct {
		name string
		mk   func() multimap.MultiMap[int, int]
		dup  bool
	}
	vs := []variant{
		{"map-slice", func() multimap.MultiMap[int, int] { return multimap.NewMapSlice[int, int]() }, true},
		{"map-set", func() multimap.MultiMap[int, int] { return multimap.NewMapSet[int, int](less) }, false},
		{"avl-slice", func() multimap.MultiMap[int, int] { return multimap.NewAvlSlice[int, int](less) }, true},
		{"avl-set", func() multimap.MultiMap[int, int] { return multimap.NewAvlSet[int, int](less, less) }, false},
	}
	return mc.Shard(4, "multimap/large-values", func(cs *mc.Cases) {
		for _, n := range sizes {
			for _, v := range vs {
				for _, pi := range [][2]int{{0, 1}, {4, 5}, {1, 1}} {
					ins, del := patterns[pi[0]], patterns[pi[1]]
					cs.Do(name("%s, %d values of one key, put %s, remove %s", v.name, n, ins.name, del.name), func(t *mc.T) {
						m := v.mk()
						count := make([]int, n)
						total := 0
						m.Put(-1, 5)
						m.Put(1<<40, 5)
						check := func(what string) {
							t.Step()
							got := make([]int, n)
							l := m.Get(7)
							last := -1
							for _, x := range l {
								if x < 0 || x >= n {
									t.Failf("%s: value %d", what, x)
								}
								if !v.dup && x <= last {
									t.Failf("%s: value %d after %d", what, x, last)
								}
								last = x
								got[x]++
							}
							for x := range got {
								if got[x] != count[x] {
									t.Failf("%s: value %d is listed %d times, want %d", what, x, got[x], count[x])
								}
							}
							if len(l) != total || m.Count(7) != total || m.Size() != total+2 || m.Has(7) != (total > 0) || m.Dimension() != cond(total > 0, 3, 2) {
								t.Failf("%s: %d values listed, Count %d, Size %d, Dimension %d, want %d values", what, len(l), m.Count(7), m.Size(), m.Dimension(), total)
							}
							c := 0
							m.Each(func(k, x int) {
								if k == 7 {
									c++
								} else if k != -1 && k != 1<<40 || x != 5 {
									t.Failf("%s: visits (%d,%d)", what, k, x)
								}
							})
							if c != total {
								t.Failf("%s: Each visits %d values, want %d", what, c, total)
							}
						}
						put := func(x int) {
							t.Step()
							m.Put(7, x)
							if v.dup || count[x] == 0 {
								count[x]++
								total++
							}
						}
						rem := func(x int) {
							t.Step()
							m.Remove(7, x)
							if count[x] > 0 {
								count[x]--
								total--
							}
						}
						for i, x := range ins.perm(n) {
							put(x)
							if i%4 == 1 {
								put(x)
							}
							if i > 200 && bits.OnesCount(uint(i)) == 1 {
								check(fmt.Sprintf("after %d values", i))
							}
						}
						check("full")
						for i, x := range del.perm(n) {
							rem(x)
							if i%8 == 3 {
								rem(x)
							}
							if left := n - 1 - i; left > 50 && bits.OnesCount(uint(left)) == 1 {
								check(fmt.Sprintf("with about %d values left", left))
							}
						}
						check("thinned out")
						for x := 0; x < n; x += 2 {
							put(x)
						}
						check("refilled")
						m.RemoveAll(7)
						for x := range count {
							count[x] = 0
						}
						total = 0
						check("after RemoveAll")
						t.State(v.name, n, ins.name)
					})
				}
			}
		}
	})
}

// ---- sequences ----

func largeQueue(sizes []int) []mc.Job {
	return mc.Shard(2, "queue/large", func(cs *mc.Cases) {
		for _, n := range sizes {
			for _, lag := range []int{1, 2, n / 3, n} {
				cs.Do(name("%d items, one leaving for every %d entering", n, lag), func(t *mc.T) {
					q := queue.New[int]()
					head, tail := 0, 0
					check := func() {
						t.Step()
						if q.Len() != tail-head || q.Empty() != (head == tail) {
							t.Failf("Len() = %d, Empty() = %v, want length %d", q.Len(), q.Empty(), tail-head)
						}
						all := q.PeekAll()
						i := head
						q.Each(func(v int) {
							if v != i {
								t.Failf("Each visits %d, want %d", v, i)
							}
							i++
						})
						if i != tail || len(all) != tail-head {
							t.Failf("%d visited, %d listed, want %d", i-head, len(all), tail-head)
						}
						for j, v := range all {
							if v != head+j {
								t.Failf("PeekAll()[%d] = %d, want %d", j, v, head+j)
							}
						}
					}
					out := func() {
						t.Step()
						if v, ok := q.TryPeek(); !ok || v != head {
							t.Failf("TryPeek() = %d,%v, want %d", v, ok, head)
						}
						if v := q.Dequeue(); v != head {
							t.Failf("Dequeue() = %d, want %d", v, head)
						}
						head++
						if q.Len() != tail-head {
							t.Failf("Len() = %d, want %d", q.Len(), tail-head)
						}
					}
					for i := 0; i < n; i++ {
						t.Step()
						q.Enqueue(tail)
						tail++
						if i%lag == lag-1 {
							out()
						}
						if bits.OnesCount(uint(i)) == 1 && i > 500 {
							check()
						}
					}
					check()
					for tail-head > n/2 {
						out()
					}
					check()
					c := q.Copy()
					want := q.PeekAll()
					for head < tail {
						out()
					}
					check()
					if _, ok := q.TryDequeue(); ok {
						t.Failf("TryDequeue() of an empty queue")
					}
					if got := c.DequeueAll(); !eqSlice(got, want) {
						t.Failf("the copy holds %d items, want %d, or others", len(got), len(want))
					}
					if !c.Empty() || c.Len() != 0 {
						t.Failf("not empty after DequeueAll")
					}
					of := queue.Of(gen(n, func(i int) int { return tail + i }))
					q, head, tail = of, tail, tail+n
					check()
					out()
					q.Enqueue(tail)
					tail++
					check()
					q.Clear()
					head = tail
					check()
					q.Enqueue(tail)
					tail++
					check()
					t.State(n, lag)
				})
			}
		}
	})
}

func largeStack(sizes []int) []mc.Job {
	return mc.Shard(2, "stack/large", func(cs *mc.Cases) {
		for _, n := range sizes {
			for _, back := range []int{0, 1, 3} {
				cs.Do(name("%d pushes, %d pops after every 4", n, back), func(t *mc.T) {
					s := stack.New[int]()
					var m []int
					pop := func() {
						t.Step()
						want := 0
						if len(m) > 0 {
							want = m[len(m)-1]
							m = m[:len(m)-1]
						}
						if p, v := s.Peek(), s.Pop(); v != want || p != want {
							t.Failf("Peek, Pop = %d, %d, want %d", p, v, want)
						}
						if s.Size() != len(m) {
							t.Failf("Size() = %d, want %d", s.Size(), len(m))
						}
					}
					push := func(v int) {
						t.Step()
						s.Push(v)
						m = append(m, v)
						if s.Size() != len(m) || s.Peek() != v {
							t.Failf("Size() = %d, Peek() = %d, want %d, %d", s.Size(), s.Peek(), len(m), v)
						}
					}
					for i := 0; i < n; i++ {
						push(i + 1)
						for j := 0; i%4 == 3 && j < back; j++ {
							pop()
						}
					}
					c, cm := s.Copy(), append([]int{}, m...)
					for len(m) > 0 {
						pop()
					}
					pop()
					pop()
					for i := 0; i < n/2; i++ {
						push(-i - 1)
					}
					for len(m) > 0 {
						pop()
					}
					s, m = c, cm // the copy
					for len(m) > 0 {
						pop()
					}
					pop()
					t.State(n, back)
				})
			}
		}
	})
}

func largeList(sizes []int) []mc.Job {
	return mc.Shard(2, "list/large", func(cs *mc.Cases) {
		for _, n := range sizes {
			for _, pt := range patterns {
				cs.Do(name("%d nodes, removed and re-inserted %s", n, pt.name), func(t *mc.T) {
					l := list.New[int]()
					for i := 0; i < n; i++ {
						t.Step()
						switch { // 0..n-1 in order, from the middle
						case i%2 == 0:
							l.PushBack(n/2 + i/2)
						default:
							l.PushFront(n/2 - 1 - i/2)
						}
					}
					nodes := make([]*list.Node[int], 0, n)
					l.Front.EachNode(func(x *list.Node[int]) { nodes = append(nodes, x) })
					in := gen(n, func(int) int { return 1 })
					low := nodes[0].Value
					check := func(what string) {
						t.Step()
						var want []int
						for i, x := range in {
							if x != 0 {
								want = append(want, low+i)
							}
						}
						j := 0
						l.Front.Each(func(v int) {
							if j >= len(want) || v != want[j] {
								t.Failf("%s: forward, position %d: %d", what, j, v)
							}
							j++
						})
						if j != len(want) {
							t.Failf("%s: forward, %d nodes, want %d", what, j, len(want))
						}
						l.Back.EachReverse(func(v int) {
							j--
							if j < 0 || v != want[j] {
								t.Failf("%s: backward, position %d: %d", what, j, v)
							}
						})
						if j != 0 {
							t.Failf("%s: backward, %d nodes missing", what, j)
						}
						if (l.Front == nil) != (len(want) == 0) || (l.Back == nil) != (len(want) == 0) {
							t.Failf("%s: front or back", what)
						}
					}
					if len(nodes) != n {
						t.Failf("EachNode visits %d nodes, want %d", len(nodes), n)
					}
					check("filled")
					p := pt.perm(n)
					for i, k := range p {
						t.Step()
						l.Remove(nodes[k])
						in[k] = 0
						if bits.OnesCount(uint(i)) == 1 && i > 500 {
							check("thinning out")
						}
					}
					check("emptied")
					for i, k := range p { // back in, next to a held neighbour where there is one
						t.Step()
						switch {
						case k > 0 && in[k-1] != 0:
							l.InsertAfter(nodes[k-1], nodes[k])
						case k < n-1 && in[k+1] != 0:
							l.InsertBefore(nodes[k+1], nodes[k])
						default:
							continue
						}
						in[k] = 1
						if bits.OnesCount(uint(i)) == 1 && i > 500 {
							check("refilling")
						}
					}
					if l.Front == nil {
						l.PushFrontNode(nodes[n/2])
						in[n/2] = 1
					}
					check("refilled")
					t.State(n, pt.name)
				})
			}
		}
	})
}

func largeUlist(sizes []int, iter bool) []mc.Job {
	return mc.Shard(4, "ulist/large", func(cs *mc.Cases) {
		for _, n := range sizes {
			for _, bs := range []int{1, 2, 7, 64, 1000, n, 3 * n} {
				for _, sel := range []string{"every second", "blocks", "all but the ends"} {
					cs.Do(name("%d elements, blocks of %d, remove %s", n, bs, sel), func(t *mc.T) {
						u := ulist.New[int](bs)
						var m []int
						check := func(what string) {
							t.Step()
							if u.Size() != len(m) {
								t.Failf("%s: Size() = %d, want %d", what, u.Size(), len(m))
							}
							j := 0
							for it := u.Begin(); it.IsValid(); it.Next() {
								if j >= len(m) || it.Get() != m[j] {
									t.Failf("%s: forward, position %d", what, j)
								}
								j++
							}
							if j != len(m) {
								t.Failf("%s: forward, %d elements, want %d", what, j, len(m))
							}
							for it := u.End(); it.IsValid(); it.Prev() {
								j--
								if j < 0 || it.Get() != m[j] {
									t.Failf("%s: backward, position %d", what, j)
								}
							}
							if j != 0 {
								t.Failf("%s: backward, %d elements missing", what, j)
							}
						}
						for i := 0; i < n; i++ {
							t.Step()
							u.PushBack(i)
							m = append(m, i)
						}
						check("pushed")
						if iter {
							// remove in one pass
							it := u.Begin()
							var left []int
							for i := 0; i < n; i++ {
								t.Step()
								if !it.IsValid() || it.Get() != m[i] {
									t.Failf("removing: the iterator is not at element %d", i)
								}
								rm := i%2 == 1
								switch sel {
								case "blocks":
									rm = i/(bs+1)%2 == 0
								case "all but the ends":
									rm = i > 0 && i < n-1
								}
								if rm {
									u.Remove(it)
								} else {
									left = append(left, m[i])
									it.Next()
								}
							}
							m = left
							check("after removing")
							// insert around every element in one pass
							var grown []int
							if len(m) > 0 {
								it = u.Begin()
								for i, v := range m {
									t.Step()
									if !it.IsValid() || it.Get() != v {
										t.Failf("inserting: the iterator is not at element %d", i)
									}
									switch i % 3 {
									case 0:
										u.AddAfter(it, -v-1)
										grown = append(grown, v, -v-1)
									case 1:
										u.AddBefore(it, -v-1)
										grown = append(grown, -v-1, v)
										it.Next()
									default:
										grown = append(grown, v)
									}
									if it.IsValid() && it.Get() != grown[len(grown)-1] {
										t.Failf("inserting: the iterator is not at the last element seen, %d", grown[len(grown)-1])
									}
									it.Next()
								}
								m = grown
							}
							check("after inserting")
							for i := 0; i < n/4; i++ {
								t.Step()
								u.PushFront(n + i)
							}
							m = append(gen(n/4, func(i int) int { return n + n/4 - 1 - i }), m...)
							check("after pushing in front")
							it = u.End()
							for len(m) > 0 { // from the back
								t.Step()
								if !it.IsValid() || it.Get() != m[len(m)-1] {
									t.Failf("emptying: the iterator is not at the last of %d elements", len(m))
								}
								u.Remove(it)
								m = m[:len(m)-1]
								if len(m) > 0 {
									if it.IsValid() {
										t.Failf("emptying: the iterator is valid past the end")
									}
									it.Prev()
								}
							}
							check("emptied")
						} else {
							at := func(p int) *ulist.UListIter[int] {
								t.Step()
								if p < len(m)-p {
									it := u.Begin()
									for ; p > 0; p-- {
										it.Next()
									}
									return it
								}
								it := u.End()
								for p++; p < len(m); p++ {
									it.Prev()
								}
								return it
							}
							edit := func(p, kind int) {
								switch it := at(p); kind {
								case 0:
									u.Remove(it)
									m = append(m[:p], m[p+1:]...)
								case 1:
									u.AddAfter(it, -p)
									m = insertAt(m, p+1, []int{-p})
								default:
									u.AddBefore(it, -p)
									m = insertAt(m, p, []int{-p})
								}
							}
							for i := 0; i < 40; i++ {
								p := len(m) * i / 40
								edit(p, i%3)
								edit(p, cond(sel == "blocks", i%3, i/3%3))
								edit(p+1, 0)
							}
							check("edited")
							for i := 0; i < n/8; i++ {
								edit(i%5, cond(sel == "blocks", 0, 2))
								edit(len(m)-1-i%5, cond(sel == "blocks", 0, 1))
							}
							check("edited near the ends")
							for i := 0; i < n/4; i++ {
								t.Step()
								u.PushFront(n + i)
							}
							m = append(gen(n/4, func(i int) int { return n + n/4 - 1 - i }), m...)
							check("after pushing in front")
							for i := 0; len(m) > 0; i++ {
								edit(cond(i%3 == 0, 0, len(m)-1), 0)
							}
							check("emptied")
						}
						u.PushFront(1)
						u.PushBack(2)
						m = []int{1, 2}
						check("refilled")
						t.State(n, bs, sel)
					})
				}
			}
		}
	})
}

func largeHeap(sizes []int) []mc.Job {
	return mc.Shard(6, "heap/large", func(cs *mc.Cases) {
		for _, n := range sizes {
			for _, pt := range patterns {
				for _, mod := range []int{n, 1000, 3} {
					for _, build := range []string{"pushed", "given"} {
						cs.Do(name("%d elements %s in order %s, %d distinct", n, build, pt.name, mod), func(t *mc.T) {
							p := pt.perm(n)
							count := make([]int, mod)
							in := make([]item, n)
							for i, k := range p {
								in[i] = item{k % mod, i}
								count[k%mod]++
							}
							by := func(a, b item) bool { return a.K < b.K }
							var h *heap.Heap[item]
							if build == "given" {
								t.Step()
								h = heap.FromSlice(by, append([]item{}, in...))
							} else {
								h = heap.New(by)
								low := n
								for i, x := range in {
									t.Step()
									h.Push(x)
									low = min(low, x.K)
									if v, ok := h.Peek(); !ok || v.K != low || h.Size() != i+1 {
										t.Failf("after %d pushes: Peek() = %v,%v, want key %d; Size() = %d", i+1, v, ok, low, h.Size())
									}
								}
							}
							seen := make([]bool, n)
							low := 0
							pop := func(left int) {
								t.Step()
								for count[low] == 0 {
									low++
								}
								q, _ := h.Peek()
								v, ok := h.Pop()
								if !ok || v.K != low || q.K != low {
									t.Failf("with %d left: Peek, Pop = %v, %v,%v, want key %d", left, q, v, ok, low)
								}
								if v.ID < 0 || v.ID >= n || seen[v.ID] || in[v.ID] != v {
									t.Failf("with %d left: Pop() = %v, which is not held", left, v)
								}
								seen[v.ID] = true
								count[low]--
								if h.Size() != left {
									t.Failf("Size() = %d, want %d", h.Size(), left)
								}
							}
							for i := 0; i < n/2; i++ {
								pop(n - 1 - i)
							}
							for i := 0; i < n/2; i += 3 { // some back in
								t.Step()
								for j := range seen {
									if seen[(i+j)%n] {
										x := in[(i+j)%n]
										seen[x.ID] = false
										count[x.K]++
										low = min(low, x.K)
										h.Push(x)
										break
									}
								}
							}
							for k := h.Size(); k > 0; k-- {
								pop(k - 1)
							}
							if _, ok := h.Pop(); ok {
								t.Failf("Pop() of an empty heap")
							}
							for i, s := range seen {
								if !s {
									t.Failf("element %d lost", i)
								}
							}
							t.State(n, pt.name, mod, build)
						})
					}
				}
			}
		}
	})
}

// largeCache: the order of use is kept by time stamps.
func largeCache(caps []int, callbacks bool) []mc.Job {
	return mc.Shard(4, "cache/large", func(cs *mc.Cases) {
		for _, c := range caps {
			for _, pt := range patterns {
				cs.Do(name("capacity %d, use order %s", c, pt.name), func(t *mc.T) {
					n := c + c/2 + 2 // keys
					ca := cache.New[int, int](c)
					val, last := make([]int, n), make([]int, n)
					order := []int{} // keys by use, oldest first, with stale entries
					stamp := []int{}
					first, clock, held, capacity := 0, 0, 0, c
					use := func(k int) {
						clock++
						last[k] = clock
						order, stamp = append(order, k), append(stamp, clock)
					}
					oldest := func() int {
						for val[order[first]] == 0 || last[order[first]] != stamp[first] {
							first++
						}
						return order[first]
					}
					calls := 0
					if callbacks {
						ca.SetEvictCallback(func(k, v int) {
							calls++
							if held <= 0 || oldest() != k || val[k] != v {
								t.Failf("callback(%d,%d): not the least recently used entry", k, v)
							}
							val[k] = 0
							held--
						})
					}
					evict := func() {
						if !callbacks {
							for held > capacity {
								val[oldest()] = 0
								held--
							}
						}
						if held > capacity {
							t.Failf("%d entries held, capacity %d, %d callbacks", held, capacity, calls)
						}
					}
					put := func(k int) {
						t.Step()
						was := calls
						full := val[k] == 0 && held == capacity
						ca.Put(k, clock+1)
						if callbacks && calls-was != cond(full, 1, 0) {
							t.Failf("Put(%d): %d callbacks", k, calls-was)
						}
						if val[k] == 0 {
							held++
						}
						val[k] = clock + 1
						use(k)
						evict()
					}
					get := func(k int) {
						t.Step()
						v, ok := ca.Get(k)
						if v != val[k] || ok != (val[k] != 0) {
							t.Failf("Get(%d) = %d,%v, want %d", k, v, ok, val[k])
						}
						if ok {
							use(k)
						}
					}
					check := func(what string) {
						t.Step()
						if ca.Size() != held || ca.Capacity() != capacity {
							t.Failf("%s: Size() = %d, Capacity() = %d, want %d, %d", what, ca.Size(), ca.Capacity(), held, capacity)
						}
						i := 0
						prev := clock + 1
						ca.Each(func(k, v int) {
							if k < 0 || k >= n || v == 0 || val[k] != v || last[k] >= prev {
								t.Failf("%s: position %d: entry (%d,%d)", what, i, k, v)
							}
							prev = last[k]
							i++
						})
						if i != held {
							t.Failf("%s: Each visits %d entries, want %d", what, i, held)
						}
					}
					p := pt.perm(n)
					for _, k := range p {
						put(k)
					}
					check("filled")
					for i, k := range p {
						switch i % 3 {
						case 0:
							get(k)
						case 1:
							put(p[n-1-i])
						default:
							get(p[(i*7)%n])
						}
					}
					check("used")
					for i := 0; i < n; i += 5 {
						t.Step()
						was := calls
						ca.Remove(p[i])
						if calls != was {
							t.Failf("Remove(%d) made a callback", p[i])
						}
						if val[p[i]] != 0 {
							val[p[i]] = 0
							held--
						}
					}
					check("after removing")
					for _, to := range []int{c, c / 2, c/2 + 1, 2 * c, 1, c} {
						t.Step()
						capacity = to
						ca.Resize(to)
						evict()
						check(fmt.Sprintf("after Resize(%d)", to))
						for i := 0; i < n; i += 2 {
							put(p[(i*3)%n])
						}
						check("refilled")
					}
					t.State(c, pt.name)
				})
			}
		}
	})
}

// hugeCapacity: a capacity far above the number of entries.
func hugeCapacity() []mc.Job {
	return mc.Shard(1, "cache/huge-capacity", func(cs *mc.Cases) {
		for _, c := range []int{1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1<<63 - 1} {
			cs.Do(name("capacity %d", c), func(t *mc.T) {
				for _, start := range []int{0, 2, c} {
					ca := cache.New[int, int](start)
					if start != c {
						ca.Resize(c)
					}
					if ca.Capacity() != c {
						t.Failf("Capacity() = %d", ca.Capacity())
					}
					for i := 0; i < 100; i++ {
						t.Step()
						ca.Put(i, i+1)
					}
					if ca.Size() != 100 {
						t.Failf("Size() = %d, want 100", ca.Size())
					}
					for i := 0; i < 100; i++ {
						if v, ok := ca.Get(i); !ok || v != i+1 {
							t.Failf("Get(%d) = %d,%v", i, v, ok)
						}
					}
					ca.Resize(2)
					if ca.Size() != 2 || ca.Capacity() != 2 {
						t.Failf("Size() = %d, Capacity() = %d after Resize(2)", ca.Size(), ca.Capacity())
					}
				}
			})
		}
	})
}

// ---- ropes ----

// hugeRopes: default thresholds, contents and insertions of many thresholds' size.
func hugeRopes(nm string, persistent, parts, th bool) []mc.Job {
	split := 4096 * 4
	lens := []int{0, 1, split - 1, split, split + 1, 2*split + 1, 5 * split, pick(th, 120000, 300000)}
	blocks := []int{1, split/2 - 1, split / 2, split/2 + 1, split - 1, split, split + 1, pick(th, 70000, 150000)}
	return mc.Shard(8, nm, func(cs *mc.Cases) {
		for _, n := range lens {
			for _, blk := range blocks {
				cs.Do(name("default thresholds, %d elements, blocks of %d", n, blk), func(t *mc.T) {
					var next L
					mk := func(n int) []L {
						r := make([]L, n)
						for i := range r {
							next++
							r[i] = next
						}
						return r
					}
					first := mk(n)
					m := append([]L{}, first...)
					var b bigRope
					if persistent {
						prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = split, split/2, 1.5
						b = &bigP{n: prope.New(first)}
					} else {
						rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = split, split/2, 1.2
						b = &bigR{n: rope.New(first)}
					}
					check := func(what string) {
						t.Step()
						if b.length() != len(m) {
							t.Failf("%s: Len() = %d, want %d", what, b.length(), len(m))
						}
						if v := b.value(); !eqSlice(v, m) {
							t.Failf("%s: Value() differs from the plain array of %d elements", what, len(m))
						}
						for _, r := range [][2]int{{0, len(m)}, {len(m) / 3, len(m) * 2 / 3}, {1, len(m) - 1}, {len(m) / 2, len(m)/2 + 1}, {0, split}, {split - 1, split + 1}, {len(m), len(m)}} {
							if r[0] < 0 || r[1] > len(m) || r[0] > r[1] {
								continue
							}
							if v := b.slice(r[0], r[1]); !eqSlice(v, m[r[0]:r[1]]) {
								t.Failf("%s: Slice(%d,%d) differs", what, r[0], r[1])
							}
						}
						for i := 0; i < len(m); i += 1 + len(m)/97 {
							if v := b.at(i); v != m[i] {
								t.Failf("%s: At(%d) = %v, want %v", what, i, v, m[i])
							}
						}
					}
					check("new")
					for _, p := range []int{0, len(m) / 2, len(m) - 1, len(m), len(m) / 3} {
						if p < 0 {
							continue
						}
						v := mk(blk)
						t.Step()
						b.insert(p, v)
						m = insertAt(m, p, v)
						for i := range v {
							v[i] = -1
						}
						check(fmt.Sprintf("after inserting %d at %d", blk, p))
					}
					for i, a := range []int{len(m)/2 - blk/2, 0, len(m) - 2*blk, len(m) / 3, 1} {
						a = max(0, min(a, len(m)-blk))
						e := min(len(m), a+blk)
						t.Step()
						b.remove(a, e)
						m = removeAt(m, a, e)
						check(fmt.Sprintf("after deletion %d of %d", i, blk))
						if parts && i%2 == 0 {
							c := len(m) * (i + 1) / 6
							b.splitJoin(c, true)
							m = append(append([]L{}, m[c:]...), m[:c]...)
							check(fmt.Sprintf("after swapping the parts at %d", c))
							b.rebalance()
							check("after rebalancing")
						}
					}
					if parts {
						b.rebuild()
						check("after rebuilding")
					}
					t.Step()
					b.remove(0, len(m))
					m = m[:0]
					check("emptied")
					b.insert(0, []L{1})
					m = []L{1}
					check("refilled")
					if p, ok := b.(*bigP); ok && strings.HasSuffix(nm, "versions") {
						for i, n := range p.vers {
							if !eqSlice(n.Value(), p.want[i]) || n.Len() != len(p.want[i]) {
								t.Failf("version %d changed later", i)
							}
						}
					}
					t.State(n, blk)
				})
			}
		}
	})
}

// manyOperands: set algebra with more operands than an enumeration reaches.
func manyOperands(th bool) []mc.Job {
	ns := pick(th, []int{5, 8, 9, 16, 17, 33, 70}, []int{5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 65, 100, 129, 256, 257, 300})
	return mc.Shard(4, "set/many-operands", func(cs *mc.Cases) {
		for _, n := range ns {
			for _, shape := range []string{"singletons", "chain", "all but one", "multiples", "same", "empty and full"} {
				for bi, b := range someBacks() {
					cs.Do(name("%s, %d operands, %s", b.name, n, shape), func(t *mc.T) {
						in := func(o, k int) bool { // operand o (0 is the receiver) holds k, of 0..n+1
							switch shape {
							case "singletons":
								return k == o
							case "chain":
								return k == o || k == o+1
							case "all but one":
								return k != o
							case "multiples":
								return k%(o+1) == 0
							case "same":
								return k%2 == 0
							}
							return o%2 == 1
						}
						univ := n + 2
						mk := func(o int) set.Set[int] {
							s := someBacks()[(bi+o)%len(someBacks())].mk()
							for k := 0; k < univ; k++ {
								if in(o, k) {
									s.Put(k)
								}
							}
							return s
						}
						var ops []set.SetOf[int]
						for o := 1; o <= n; o++ {
							s := mk(o)
							ops = append(ops, cond[set.SetOf[int]](o%2 == 0, s, s.SetOf))
						}
						same := func(what string, s set.SetOf[int], f func(k int) bool) {
							t.Step()
							c := 0
							s.Each(func(k int) {
								if k < 0 || k >= univ || !f(k) {
									t.Failf("%s holds %d", what, k)
								}
								c++
							})
							for k := 0; k < univ; k++ {
								if s.Has(k) != f(k) {
									t.Failf("%s: Has(%d) = %v", what, k, s.Has(k))
								}
								if f(k) {
									c--
								}
							}
							if c != 0 {
								t.Failf("%s: iteration visits %d elements too many", what, c)
							}
						}
						times := func(k int) (c int) {
							for o := 0; o <= n; o++ {
								if in(o, k) {
									c++
								}
							}
							return
						}
						want := []func(k int) bool{
							func(k int) bool { return times(k) > 0 },
							func(k int) bool { return times(k) == n+1 },
							func(k int) bool { return in(0, k) && times(k) == 1 },
							func(k int) bool { return times(k) == 1 },
						}
						for a := 0; a < 4; a++ {
							s := mk(0)
							same(algName[a], setAlgebra(a, s, ops...), want[a])
							same("receiver", s, func(k int) bool { return in(0, k) })
							for o, x := range ops {
								same("operand", x, func(k int) bool { return in(o+1, k) })
							}
							if a < 3 {
								setInPlace(a, s, ops...)
								same("InPlace"+algName[a], s, want[a])
							}
						}
						t.State(n, shape, b.name)
					})
				}
			}
		}
	})
}

// largeSets: algebra and comparisons of sets of many elements.
func largeSets(th bool) []mc.Job {
	mks := []setBack{}
	for _, b := range []struct {
		name string
		mk   func() set.Set[int]
	}{
		{"map", func() set.Set[int] { return set.NewMapset[int]() }},
		{"hash", func() set.Set[int] { return set.NewHashset[int](0, eqInt, g.HashInt) }},
	} {
		b := b
		mks = append(mks, setBack{b.name, func(in ...int) set.Set[int] { return b.mk() }})
	}
	return mc.Shard(8, "set/thousands", func(cs *mc.Cases) {
		for _, n := range pick(th, []int{518, 1025, 5000, 66000, 131078}, []int{518, 1025, 5000, 33000, 66000, 131078, 200000}) {
			for _, b1 := range mks {
				for _, b2 := range mks {
					for shape := 0; shape < 9; shape++ {
						// the last two shapes: sizes that differ by a power of two
						if wraps := n == 518 || n == 131078; wraps != (shape >= 7) {
							continue
						}
						cs.Do(name("%d elements, %s and %s, shape %d", n, b1.name, b2.name, shape), func(t *mc.T) {
							x := func(k int) bool { return k%2 == 0 }
							y := []func(k int) bool{
								func(k int) bool { return k%2 == 0 },
								func(k int) bool { return k%2 == 1 },
								func(k int) bool { return k%4 == 0 },
								func(k int) bool { return true },
								func(k int) bool { return k%2 == 0 && k != n/4*2 },
								func(k int) bool { return k < n/2 },
								func(k int) bool { return k == n-1 },
								func(k int) bool { return k%2 == 0 && k < 6 },
								func(k int) bool { return k%2 == 0 && k < n-6 },
							}[shape]
							build := func(b setBack, f func(k int) bool) set.Set[int] {
								s := b.mk()
								for k := 0; k < n; k++ {
									t.Step()
									if f(k) {
										s.Put(k)
									}
								}
								return s
							}
							same := func(what string, s set.SetOf[int], f func(k int) bool) {
								t.Step()
								c := 0
								seen := make([]bool, n)
								s.Each(func(k int) {
									if k < 0 || k >= n || seen[k] || !f(k) {
										t.Failf("%s: visits %d", what, k)
									}
									seen[k] = true
									c++
								})
								for k := range seen {
									if seen[k] != f(k) || s.Has(k) != f(k) {
										t.Failf("%s: element %d", what, k)
									}
								}
								if s.Size() != c {
									t.Failf("%s: Size() = %d, want %d", what, s.Size(), c)
								}
							}
							o := build(b2, y)
							for a := 0; a < 4; a++ {
								want := func(k int) bool {
									switch p, q := x(k), y(k); a {
									case 0:
										return p || q
									case 1:
										return p && q
									case 2:
										return p && !q
									default:
										return p != q
									}
								}
								s := build(b1, x)
								same(algName[a], setAlgebra(a, s, o), want)
								same("receiver", s, x)
								if a < 3 {
									setInPlace(a, s, o)
									same("InPlace"+algName[a], s, want)
								}
								same("operand", o, y)
							}
							s := build(b1, x)
							eq, sub, sup, dis := true, true, true, true
							for k := 0; k < n; k++ {
								p, q := x(k), y(k)
								eq = eq && p == q
								sub = sub && (!p || q)
								sup = sup && (p || !q)
								dis = dis && !(p && q)
							}
							t.Step()
							got := []bool{s.Equal(o), s.IsSubset(o), s.IsSuperset(o), s.IsProperSubset(o), s.IsProperSuperset(o), s.IsDisjoint(o)}
							want := []bool{eq, sub, sup, sub && !eq, sup && !eq, dis}
							if !eqSlice(got, want) {
								t.Failf("Equal,IsSubset,IsSuperset,IsProperSubset,IsProperSuperset,IsDisjoint = %v, want %v", got, want)
							}
							if len(s.Keys()) != s.Size() || len(s.Map()) != s.Size() {
								t.Failf("Keys() lists %d, Map() %d, of %d elements", len(s.Keys()), len(s.Map()), s.Size())
							}
							c := s.Clone()
							s.Clear()
							same("clone", c, x)
							t.State(n, b1.name, b2.name, shape)
						})
					}
				}
			}
		}
	})
}
