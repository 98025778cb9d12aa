package props

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"strings"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/btree"
	"verif/mc"
)

// ---- ordered maps: avl, btree ----

type omap[K any] interface {
	Put(K, int)
	Get(K) (int, bool)
	Remove(K)
	Each(func(K, int))
	Size() int
}

// keyset is an alphabet of keys, ascending by rank. Keys with equal rank are
// not distinguished by the ordering. Keys with odd "probe" flag are only looked
// up, never put.
type keyset[K any] struct {
	name  string
	keys  []K
	rank  []int
	probe []K
	prank []int
	less  g.LessFn[K]
	same  func(a, b K) bool // same rank
}

func intKeys(n int) keyset[int] {
	ks := keyset[int]{name: fmt.Sprint("int", n), less: g.Less[int], same: func(a, b int) bool { return a == b }}
	for i := 0; i < n; i++ {
		ks.keys = append(ks.keys, 10*i-20)
		ks.rank = append(ks.rank, i)
	}
	for i := 0; i <= n; i++ {
		ks.probe = append(ks.probe, 10*i-25)
	}
	return ks
}

func reverseKeys(n int) keyset[int] {
	ks := intKeys(n)
	ks.name = fmt.Sprint("reverse", n)
	ks.less = func(a, b int) bool { return a > b }
	for i := range ks.rank {
		ks.rank[i] = n - 1 - i
	}
	return ks
}

// classKeys: two representatives per key.
func classKeys(n int) keyset[int] {
	ks := keyset[int]{name: fmt.Sprint("classes", n), less: func(a, b int) bool { return a/2 < b/2 }, same: func(a, b int) bool { return a/2 == b/2 }}
	for i := 0; i < 2*n; i++ {
		ks.keys = append(ks.keys, 2+i)
		ks.rank = append(ks.rank, i/2)
	}
	ks.probe = []int{0, 1, 2*n + 2}
	return ks
}

func stringKeys(n int) keyset[string] {
	ks := keyset[string]{name: fmt.Sprint("string", n), less: g.Less[string], same: func(a, b string) bool { return a == b }}
	ks.keys = []string{"", "\x00", "a", "aa", "ab", "b", "\xff"}[:n]
	for i := range ks.keys {
		ks.rank = append(ks.rank, i)
	}
	ks.probe = []string{"\x00\x00", "a\x00", "aaa", "ac", "c", "\xff\xff"}
	return ks
}

// bytesKeys: keys that are not comparable with ==.
func bytesKeys(n int) keyset[[]byte] {
	ks := keyset[[]byte]{name: fmt.Sprint("bytes", n), less: func(a, b []byte) bool { return bytes.Compare(a, b) < 0 }, same: bytes.Equal}
	for i := 0; i < n; i++ {
		ks.keys = append(ks.keys, []byte{byte(i), 7})
		ks.rank = append(ks.rank, i)
		ks.probe = append(ks.probe, []byte{byte(i)})
	}
	return ks
}

func floatKeys(n int) keyset[float64] {
	ks := keyset[float64]{name: fmt.Sprint("float", n), less: g.Less[float64], same: func(a, b float64) bool { return a == b }}
	ks.keys = []float64{math.Inf(-1), -1.5, 0, 0.5, math.MaxFloat64, math.Inf(1)}[:n]
	for i := range ks.keys {
		ks.rank = append(ks.rank, i)
	}
	ks.probe = []float64{-2, 0.25, 3}
	return ks
}

type omodel struct {
	rank []int // ascending
	val  []int
}

// root is the model without spare capacity.
func (m *omodel) root() omodel {
	n := len(m.rank)
	return omodel{m.rank[:n:n], m.val[:n:n]}
}

func (m *omodel) find(r int) (int, bool) {
	lo, hi := 0, len(m.rank)
	for lo < hi {
		c := (lo + hi) / 2
		if m.rank[c] < r {
			lo = c + 1
		} else {
			hi = c
		}
	}
	return lo, lo < len(m.rank) && m.rank[lo] == r
}

func (m *omodel) put(r, v int) {
	i, ok := m.find(r)
	if ok {
		m.val[i] = v
		return
	}
	m.rank = append(m.rank, 0)
	m.val = append(m.val, 0)
	copy(m.rank[i+1:], m.rank[i:])
	copy(m.val[i+1:], m.val[i:])
	m.rank[i], m.val[i] = r, v
}

func (m *omodel) remove(r int) {
	if i, ok := m.find(r); ok {
		m.rank = append(m.rank[:i], m.rank[i+1:]...)
		m.val = append(m.val[:i], m.val[i+1:]...)
	}
}

func (m *omodel) get(r int) (int, bool) {
	if i, ok := m.find(r); ok {
		return m.val[i], true
	}
	return 0, false
}

type osys[K any] struct {
	ks    keyset[K]
	nv    int
	t     omap[K]
	m     omodel
	extra func() error
}

func (s *osys[K]) Apply(op int) (bool, error) {
	k := op / (s.nv + 1)
	if v := op % (s.nv + 1); v < s.nv {
		val := 1 + k*4 + v
		s.t.Put(s.ks.keys[k], val)
		s.m.put(s.ks.rank[k], val)
	} else {
		s.t.Remove(s.ks.keys[k])
		s.m.remove(s.ks.rank[k])
	}
	return true, nil
}

func (s *osys[K]) opName(op int) string {
	k := op / (s.nv + 1)
	if v := op % (s.nv + 1); v < s.nv {
		return fmt.Sprintf("Put(%v,%d)", s.ks.keys[k], 1+k*4+v)
	}
	return fmt.Sprintf("Remove(%v)", s.ks.keys[k])
}

func (s *osys[K]) Observe() error {
	if n := s.t.Size(); n != len(s.m.rank) {
		return errf("Size() = %d, want %d", n, len(s.m.rank))
	}
	for i, k := range s.ks.keys {
		gv, gok := s.t.Get(k)
		wv, wok := s.m.get(s.ks.rank[i])
		if gok != wok || gv != wv {
			return errf("Get(%v) = %d,%v, want %d,%v", k, gv, gok, wv, wok)
		}
	}
	for _, k := range s.ks.probe {
		if gv, gok := s.t.Get(k); gok || gv != 0 {
			return errf("Get(%v) = %d,%v for a key that was never put", k, gv, gok)
		}
	}
	i := 0
	var err error
	s.t.Each(func(k K, v int) {
		if err != nil {
			return
		}
		if i >= len(s.m.rank) {
			err = errf("Each visits too many entries: %v", k)
			return
		}
		r := -1
		for j, q := range s.ks.keys {
			if s.ks.same(q, k) {
				r = s.ks.rank[j]
				break
			}
		}
		if r != s.m.rank[i] || v != s.m.val[i] {
			err = errf("Each visits %v=%d (rank %d) at position %d, want rank %d value %d", k, v, r, i, s.m.rank[i], s.m.val[i])
		}
		i++
	})
	if err == nil && i != len(s.m.rank) {
		err = errf("Each visits %d entries, want %d", i, len(s.m.rank))
	}
	if err == nil && s.extra != nil {
		err = s.extra()
	}
	return err
}

func (s *osys[K]) Roots() []any { return []any{s.m.root(), s.t} }

func ospace[K any](impl string, ks keyset[K], nv, depth int, mk func(less g.LessFn[K]) omap[K], extra func(t omap[K], n int) error) []mc.Job {
	nops := len(ks.keys) * (nv + 1)
	mksys := func() mc.Sys {
		s := &osys[K]{ks: ks, nv: nv, t: mk(ks.less)}
		if extra != nil {
			s.extra = func() error { return extra(s.t, len(s.m.rank)) }
		}
		return s
	}
	d := &osys[K]{ks: ks, nv: nv}
	return one(&mc.Space{Name: fmt.Sprintf("%s/%s/v%d", impl, ks.name, nv), New: mksys, NOps: nops, OpName: d.opName, Depth: depth})
}

func newAvl[K any](less g.LessFn[K]) omap[K]   { return avl.New[K, int](less) }
func newBtree[K any](less g.LessFn[K]) omap[K] { return btree.New[K, int](less) }

// checkBig compares a large int map with the model, looking up every key and
// every gap.
func checkBig(t omap[int], m *omodel, full bool, around int) error {
	if n := t.Size(); n != len(m.rank) {
		return errf("Size() = %d, want %d", n, len(m.rank))
	}
	probe := func(r int) error {
		gv, gok := t.Get(r)
		wv, wok := m.get(r)
		if gv != wv || gok != wok {
			return errf("Get(%d) = %d,%v, want %d,%v", r, gv, gok, wv, wok)
		}
		return nil
	}
	for d := -3; d <= 3; d++ {
		if err := probe(around + d); err != nil {
			return err
		}
	}
	if !full {
		return nil
	}
	for _, r := range m.rank {
		if err := probe(r); err != nil {
			return err
		}
		if err := probe(r + 1); err != nil {
			return err
		}
	}
	i := 0
	var err error
	t.Each(func(k, v int) {
		if err == nil && (i >= len(m.rank) || m.rank[i] != k || m.val[i] != v) {
			err = errf("Each visits %d=%d at position %d of %d", k, v, i, len(m.rank))
		}
		i++
	})
	if err == nil && i != len(m.rank) {
		err = errf("Each visits %d entries, want %d", i, len(m.rank))
	}
	return err
}

// osweep: for every size n in sizes and every pair of patterns: insert in one
// order, remove in the other, put back, checking after every step.
func osweep(impl string, shards int, sizes []int, every func(n int) int, mk func(less g.LessFn[int]) omap[int], hook func(t *mc.T, tr omap[int], n int)) []mc.Job {
	return mc.Shard(shards, impl+"/sweep", func(cs *mc.Cases) {
		for _, n := range sizes {
			if cs.Stopped() {
				return
			}
			for pi, ins := range patterns {
				for qi, del := range patterns {
					if n > 100 && (pi+qi)%2 == 1 && pi != 0 {
						continue
					}
					cs.Do(name("n=%d insert %s, overwrite, remove %s, put back", n, ins.name, del.name), func(t *mc.T) {
						tr := mk(g.Less[int])
						var m omodel
						ev := every(n)
						c := 0
						step := func(r int, put bool, v int) {
							t.Step()
							c++
							if put {
								tr.Put(r, v)
								m.put(r, v)
							} else {
								tr.Remove(r)
								m.remove(r)
							}
							t.Check(checkBig(tr, &m, c%ev == 0, r))
							if hook != nil {
								hook(t, tr, len(m.rank))
							}
						}
						for _, i := range ins.perm(n) {
							step(4*i, true, i+1)
						}
						t.Check(checkBig(tr, &m, true, 0))
						for i, k := range del.perm(n) {
							if i%3 == 0 {
								step(4*k, true, -k-1) // overwrite
							}
							if i%5 == 0 {
								step(4*k+2, false, 0) // absent
							}
							step(4*k, false, 0)
							if i == n/2 {
								t.Check(checkBig(tr, &m, true, 0))
								for _, k := range ins.perm(n / 4) { // new keys among removed ones
									step(16*k+1, true, k+7)
								}
								t.Check(checkBig(tr, &m, true, 0))
							}
						}
						t.Check(checkBig(tr, &m, true, 0))
						for _, i := range del.perm(n) {
							step(4*i, true, 2*i+1)
						}
						t.Check(checkBig(tr, &m, true, 0))
						t.State(m.root())
					})
				}
			}
		}
	})
}

// opreload: for every size n and insertion pattern, from the tree of n entries
// execute every single operation (insert into every gap, overwrite, remove
// every key), with a complete comparison afterwards.
func opreload(impl string, shards int, sizes []int, gap func(n int) int, mk func(less g.LessFn[int]) omap[int]) []mc.Job {
	return mc.Shard(shards, impl+"/every-single-op", func(cs *mc.Cases) {
		for _, n := range sizes {
			if cs.Stopped() {
				return
			}
			for _, ins := range patterns {
				perm := ins.perm(n)
				st := gap(n)
				for x := -1; x <= 2*n; x += st {
					for kind := 0; kind < 2; kind++ {
						if kind == 1 && (x < 0 || x%2 == 1 || x == 2*n) {
							continue
						}
						x, kind := x, kind
						cs.Do(name("n=%d %s, then %s(%d)", n, ins.name, []string{"Put", "Remove"}[kind], x), func(t *mc.T) {
							tr := mk(g.Less[int])
							var m omodel
							for _, i := range perm {
								tr.Put(2*i, i+1)
							}
							m.rank = gen(n, func(i int) int { return 2 * i })
							m.val = gen(n, func(i int) int { return i + 1 })
							t.Step()
							if kind == 0 {
								tr.Put(x, 9999)
								m.put(x, 9999)
							} else {
								tr.Remove(x)
								m.remove(x)
							}
							t.Check(checkBig(tr, &m, true, x))
						})
					}
				}
			}
		}
	})
}

func rangeInts(a, b, step int) (r []int) {
	for i := a; i <= b; i += step {
		r = append(r, i)
	}
	return
}

func init() {
	reg(&mc.Property{ID: "M03",
		Rule:        "all put/remove histories of any length (to fixpoint) over k keys under natural, reversed, class-based, string, float and []byte orderings; plus every size x insertion/removal pattern up to the stated sizes with every single operation from every such tree; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "orderings are strict weak orders; key alphabets of at most k keys for arbitrary histories, larger trees only through the enumerated families"},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				osweep("avl", 8, append(rangeInts(1, pick(th, 70, 260), 1), pick(th, []int{500, 1000, 3000}, []int{500, 777, 1000, 2000, 5000, 20000})...), func(n int) int { return cond(n < 70, 1, n/8) }, newAvl[int], nil),
				typedKeyed(th, "avl-keys", "avl-values"),
				largeKeyed("avl", largeSizes(th), lAvl),
				avlShapes(pick(th, 8, 11), pick(th, []int{15, 31}, []int{15, 31, 63, 100, 200})),
				opreload("avl", 8, rangeInts(1, pick(th, 60, 150), 1), func(n int) int { return 1 }, newAvl[int]),
				ospace("avl", intKeys(pick(th, 10, 13)), 1, 0, newAvl[int], nil),
				ospace("avl", intKeys(pick(th, 6, 7)), 2, 0, newAvl[int], nil),
				ospace("avl", reverseKeys(pick(th, 8, 10)), 1, 0, newAvl[int], nil),
				ospace("avl", classKeys(pick(th, 5, 6)), 1, 0, newAvl[int], nil),
				ospace("avl", stringKeys(pick(th, 5, 7)), 1, 0, newAvl[string], nil),
				ospace("avl", bytesKeys(pick(th, 5, 7)), 1, 0, newAvl[[]byte], nil),
				ospace("avl", floatKeys(pick(th, 5, 6)), 2, 0, newAvl[float64], nil),
			)
		}})
	reg(&mc.Property{ID: "M04",
		Rule:        "all put/remove histories to fixpoint over k keys; all operation sequences up to a depth from trees filled to around every split boundary; every size x insertion pattern with every single operation; long families crossing several tree levels; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "orderings are strict weak orders; trees beyond the enumerated sizes are not visited"},
		Jobs: func(th bool) []mc.Job {
			big := pick(th, []int{1500, 2047, 2048, 2049, 2112, 4200}, []int{1500, 2047, 2048, 2049, 2112, 4100, 4200, 9000, 70000})
			return jobs(
				osweep("btree", 8, append(append(rangeInts(1, 40, 3), rangeInts(60, pick(th, 140, 330), pick(th, 4, 1))...), big...), func(n int) int { return cond(n < 150, 8, n/3) }, newBtree[int], nil),
				opreload("btree", 8, append(append(rangeInts(28, 36, 1), rangeInts(60, 68, 1)...), rangeInts(92, pick(th, 132, 260), 1)...), func(n int) int { return 1 }, newBtree[int]),
				opreload("btree-3level", 8, rangeInts(2046, 2052, pick(th, 3, 1)), func(n int) int { return pick(th, 151, 31) }, newBtree[int]),
				bpreloadSpaces(th),
				typedKeyed(th, "btree-keys", "btree-values"),
				largeKeyed("btree", largeSizes(th), lBtree),
				ospace("btree", intKeys(pick(th, 8, 10)), 1, 0, newBtree[int], nil),
				ospace("btree", intKeys(pick(th, 4, 5)), 2, 0, newBtree[int], nil),
				ospace("btree", reverseKeys(6), 1, 0, newBtree[int], nil),
				ospace("btree", classKeys(4), 1, 0, newBtree[int], nil),
				ospace("btree", stringKeys(6), 1, 0, newBtree[string], nil),
				ospace("btree", bytesKeys(5), 1, 0, newBtree[[]byte], nil),
			)
		}})
	reg(&mc.Property{ID: "M05",
		Rule:        "all put/remove histories to fixpoint over k keys and every size x insertion/removal pattern; sparsest (Fibonacci) shapes of every height with every single removal and insertion; after every step the reported height, the longest search path and the number of comparisons are checked",
		Assumptions: []string{stdAssume, "comparison bound used: 10*(maximal AVL height of n entries + 1) for AVL, 256*(1+log32(n+1)) + 64 for B-tree, deliberately generous"},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				balanceSweep("avl", 8, append(rangeInts(1, pick(th, 64, 200), 1), pick(th, []int{300, 1000, 5000}, []int{300, 1000, 5000, 30000, 100000})...), newAvlBal),
				balanceSweep("interval", 8, append(rangeInts(1, pick(th, 64, 200), 1), pick(th, []int{300, 1000, 5000}, []int{300, 1000, 5000, 30000})...), newIntervalBal),
				btreeCompareSweep(4, append(rangeInts(10, 200, 10), pick(th, []int{2100, 10000}, []int{2100, 10000, 100000})...)),
				ospace("avl-height", intKeys(pick(th, 10, 13)), 1, 0, newAvl[int], func(t omap[int], n int) error {
					tr := t.(*avl.Tree[int, int])
					return heightOK(tr.Height(), n, tr)
				}),
				intervalHeightSpace(pick(th, 10, 12)),
				sparseSweep("avl", 8, pick(th, 12, 15), newAvlBal),
				sparseSweep("interval", 8, pick(th, 12, 15), newIntervalBal),
			)
		}})
}

// bpreloadSpaces: B-trees filled to around a split boundary, then every
// operation sequence up to a depth over keys around the boundaries of nodes.
func bpreloadSpaces(th bool) (js []mc.Job) {
	for _, n := range pick(th, []int{62, 63, 94, 95, 96}, []int{61, 62, 63, 64, 93, 94, 95, 96, 97, 127, 128}) {
		for pi, p := range patterns[:pick(th, 2, 3)] {
			n, p := n, p
			keys := []int{-1, 2 * 15, 2*31 + 1, 2 * 32, 2*33 - 1, 2*n - 2, 2*n - 1}
			if pi == 1 {
				keys = []int{-1, 0, 2*(n-32) - 1, 2 * (n - 32), 2*(n-31) - 1, 2*n - 1}
			}
			ks := keyset[int]{name: fmt.Sprintf("preload%d-%s", n, p.name), keys: keys}
			js = append(js, &mc.Space{
				Name: "btree/" + ks.name, NOps: 2 * len(keys), Depth: pick(th, 3, 4),
				OpName: func(op int) string {
					return fmt.Sprintf("%s(%d)", []string{"Put", "Remove"}[op%2], keys[op/2])
				},
				New: func() mc.Sys {
					s := &bpre{t: newBtree[int](g.Less[int]), keys: keys}
					for _, i := range p.perm(n) {
						s.t.Put(2*i, i+1)
						s.m.put(2*i, i+1)
					}
					return s
				},
			})
		}
	}
	return
}

type bpre struct {
	t    omap[int]
	m    omodel
	keys []int
}

func (s *bpre) Apply(op int) (bool, error) {
	k := s.keys[op/2]
	if op%2 == 0 {
		s.t.Put(k, 1000+k)
		s.m.put(k, 1000+k)
	} else {
		s.t.Remove(k)
		s.m.remove(k)
	}
	return true, nil
}
func (s *bpre) Observe() error { return checkBig(s.t, &s.m, true, s.keys[1]) }
func (s *bpre) Roots() []any   { return []any{s.m.root(), s.t} }

// ---- balance ----

// minNodes(h) is the least number of entries of an AVL tree of height h.
func minNodes(h int) int {
	a, b := 0, 1 // heights 0, 1
	for i := 0; i < h; i++ {
		a, b = b, 1+a+b
		if a > 1<<40 {
			break
		}
	}
	return a
}

func maxAvlHeight(n int) int {
	h := 0
	for minNodes(h+1) <= n {
		h++
	}
	return h
}

func heightOK(h, n int, tree any) error {
	lo := bits.Len(uint(n)) // ceil(log2(n+1))
	hi := maxAvlHeight(n)
	if h < lo || h > hi {
		return errf("Height() = %d with %d entries, must be within [%d,%d]", h, n, lo, hi)
	}
	if tree != nil {
		if d, ok := searchDepth(tree, n); ok && d > hi {
			return errf("longest search path is %d with %d entries, must be at most %d", d, n, hi)
		}
	}
	return nil
}

// searchDepth measures the longest path in the object graph of a binary search
// tree. It only answers if what it finds is a proper tree with exactly n nodes
// of one struct type that has exactly two pointers to itself; for any other
// representation it abstains.
func searchDepth(tree any, n int) (int, bool) {
	v := reflect.ValueOf(tree).Elem()
	if v.Kind() != reflect.Struct {
		return 0, false
	}
	var root reflect.Value
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Pointer && f.Type().Elem().Kind() == reflect.Struct {
			if root.IsValid() {
				return 0, false
			}
			root = f
		}
	}
	if !root.IsValid() {
		return 0, false
	}
	var kids []int
	nt := root.Type().Elem()
	for i := 0; i < nt.NumField(); i++ {
		if nt.Field(i).Type == root.Type() {
			kids = append(kids, i)
		}
	}
	if len(kids) != 2 {
		return 0, false
	}
	count := 0
	var depth func(p reflect.Value) int
	depth = func(p reflect.Value) int {
		if p.IsNil() || count > n {
			return 0
		}
		count++
		l, r := depth(p.Elem().Field(kids[0])), depth(p.Elem().Field(kids[1]))
		if r > l {
			l = r
		}
		return l + 1
	}
	d := depth(root)
	return d, count == n
}

type balanced interface {
	put(k int)
	remove(k int)
	get(k int)
	height() int
	calls() int // comparisons since the last call; -1 if not measurable
	tree() any
}

type avlBal struct {
	t *avl.Tree[int, int]
	n int
}

func newAvlBal() balanced {
	b := &avlBal{}
	b.t = avl.New[int, int](func(x, y int) bool { b.n++; return x < y })
	return b
}
func (b *avlBal) put(k int)    { b.t.Put(k, k) }
func (b *avlBal) remove(k int) { b.t.Remove(k) }
func (b *avlBal) get(k int)    { b.t.Get(k) }
func (b *avlBal) height() int  { return b.t.Height() }
func (b *avlBal) calls() int   { n := b.n; b.n = 0; return n }
func (b *avlBal) tree() any    { return b.t }

func balanceSweep(impl string, shards int, sizes []int, mk func() balanced) []mc.Job {
	return mc.Shard(shards, impl+"/balance-sweep", func(cs *mc.Cases) {
		for _, n := range sizes {
			if cs.Stopped() {
				return
			}
			for pi, ins := range patterns {
				for qi, del := range patterns {
					if n > 2000 && (pi+qi)%3 != 0 {
						continue
					}
					cs.Do(name("n=%d insert %s, remove %s", n, ins.name, del.name), func(t *mc.T) {
						b := mk()
						c := 0
						check := func(k, sz, before int) {
							t.Step()
							hi := maxAvlHeight(max(sz, before))
							if got := b.calls(); got > 10*(hi+1) {
								t.Failf("one operation on key %d compared %d times with %d entries", k, got, sz)
							}
							c++
							var tree any
							if n <= 300 && sz%5 == 0 || c%(n/3+1) == 0 {
								tree = b.tree()
							}
							t.Check(heightOK(b.height(), sz, tree))
							b.get(k)
							if got := b.calls(); got > 10*(hi+1) {
								t.Failf("Get(%d) compared %d times with %d entries", k, got, sz)
							}
						}
						for i, k := range ins.perm(n) {
							b.put(k)
							check(k, i+1, i)
						}
						for i, k := range del.perm(n) {
							b.remove(k)
							check(k, n-1-i, n-i)
							if i == n/2 { // refill half, drain again
								for j, k := range ins.perm(n) {
									if k >= n/2 {
										continue
									}
									b.put(2*n + k)
									_ = j
									b.calls()
									t.Step()
								}
								t.Check(heightOK(b.height(), n-1-i+n/2, b.tree()))
								for _, k := range ins.perm(n) {
									if k < n/2 {
										b.remove(2*n + k)
									}
								}
								b.calls()
								t.Check(heightOK(b.height(), n-1-i, b.tree()))
							}
						}
						t.State(n, ins.name, del.name)
					})
				}
			}
		}
	})
}

func btreeCompareSweep(shards int, sizes []int) []mc.Job {
	return mc.Shard(shards, "btree/comparison-sweep", func(cs *mc.Cases) {
		for _, n := range sizes {
			for _, ins := range patterns {
				cs.Do(name("n=%d insert %s", n, ins.name), func(t *mc.T) {
					calls := 0
					tr := btree.New[int, int](func(a, b int) bool { calls++; return a < b })
					bound := int(256*(1+math.Log(float64(n+1))/math.Log(32))) + 64
					do := func(what string, k int, f func()) {
						t.Step()
						calls = 0
						f()
						if calls > bound {
							t.Failf("%s(%d) compared %d times with about %d entries (bound %d)", what, k, calls, n, bound)
						}
					}
					for _, k := range ins.perm(n) {
						do("Put", k, func() { tr.Put(k, k) })
					}
					for k := -1; k <= n; k++ {
						do("Get", k, func() { tr.Get(k) })
					}
					for _, k := range ins.perm(n) {
						if k%2 == 0 {
							do("Remove", k, func() { tr.Remove(k) })
						}
					}
					for _, k := range ins.perm(n) {
						do("Put", k, func() { tr.Put(k, k) })
					}
					t.State(n, ins.name)
				})
			}
		}
	})
}

var _ = strings.Join

// sparseShape lists the keys of a tree that is as sparse as the lean allows,
// level by level: a node of height h has one child of height h-1 and one of
// height h-2 (h-3 for nodes of height cut or more). With cut > h this is an
// AVL tree of the fewest possible entries for its height; with a smaller cut
// the sequence asks for rebalancing at nodes of height cut and above only.
// Keys are multiples of 2.
func sparseShape(h, cut, lean int) []int {
	type nd struct{ h, turn int }
	var size func(h int) int
	memo := map[int]int{}
	low := func(h int) int {
		if h >= cut {
			return h - 3
		}
		return h - 2
	}
	size = func(h int) int {
		if h <= 0 {
			return 0
		}
		if n, ok := memo[h]; ok {
			return n
		}
		n := 1 + size(h-1) + size(low(h))
		memo[h] = n
		return n
	}
	type item struct{ h, base, dir int }
	queue := []item{{h, 0, lean}}
	var keys []int
	for len(queue) > 0 {
		it := queue[0]
		queue = queue[1:]
		if it.h <= 0 {
			continue
		}
		l, r := it.h-1, low(it.h)
		if it.dir%2 == 1 {
			l, r = r, l
		}
		next := it.dir
		if lean >= 2 { // alternate
			next++
		}
		keys = append(keys, 2*(it.base+size(l)))
		queue = append(queue, item{l, it.base, next}, item{r, it.base + size(l) + 1, next})
	}
	return keys
}

// sparseSweep builds sparse trees and, from each, performs every single
// removal and every single insertion, and drains from the shallow end.
func sparseSweep(impl string, shards int, maxH int, mk func() balanced) []mc.Job {
	return mc.Shard(shards, impl+"/sparse-trees", func(cs *mc.Cases) {
		for h := 3; h <= maxH; h++ {
			for cut := 3; cut <= h+1; cut++ {
				for lean := 0; lean < 4; lean++ {
					if cs.Stopped() {
						return
					}
					keys := sparseShape(h, cut, lean)
					build := func(t *mc.T) (balanced, int) {
						b := mk()
						for _, k := range keys {
							b.put(k)
						}
						return b, len(keys)
					}
					cs.Do(name("shape height=%d cut=%d lean=%d, %d entries", h, cut, lean, len(keys)), func(t *mc.T) {
						b := mk()
						for i, k := range keys {
							t.Step()
							b.put(k)
							t.Check(heightOK(b.height(), i+1, nil))
						}
						n := len(keys)
						t.Check(heightOK(b.height(), n, b.tree()))
						// drain from either end
						for i := 0; i < n; i++ {
							t.Step()
							if lean%2 == 0 {
								b.remove(2 * (n - 1 - i))
							} else {
								b.remove(2 * i)
							}
							t.Check(heightOK(b.height(), n-1-i, nil))
						}
						t.State("drain", h, cut, lean)
					})
					if cut <= h && cut > 3 && cut < h-1 {
						continue // the single steps start from proper sparse trees
					}
					cs.Do(name("shape height=%d cut=%d lean=%d, %d entries, every removal and insertion", h, cut, lean, len(keys)), func(t *mc.T) {
						stride := 1 + len(keys)/400
						for k := -1; k <= 2*len(keys); k += stride {
							b, n := build(t)
							t.Step()
							if k%2 == 0 && k < 2*n {
								b.remove(k)
								n--
							} else {
								b.put(k)
								n++
							}
							t.Check(heightOK(b.height(), n, b.tree()))
							// a second step next to it
							for _, d := range []int{-2, 2} {
								if j := k + d; k%2 == 0 && j >= 0 && j < 2*len(keys) && k < 2*len(keys) {
									t.Step()
									b.remove(j)
									n--
									t.Check(heightOK(b.height(), n, nil))
								}
							}
							t.State(h, cut, lean, k)
						}
					})
				}
			}
		}
	})
}
