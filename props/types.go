package props

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	"verif/mc"
)

// The containers are generic: what they guarantee does not depend on the type
// of the elements. Here every container is run through all short histories with
// elements of many types (pointers, interfaces, functions, slices, structs that
// cannot be compared, types of size zero and large ones), the zero value of the
// type always among the elements.

// typedIDs lists the properties whose checks include these histories.
const typedIDs = "M01 M02 M03 M04 S01 S02 S03 T01 T02 I01 I02 R01 R02 R03 R04 L01 U01 U02 Q01 Q02 V01 H01 C01 C02 B01 X01"

// kind is a type with up to four values, told apart by id. vals[0] is the zero
// value; id returns -1 for a foreign value.
type kind[V any] struct {
	name string
	vals []V
	id   func(V) int
}

// ckind is a type that can be compared with ==.
type ckind[V comparable] struct{ kind[V] }

// typed is a kind of any type.
type typed interface {
	kindName() string
	n() int
	keyed(container string) *tkeyed // nil: not for this type
	seq(container string) *tseq
	multi(variant string) *tmulti
	algebra(back string) *tsets
}

func (k kind[V]) kindName() string { return k.name }
func (k kind[V]) n() int           { return len(k.vals) }
func (k kind[V]) ids(vs []V) []int { return gen(len(vs), func(i int) int { return k.id(vs[i]) }) }
func (k kind[V]) less(a, b V) bool { return k.id(a) < k.id(b) }
func (k kind[V]) same(a, b V) bool { return k.id(a) == k.id(b) }
func (k kind[V]) hash(a V) uint64  { return uint64(k.id(a)) * 5 }

func identKind() kind[int] {
	return kind[int]{"int", []int{0, 1, 2}, func(v int) int { return v }}
}

// byEq makes a kind of a comparable type.
func byEq[V comparable](nm string, vals ...V) ckind[V] {
	return ckind[V]{kind[V]{nm, vals, func(v V) int {
		for i, w := range vals {
			if v == w {
				return i
			}
		}
		return -1
	}}}
}

type bigElem [40]int
type label string
type mixed struct {
	s []int
	f func() int
	e any
}
type padded struct {
	A int8
	B int64
	C string
}

func kinds() []typed {
	x, y := 1, 2
	e1, e2 := errors.New("e1"), fmt.Errorf("e2")
	c1, c2 := make(chan int), make(chan int, 1)
	inf := math.Inf(1)
	long := strings.Repeat("abcdefgh", 40)
	return []typed{
		byEq("string", "", "\x00", "x"),
		byEq("long string", "", long+"a"+long, long+"b"+long),
		byEq[label]("named string", "", "a", "aa"),
		byEq("bool", false, true),
		byEq[uint8]("uint8", 0, 255, 128),
		byEq[int64]("int64", 0, math.MinInt64, math.MaxInt64),
		byEq("int with equal low halves", 0, 1<<32, 1<<48),
		byEq("float", 0, inf, -inf),
		byEq("pointer", nil, &x, &y),
		byEq[any]("interface", nil, 0, "", (*int)(nil)),
		byEq[error]("error", nil, e1, e2),
		byEq("channel", nil, c1, c2),
		byEq("array", bigElem{}, bigElem{39: 1}, bigElem{1}),
		byEq("struct", padded{}, padded{A: 1}, padded{C: "c"}),
		byEq("empty struct", struct{}{}),
		kind[[]int]{"slice", [][]int{nil, {}, {7}}, func(v []int) int {
			if v == nil {
				return 0
			}
			return 1 + len(v)
		}},
		kind[func() int]{"function", []func() int{nil, func() int { return 1 }, func() int { return 2 }}, func(f func() int) int {
			if f == nil {
				return 0
			}
			return f()
		}},
		kind[map[int]int]{"map", []map[int]int{nil, {}, {1: 1}}, func(v map[int]int) int {
			if v == nil {
				return 0
			}
			return 1 + len(v)
		}},
		kind[mixed]{"uncomparable struct", []mixed{{}, {s: []int{1}}, {s: []int{1, 2}, e: []int{}, f: func() int { return 0 }}}, func(v mixed) int {
			if (v.e != nil) != (len(v.s) == 2) || (v.f != nil) != (len(v.s) == 2) {
				return -1
			}
			return len(v.s)
		}},
		kind[any]{"interface holding uncomparable values", []any{nil, []int{1}, map[int]int{}, func() {}}, func(v any) int {
			switch v.(type) {
			case nil:
				return 0
			case []int:
				return 1
			case map[int]int:
				return 2
			case func():
				return 3
			}
			return -1
		}},
		kind[float64]{"float with NaN and -0", []float64{0, math.NaN(), math.Copysign(0, -1)}, func(v float64) int {
			switch {
			case v != v:
				return 1
			case v == 0 && math.Signbit(v):
				return 2
			case v == 0:
				return 0
			}
			return -1
		}},
	}
}

// ---- maps, sets, caches: keys and values by id ----

type tkeyed struct {
	put    func(k, v int)
	del    func(k int)
	get    func(k int) (v int, ok bool)
	size   func() int
	each   func(f func(k, v int))
	clear  func()
	cp     func() *tkeyed
	sorted bool // iteration ascending
	nk, nv int
	more   func(val []int) error  // val[k] is -1 for an absent key
	after  func(val []int, k int) // what else putting k changes
}

func (c *tkeyed) check(t *mc.T, what string, val []int) {
	t.Step()
	held := 0
	for k, v := range val {
		if v >= 0 {
			held++
		}
		// an absent key gives the zero value
		if got, ok := c.get(k); ok != (v >= 0) || got != max(v, 0) {
			t.Failf("%s: lookup of key %d gives value %d,%v, want %d (-1 = absent)", what, k, got, ok, v)
		}
	}
	if n := c.size(); n != held {
		t.Failf("%s: Size() = %d, want %d", what, n, held)
	}
	seen, last := 0, -1
	c.each(func(k, v int) {
		if k < 0 || k >= len(val) || val[k] < 0 || val[k] != v || seen>>k&1 == 1 {
			t.Failf("%s: iteration visits key %d with value %d", what, k, v)
		}
		if c.sorted && k < last {
			t.Failf("%s: iteration visits key %d after key %d", what, k, last)
		}
		seen |= 1 << k
		last = k
		held--
	})
	if held != 0 {
		t.Failf("%s: iteration misses %d entries", what, held)
	}
	if c.more != nil {
		if err := c.more(val); err != nil {
			t.Failf("%s: %v", what, err)
		}
	}
}

func removeOne(s []int, at int) []int {
	return append(append(make([]int, 0, len(s)), s[:at]...), s[at+1:]...)
}

// scripts runs every operation sequence of the given length.
func scripts(cs *mc.Cases, nm string, nops, depth int, run func(t *mc.T, ops []int)) {
	heads := min(depth, 2)
	tuples(heads, nops, func(h []int) {
		head := append([]int{}, h...)
		cs.Do(name("%s: every history of %d operations beginning %v", nm, depth, head), func(t *mc.T) {
			tuples(depth-heads, nops, func(rest []int) {
				t.Step()
				run(t, append(append([]int{}, head...), rest...))
				t.Add("scripts", 1)
			})
		})
	})
}

func typedKeyed(th bool, containers ...string) []mc.Job {
	var js []mc.Job
	for _, ct := range containers {
		js = append(js, mc.Shard(4, ct+"/element-types", func(cs *mc.Cases) {
			for _, k := range kinds() {
				c := k.keyed(ct)
				if c == nil {
					continue
				}
				nput := c.nk * c.nv
				nops := nput + c.nk
				clearOp := -1
				if c.clear != nil {
					clearOp = nops
					nops++
				}
				if c.cp != nil {
					nops++
				}
				opName := func(op int) string {
					switch {
					case op < nput:
						return fmt.Sprintf("put(key %d, value %d)", op/c.nv, op%c.nv)
					case op < nput+c.nk:
						return fmt.Sprintf("remove(key %d)", op-nput)
					case op == clearOp:
						return "clear"
					}
					return "copy"
				}
				depth := pick(th, 3, 4)
				for nops > 1 && math.Pow(float64(nops), float64(depth+1)) < pick(th, 3e3, 1e5) {
					depth++
				}
				scripts(cs, ct+" of "+k.kindName(), nops, depth, func(t *mc.T, ops []int) {
					c := k.keyed(ct)
					val := gen(c.nk, func(int) int { return -1 })
					what := ""
					var old []*tkeyed
					var olds [][]int
					c.check(t, "empty", val)
					for _, op := range ops {
						what += opName(op) + "; "
						switch {
						case op < nput:
							c.put(op/c.nv, op%c.nv)
							val[op/c.nv] = op % c.nv
							if c.after != nil {
								c.after(val, op/c.nv)
							}
						case op < nput+c.nk:
							c.del(op - nput)
							val[op-nput] = -1
						case op == clearOp:
							c.clear()
							for i := range val {
								val[i] = -1
							}
						default: // go on with the copy
							old, olds = append(old, c), append(olds, append([]int{}, val...))
							c = c.cp()
						}
						c.check(t, what, val)
					}
					for i, o := range old {
						o.check(t, fmt.Sprintf("%sthe source of copy %d", what, i+1), olds[i])
					}
				})
			}
		})...)
	}
	return js
}

// mapLike adapts a map-like container to ids.
func mapLike[K, V any](kk kind[K], vk kind[V], put func(K, V), del func(K), get func(K) (V, bool), size func() int, each func(func(K, V))) *tkeyed {
	return &tkeyed{
		put:  func(k, v int) { put(kk.vals[k], vk.vals[v]) },
		del:  func(k int) { del(kk.vals[k]) },
		get:  func(k int) (int, bool) { v, ok := get(kk.vals[k]); return vk.id(v), ok },
		size: size,
		each: func(f func(k, v int)) { each(func(k K, v V) { f(kk.id(k), vk.id(v)) }) },
		nk:   len(kk.vals), nv: len(vk.vals),
	}
}

func setLike[K any](kk kind[K], put, del func(K), has func(K) bool, size func() int, each func(func(K))) *tkeyed {
	return &tkeyed{
		put:  func(k, v int) { put(kk.vals[k]) },
		del:  func(k int) { del(kk.vals[k]) },
		get:  func(k int) (int, bool) { return 0, has(kk.vals[k]) },
		size: size,
		each: func(f func(k, v int)) { each(func(k K) { f(kk.id(k), 0) }) },
		nk:   len(kk.vals), nv: 1,
	}
}

func tHashmap[K, V any](kk kind[K], vk kind[V], m *hashmap.Map[K, V]) *tkeyed {
	c := mapLike(kk, vk, m.Put, m.Remove, m.Get, m.Size, m.Each)
	c.clear = m.Clear
	c.cp = func() *tkeyed { return tHashmap(kk, vk, m.Copy()) }
	return c
}

func tHashset[K any](kk kind[K], m *hashset.Set[K]) *tkeyed {
	c := setLike(kk, m.Put, m.Remove, m.Has, m.Size, m.Each)
	c.clear = m.Clear
	c.cp = func() *tkeyed { return tHashset(kk, m.Copy()) }
	return c
}

func tSet[K comparable](kk kind[K], s set.Set[K]) *tkeyed {
	c := setLike(kk, s.Put, s.Remove, s.Has, s.Size, s.Each)
	c.clear = s.Clear
	c.cp = func() *tkeyed { return tSet(kk, s.Clone()) }
	return c
}

func tMapset[K comparable](kk kind[K], s mapset.Set[K]) *tkeyed {
	c := setLike(kk, s.Put, s.Remove, s.Has, s.Size, s.Each)
	c.clear = s.Clear
	return c
}

func tOrdered[K, V any](kk kind[K], vk kind[V], m interface {
	Put(K, V)
	Get(K) (V, bool)
	Remove(K)
	Each(func(K, V))
	Size() int
}) *tkeyed {
	c := mapLike(kk, vk, m.Put, m.Remove, m.Get, m.Size, m.Each)
	c.sorted = true
	return c
}

func tTrie[V any](vk kind[V]) *tkeyed {
	keys := byEq("string", "a", "ab", "b").kind
	tr := trie.New[V]()
	c := mapLike(keys, vk, tr.Put, tr.Remove, tr.Get, tr.Size, nil)
	c.sorted = true
	c.each = func(f func(k, v int)) {
		for _, s := range tr.Keys() {
			v, _ := tr.Get(s)
			f(keys.id(s), vk.id(v))
		}
	}
	c.more = func(val []int) error {
		for k, v := range val {
			if tr.Contains(keys.vals[k]) != (v >= 0) {
				return errf("Contains(%q) is %v", keys.vals[k], v < 0)
			}
		}
		want := ""
		for _, k := range []int{1, 0} {
			if val[k] >= 0 && want == "" {
				want = keys.vals[k]
			}
		}
		if p := tr.LongestPrefix("abc"); p != want {
			return errf("LongestPrefix(\"abc\") = %q, want %q", p, want)
		}
		if got, want := len(tr.KeysWithPrefix("a")), cond(val[0] >= 0, 1, 0)+cond(val[1] >= 0, 1, 0); got != want {
			return errf("KeysWithPrefix(\"a\") lists %d keys, want %d", got, want)
		}
		return nil
	}
	return c
}

// tInterval: keys are start positions; put through Put or, where nothing is
// stored, Add.
func tInterval[V any](vk kind[V]) *tkeyed {
	tr := interval.New[int, V]()
	var err error
	model := map[int]int{}
	answer := func(what string, k int, kv interval.KV[int, V], ok bool) {
		was, held := model[k]
		if ok != held || vk.id(kv.Val) != was || held && (kv.Low != 3*k || kv.High != 3*k+4) {
			err = errf("%s of [%d,%d) returns {%d %d value %d},%v, want value %d,%v", what, 3*k, 3*k+4, kv.Low, kv.High, vk.id(kv.Val), ok, was, held)
		}
	}
	return &tkeyed{
		put: func(k, v int) {
			kv, ok := tr.Add(3*k, 3*k+4, vk.vals[v])
			answer("Add", k, kv, ok)
			if !ok {
				model[k] = v
			}
			kv, ok = tr.Put(3*k, 3*k+4, vk.vals[v])
			answer("Put", k, kv, ok)
			model[k] = v
		},
		del: func(k int) {
			kv, ok := tr.Remove(3 * k)
			answer("Remove", k, kv, ok)
			delete(model, k)
		},
		get:    func(k int) (int, bool) { kv, ok := tr.Get(3 * k); return vk.id(kv.Val), ok },
		size:   tr.Size,
		each:   func(f func(k, v int)) { tr.Each(func(lo, hi int, v V) { f(lo/3, vk.id(v)) }) },
		sorted: true,
		nk:     3, nv: len(vk.vals),
		more: func(val []int) error {
			if err != nil {
				return err
			}
			for q := -1; q < 12; q++ {
				var want []int
				for k, v := range val {
					if v >= 0 && 3*k < q+1 && 3*k+4 > q {
						want = append(want, k, v)
					}
				}
				var got []int
				for _, kv := range tr.Overlaps(q, q+1) {
					got = append(got, kv.Low/3, vk.id(kv.Val))
				}
				if !eqSlice(got, want) {
					return errf("Overlaps(%d,%d): starts and values %v, want %v", q, q+1, got, want)
				}
			}
			return nil
		},
	}
}

// tCache checks the order and the evictions as well.
func tCache[K comparable, V any](kk kind[K], vk kind[V], capacity int) *tkeyed {
	ca := cache.New[K, V](capacity)
	var order, evicted, want []int // order: most recent first
	forget := func(k int) bool {
		for i, x := range order {
			if x == k {
				order = removeOne(order, i)
				return true
			}
		}
		return false
	}
	ca.SetEvictCallback(func(k K, v V) { evicted = append(evicted, kk.id(k), vk.id(v)) })
	c := mapLike(kk, vk, ca.Put, ca.Remove, ca.Get, ca.Size, ca.Each)
	get, del := c.get, c.del
	c.get = func(k int) (int, bool) { // lookups of the harness are uses as well
		if forget(k) {
			order = insertAt(order, 0, []int{k})
		}
		return get(k)
	}
	c.del = func(k int) {
		del(k)
		forget(k)
	}
	c.after = func(val []int, k int) {
		forget(k)
		order = insertAt(order, 0, []int{k})
		if len(order) > capacity {
			x := order[capacity]
			want = append(want, x, val[x])
			val[x] = -1
			order = order[:capacity]
		}
	}
	c.more = func([]int) error {
		var got []int
		ca.Each(func(k K, v V) { got = append(got, kk.id(k)) })
		if !eqSlice(got, order) {
			return errf("listed %v, want %v", got, order)
		}
		if !eqSlice(evicted, want) {
			return errf("evicted (keys and values) %v, want %v", evicted, want)
		}
		return nil
	}
	return c
}

func tBimap[K, V comparable](kk kind[K], vk kind[V], b bimap.Bimap[K, V]) *tkeyed {
	c := mapLike(kk, vk, b.Add, b.RemoveForward, b.GetForward, b.Len, b.Each)
	c.clear = b.Clear
	del := c.del
	c.del = func(k int) {
		if v, ok := b.GetForward(kk.vals[k]); ok && k%2 == 1 {
			b.RemoveReverse(v)
		} else {
			del(k)
		}
	}
	c.cp = func() *tkeyed { return tBimap(kk, vk, b.Copy()) }
	c.after = func(val []int, k int) {
		for q, v := range val {
			if q != k && v == val[k] {
				val[q] = -1
			}
		}
	}
	c.more = func(val []int) error {
		for k, v := range val {
			if b.ContainsForward(kk.vals[k]) != (v >= 0) {
				return errf("ContainsForward(key %d) is %v", k, v < 0)
			}
		}
		for v := range vk.vals {
			want, held := 0, false
			for k, w := range val {
				if w == v {
					want, held = k, true
				}
			}
			k, ok := b.GetReverse(vk.vals[v])
			if ok != held || kk.id(k) != want || b.ContainsReverse(vk.vals[v]) != held {
				return errf("GetReverse(value %d) gives key %d,%v, want %d,%v", v, kk.id(k), ok, want, held)
			}
		}
		return nil
	}
	return c
}

func (vk kind[V]) keyed(ct string) *tkeyed {
	ints := identKind()
	switch ct {
	case "hashmap-keys":
		return tHashmap(vk, ints, hashmap.New[V, int](2, vk.same, vk.hash))
	case "hashmap-values":
		return tHashmap(ints, vk, hashmap.New[int, V](2, ints.same, ints.hash))
	case "hashset":
		return tHashset(vk, hashset.New[V](2, vk.same, vk.hash))
	case "avl-keys":
		return tOrdered(vk, ints, avl.New[V, int](vk.less))
	case "avl-values":
		return tOrdered(ints, vk, avl.New[int, V](ints.less))
	case "btree-keys":
		return tOrdered(vk, ints, btree.New[V, int](vk.less))
	case "btree-values":
		return tOrdered(ints, vk, btree.New[int, V](ints.less))
	case "trie":
		return tTrie(vk)
	case "interval":
		return tInterval(vk)
	case "cache-values":
		return tCache(ints, vk, 3)
	case "cache-values-full":
		return tCache(ints, vk, 2)
	}
	return nil
}

func (vk ckind[V]) keyed(ct string) *tkeyed {
	ints := identKind()
	switch ct {
	case "mapset":
		return tMapset(vk.kind, mapset.New[V]())
	case "set-map":
		return tSet(vk.kind, set.NewMapset[V]())
	case "set-hash":
		return tSet(vk.kind, set.NewHashset[V](2, vk.same, vk.hash))
	case "cache-keys":
		return tCache(vk.kind, ints, 4)
	case "cache-keys-full":
		return tCache(vk.kind, ints, 2)
	case "bimap-keys":
		return tBimap(vk.kind, ints, bimap.Bimap[V, int]{})
	case "bimap-values":
		return tBimap(ints, vk.kind, bimap.Bimap[int, V]{})
	}
	return vk.kind.keyed(ct)
}

// ---- sequences ----

type tseq struct {
	pushFront, pushBack func(v int)
	popFront, popBack   func() (v int, ok bool) // ok: the container said there was one
	insert              func(at, v int)
	remove              func(at int)
	elems               func() []int
	more                func(m []int) error
	cp                  func() *tseq
	heap                bool // elems are compared as a multiset, popFront yields the least
	panicky             bool // popping when empty is not tried
}

func typedSeq(th bool, containers ...string) []mc.Job {
	var js []mc.Job
	for _, ct := range containers {
		js = append(js, mc.Shard(4, ct+"/element-types", func(cs *mc.Cases) {
			for _, k := range kinds() {
				c := k.seq(ct)
				if c == nil {
					continue
				}
				type op struct {
					name string
					do   func(c *tseq, m []int) (*tseq, []int, error)
				}
				var ops []op
				for v := 0; v < k.n(); v++ {
					if c.pushFront != nil {
						ops = append(ops, op{fmt.Sprintf("push front value %d", v), func(c *tseq, m []int) (*tseq, []int, error) {
							c.pushFront(v)
							return c, insertAt(m, 0, []int{v}), nil
						}})
					}
					if c.pushBack != nil {
						ops = append(ops, op{fmt.Sprintf("push value %d", v), func(c *tseq, m []int) (*tseq, []int, error) {
							c.pushBack(v)
							return c, insertAt(m, len(m), []int{v}), nil
						}})
					}
					if c.insert != nil {
						ops = append(ops, op{fmt.Sprintf("insert value %d in the middle", v), func(c *tseq, m []int) (*tseq, []int, error) {
							c.insert(len(m)/2, v)
							return c, insertAt(m, len(m)/2, []int{v}), nil
						}})
					}
				}
				if c.remove != nil {
					ops = append(ops, op{"remove in the middle", func(c *tseq, m []int) (*tseq, []int, error) {
						if len(m) == 0 {
							return c, m, nil
						}
						c.remove(len(m) / 2)
						return c, removeOne(m, len(m)/2), nil
					}})
				}
				pop := func(nm string, f func(c *tseq) (int, bool), at func(m []int) int) op {
					return op{nm, func(c *tseq, m []int) (*tseq, []int, error) {
						if len(m) == 0 && c.panicky {
							return c, m, nil
						}
						v, ok := f(c)
						if len(m) == 0 {
							if v != 0 || ok {
								return nil, nil, errf("%s of an empty container gives value %d,%v", nm, v, ok)
							}
							return c, m, nil
						}
						i := at(m)
						if v != m[i] || !ok {
							return nil, nil, errf("%s gives value %d,%v, want %d", nm, v, ok, m[i])
						}
						return c, removeOne(m, i), nil
					}}
				}
				if c.popFront != nil {
					ops = append(ops, pop("pop front", func(c *tseq) (int, bool) { return c.popFront() }, func(m []int) int {
						b := 0
						for i := range m {
							if c.heap && m[i] < m[b] {
								b = i
							}
						}
						return b
					}))
				}
				if c.popBack != nil {
					ops = append(ops, pop("pop", func(c *tseq) (int, bool) { return c.popBack() }, func(m []int) int { return len(m) - 1 }))
				}
				var olds []*tseq
				var was [][]int
				if c.cp != nil {
					ops = append(ops, op{"copy", func(c *tseq, m []int) (*tseq, []int, error) {
						olds, was = append(olds, c), append(was, append([]int{}, m...))
						return c.cp(), m, nil
					}})
				}
				check := func(t *mc.T, what string, c *tseq, m []int) {
					got, want := c.elems(), append([]int{}, m...)
					if c.heap {
						sort.Ints(got)
						sort.Ints(want)
					}
					if !eqSlice(got, want) {
						t.Failf("%s: holds %v, want %v", what, got, want)
					}
					if c.more != nil {
						if err := c.more(m); err != nil {
							t.Failf("%s: %v", what, err)
						}
					}
				}
				depth := pick(th, 3, 4)
				for math.Pow(float64(len(ops)), float64(depth+1)) < pick(th, 5e3, 2e5) {
					depth++
				}
				scripts(cs, ct+" of "+k.kindName(), len(ops), depth, func(t *mc.T, seq []int) {
					c := k.seq(ct)
					m := []int{}
					olds, was = nil, nil
					check(t, "empty", c, m)
					what := ""
					for _, o := range seq {
						what += ops[o].name + "; "
						var err error
						if c, m, err = ops[o].do(c, m); err != nil {
							t.Failf("%s%v", what, err)
						}
						check(t, what, c, m)
					}
					for i, o := range olds {
						check(t, fmt.Sprintf("%sthe source of copy %d", what, i+1), o, was[i])
					}
				})
			}
		})...)
	}
	return js
}

func tQueue[V any](k kind[V], q *queue.Queue[V], try bool) *tseq {
	return &tseq{
		pushBack: func(v int) { q.Enqueue(k.vals[v]) },
		popFront: func() (int, bool) {
			if !try {
				return k.id(q.Dequeue()), true
			}
			v, ok := q.TryDequeue()
			return k.id(v), ok
		},
		panicky: !try,
		elems:   func() []int { return k.ids(q.PeekAll()) },
		cp:      func() *tseq { return tQueue(k, q.Copy(), try) },
		more: func(m []int) error {
			if q.Len() != len(m) || q.Empty() != (len(m) == 0) {
				return errf("Len() = %d, Empty() = %v, want %d elements", q.Len(), q.Empty(), len(m))
			}
			var each []int
			q.Each(func(v V) { each = append(each, k.id(v)) })
			if !eqSlice(each, m) {
				return errf("Each visits %v, want %v", each, m)
			}
			v, ok := q.TryPeek()
			if ok != (len(m) > 0) || ok && (k.id(v) != m[0] || k.id(q.Peek()) != m[0]) || !ok && k.id(v) != 0 {
				return errf("TryPeek() gives value %d,%v, held %v", k.id(v), ok, m)
			}
			if all := k.ids(q.Copy().DequeueAll()); !eqSlice(all, m) {
				return errf("DequeueAll of a copy gives %v, want %v", all, m)
			}
			return nil
		},
	}
}

func tStack[V any](k kind[V], s *stack.Stack[V]) *tseq {
	return &tseq{
		pushBack: func(v int) { s.Push(k.vals[v]) },
		popBack: func() (int, bool) {
			n := s.Size()
			return k.id(s.Pop()), n > 0
		},
		elems: func() []int {
			c := s.Copy()
			r := make([]int, c.Size())
			for i := range r {
				r[len(r)-1-i] = k.id(c.Pop())
			}
			return r
		},
		cp: func() *tseq { return tStack(k, s.Copy()) },
		more: func(m []int) error {
			if s.Size() != len(m) {
				return errf("Size() = %d, want %d", s.Size(), len(m))
			}
			if v := k.id(s.Peek()); len(m) > 0 && v != m[len(m)-1] || len(m) == 0 && v != 0 {
				return errf("Peek() gives value %d, held %v", v, m)
			}
			return nil
		},
	}
}

func tHeap[V any](k kind[V], h *heap.Heap[V], held *[]int) *tseq {
	return &tseq{
		heap:     true,
		pushBack: func(v int) { h.Push(k.vals[v]); *held = append(*held, v) },
		popFront: func() (int, bool) {
			v, ok := h.Pop()
			for i, w := range *held {
				if ok && w == k.id(v) {
					*held = removeOne(*held, i)
					break
				}
			}
			return k.id(v), ok
		},
		elems: func() []int { return append([]int{}, *held...) },
		more: func(m []int) error {
			if h.Size() != len(m) {
				return errf("Size() = %d, want %d", h.Size(), len(m))
			}
			v, ok := h.Peek()
			if ok != (len(m) > 0) {
				return errf("Peek() reports %v, %d held", ok, len(m))
			}
			least := 0
			for i, x := range m {
				if i == 0 || x < least {
					least = x
				}
			}
			if k.id(v) != least {
				return errf("Peek() gives value %d, held %v", k.id(v), m)
			}
			return nil
		},
	}
}

func tList[V any](k kind[V]) *tseq {
	l := list.New[V]()
	node := func(i int) *list.Node[V] {
		n := l.Front
		for ; i > 0; i-- {
			n = n.Next
		}
		return n
	}
	return &tseq{
		pushFront: func(v int) { l.PushFront(k.vals[v]) },
		pushBack:  func(v int) { l.PushBack(k.vals[v]) },
		insert: func(at, v int) {
			n := &list.Node[V]{Value: k.vals[v]}
			switch {
			case l.Front == nil:
				l.PushBackNode(n)
			case at == 0:
				l.InsertBefore(l.Front, n)
			default:
				l.InsertAfter(node(at-1), n)
			}
		},
		remove: func(at int) { l.Remove(node(at)) },
		elems: func() (r []int) {
			if l.Front != nil {
				l.Front.Each(func(v V) { r = append(r, k.id(v)) })
			}
			return
		},
		more: func(m []int) error {
			var r []int
			if l.Back != nil {
				l.Back.EachReverse(func(v V) { r = append(r, k.id(v)) })
			}
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
			if !eqSlice(r, m) {
				return errf("backwards: %v (reversed), want %v", r, m)
			}
			return nil
		},
	}
}

func tUlist[V any](k kind[V], block int) *tseq {
	l := ulist.New[V](block)
	at := func(i int) *ulist.UListIter[V] {
		it := l.Begin()
		for ; i > 0; i-- {
			it.Next()
		}
		return it
	}
	return &tseq{
		pushFront: func(v int) { l.PushFront(k.vals[v]) },
		pushBack:  func(v int) { l.PushBack(k.vals[v]) },
		insert: func(i, v int) {
			switch {
			case l.Size() == 0:
				l.PushBack(k.vals[v])
			case i == 0:
				l.AddBefore(l.Begin(), k.vals[v])
			default:
				l.AddAfter(at(i-1), k.vals[v])
			}
		},
		remove: func(i int) { l.Remove(at(i)) },
		elems: func() (r []int) {
			for it := l.Begin(); it.IsValid(); it.Next() {
				r = append(r, k.id(it.Get()))
			}
			return
		},
		more: func(m []int) error {
			if l.Size() != len(m) {
				return errf("Size() = %d, want %d", l.Size(), len(m))
			}
			var r []int
			for it := l.End(); it.IsValid(); it.Prev() {
				r = append(r, k.id(it.Get()))
			}
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
			if !eqSlice(r, m) {
				return errf("backwards: %v (reversed), want %v", r, m)
			}
			return nil
		},
	}
}

// tRope: leaves of at most two elements.
func tRope[V any](k kind[V]) *tseq {
	rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = 3, 2, 1.2
	n := rope.New[V](nil)
	return &tseq{
		pushFront: func(v int) { n.Insert(0, []V{k.vals[v]}) },
		pushBack:  func(v int) { n.Insert(n.Len(), []V{k.vals[v], k.vals[v]}); n.Remove(n.Len()-1, n.Len()) },
		insert: func(i, v int) {
			a, b := n.SplitAt(i)
			n = rope.Join(a, rope.New([]V{k.vals[v]}), b)
		},
		remove: func(i int) { n.Remove(i, i+1) },
		elems:  func() []int { return k.ids(n.Value()) },
		more: func(m []int) error {
			if n.Len() != len(m) {
				return errf("Len() = %d, want %d", n.Len(), len(m))
			}
			if s := k.ids(n.Slice(0, len(m))); !eqSlice(s, m) {
				return errf("Slice of everything gives %v, want %v", s, m)
			}
			for i, v := range m {
				if got := k.id(n.At(i)); got != v {
					return errf("At(%d) gives value %d, want %d", i, got, v)
				}
			}
			var leaves []int
			n.Each(func(n *rope.Node[V]) { leaves = append(leaves, k.ids(n.Value())...) })
			if !eqSlice(leaves, m) {
				return errf("leaves hold %v, want %v", leaves, m)
			}
			return nil
		},
	}
}

func tProp[V any](k kind[V], n *prope.Node[V]) *tseq {
	prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = 3, 2, 1.2
	return &tseq{
		pushFront: func(v int) { n = n.Insert(0, []V{k.vals[v]}) },
		pushBack: func(v int) {
			n = n.Insert(n.Len(), []V{k.vals[v], k.vals[v]})
			n = n.Remove(n.Len()-1, n.Len())
		},
		insert: func(i, v int) {
			a, b := n.SplitAt(i)
			n = prope.Join(a, prope.New([]V{k.vals[v]}), b)
		},
		remove: func(i int) { n = n.Remove(i, i+1) },
		elems:  func() []int { return k.ids(n.Value()) },
		cp:     func() *tseq { return tProp(k, n) }, // go on from this version
		more: func(m []int) error {
			if n.Len() != len(m) {
				return errf("Len() = %d, want %d", n.Len(), len(m))
			}
			if s := k.ids(n.Slice(0, len(m))); !eqSlice(s, m) {
				return errf("Slice of everything gives %v, want %v", s, m)
			}
			for i, v := range m {
				if got := k.id(n.At(i)); got != v {
					return errf("At(%d) gives value %d, want %d", i, got, v)
				}
			}
			return nil
		},
	}
}

func (k kind[V]) seq(ct string) *tseq {
	switch ct {
	case "queue":
		return tQueue(k, queue.New[V](), true)
	case "queue-dequeue":
		return tQueue(k, queue.Of([]V{}), false)
	case "stack":
		return tStack(k, stack.New[V]())
	case "heap":
		return tHeap(k, heap.New(k.less), new([]int))
	case "list":
		return tList(k)
	case "ulist-1":
		return tUlist(k, 1)
	case "ulist-2":
		return tUlist(k, 2)
	case "rope":
		return tRope(k)
	case "prope":
		return tProp(k, prope.New[V](nil))
	}
	return nil
}

// ---- multimaps ----

type tmulti struct {
	put, remove func(k, v int)
	removeAll   func(k int)
	clear       func()
	check       func(count [][]int) error
	dup         bool
	nk, nv      int
}

func tMulti[K, V any](kk kind[K], vk kind[V], m multimap.MultiMap[K, V], dup, keyOrder, valOrder bool) *tmulti {
	return &tmulti{
		put:       func(k, v int) { m.Put(kk.vals[k], vk.vals[v]) },
		remove:    func(k, v int) { m.Remove(kk.vals[k], vk.vals[v]) },
		removeAll: func(k int) { m.RemoveAll(kk.vals[k]) },
		clear:     m.Clear,
		dup:       dup,
		nk:        len(kk.vals), nv: len(vk.vals),
		check: func(count [][]int) error {
			size, dim := 0, 0
			list := func(what string, k int, got []int) error {
				var want []int
				for v, c := range count[k] {
					for ; c > 0; c-- {
						want = append(want, v)
					}
				}
				got = append([]int{}, got...)
				if !valOrder {
					sort.Ints(got)
				}
				if !eqSlice(got, want) {
					return errf("%s of key %d: values %v, want %v", what, k, got, want)
				}
				return nil
			}
			for k := range count {
				n := 0
				for _, c := range count[k] {
					n += c
				}
				size += n
				dim += cond(n > 0, 1, 0)
				if m.Count(kk.vals[k]) != n || m.Has(kk.vals[k]) != (n > 0) {
					return errf("Count(key %d) = %d, Has = %v, want %d", k, m.Count(kk.vals[k]), m.Has(kk.vals[k]), n)
				}
				if err := list("Get", k, vk.ids(m.Get(kk.vals[k]))); err != nil {
					return err
				}
			}
			if m.Size() != size || m.Dimension() != dim {
				return errf("Size() = %d, Dimension() = %d, want %d, %d", m.Size(), m.Dimension(), size, dim)
			}
			var err error
			byKey := make([][]int, len(count))
			lastk := -1
			note := func(e error) {
				if err == nil {
					err = e
				}
			}
			m.Each(func(k K, v V) {
				i := kk.id(k)
				if i < 0 || keyOrder && i < lastk {
					note(errf("Each visits key %d after %d", i, lastk))
					return
				}
				lastk = i
				byKey[i] = append(byKey[i], vk.id(v))
			})
			for k := range byKey {
				note(list("Each", k, byKey[k]))
			}
			lastk = -1
			n := 0
			m.EachAssociation(func(k K, vs []V) {
				i := kk.id(k)
				if i < 0 || keyOrder && i <= lastk {
					note(errf("EachAssociation visits key %d after %d", i, lastk))
					return
				}
				lastk = i
				n++
				note(list("EachAssociation", i, vk.ids(vs)))
			})
			if n != dim {
				note(errf("EachAssociation visits %d keys, want %d", n, dim))
			}
			return err
		},
	}
}

func (k kind[V]) multi(variant string) *tmulti {
	ints := identKind()
	ints.vals = ints.vals[:2]
	switch variant {
	case "MapSet-values":
		return tMulti(ints, k, multimap.NewMapSet[int](k.less), false, false, true)
	case "AvlSet-values":
		return tMulti(ints, k, multimap.NewAvlSet(ints.less, k.less), false, true, true)
	case "AvlSet-keys":
		return tMulti(k, ints, multimap.NewAvlSet(k.less, ints.less), false, true, true)
	case "AvlSlice-keys":
		return tMulti(k, ints, multimap.NewAvlSlice[V, int](k.less), true, true, false)
	}
	return nil
}

func (k ckind[V]) multi(variant string) *tmulti {
	ints := identKind()
	ints.vals = ints.vals[:2]
	switch variant {
	case "MapSlice-keys":
		return tMulti(k.kind, ints, multimap.NewMapSlice[V, int](), true, false, false)
	case "MapSlice-values":
		return tMulti(ints, k.kind, multimap.NewMapSlice[int, V](), true, false, false)
	case "MapSet-keys":
		return tMulti(k.kind, ints, multimap.NewMapSet[V](ints.less), false, false, true)
	case "AvlSlice-values":
		return tMulti(ints, k.kind, multimap.NewAvlSlice[int, V](ints.less), true, true, false)
	}
	return k.kind.multi(variant)
}

func typedMulti(th bool) []mc.Job {
	var js []mc.Job
	for _, v := range []string{"MapSlice-keys", "MapSlice-values", "MapSet-keys", "MapSet-values", "AvlSlice-keys", "AvlSlice-values", "AvlSet-keys", "AvlSet-values"} {
		js = append(js, mc.Shard(4, "multimap/"+v+"/element-types", func(cs *mc.Cases) {
			for _, k := range kinds() {
				c := k.multi(v)
				if c == nil {
					continue
				}
				n := c.nk * c.nv
				nops := 2*n + c.nk + 1
				scripts(cs, v+" of "+k.kindName(), nops, pick(th, 3, 4), func(t *mc.T, ops []int) {
					c := k.multi(v)
					count := make([][]int, c.nk)
					for i := range count {
						count[i] = make([]int, c.nv)
					}
					what := ""
					for _, op := range ops {
						k, v := op%n/c.nv, op%c.nv
						switch {
						case op < n:
							what += fmt.Sprintf("Put(%d,%d); ", k, v)
							c.put(k, v)
							if c.dup || count[k][v] == 0 {
								count[k][v]++
							}
						case op < 2*n:
							what += fmt.Sprintf("Remove(%d,%d); ", k, v)
							c.remove(k, v)
							count[k][v] = max(0, count[k][v]-1)
						case op < 2*n+c.nk:
							what += fmt.Sprintf("RemoveAll(%d); ", op-2*n)
							c.removeAll(op - 2*n)
							clear(count[op-2*n])
						default:
							what += "Clear; "
							c.clear()
							for i := range count {
								clear(count[i])
							}
						}
						if err := c.check(count); err != nil {
							t.Failf("%s%v", what, err)
						}
					}
				})
			}
		})...)
	}
	return js
}

// ---- set algebra ----

// tsets makes sets of ids (bit masks) and combines them.
type tsets struct {
	op  func(name string, a int, others ...int) (result, after int)
	rel func(name string, a, b int) bool
	// the key list and the Go map of a set
	keys, asMap func(a int) int
}

func (k kind[V]) algebra(string) *tsets { return nil }

func (k ckind[V]) algebra(back string) *tsets {
	mk := func(hash bool, m int) set.Set[V] {
		s := set.NewMapset[V]()
		if hash {
			s = set.NewHashset[V](1, k.same, k.hash)
		}
		for i, v := range k.vals {
			if m>>i&1 == 1 {
				s.Put(v)
			}
		}
		return s
	}
	mask := func(s set.SetOf[V]) (m int) {
		n := 0
		s.Each(func(v V) {
			i := k.id(v)
			if i < 0 || m>>i&1 == 1 {
				m |= 1 << 20
				return
			}
			m |= 1 << i
			n++
		})
		for i, v := range k.vals {
			if s.Has(v) != (m>>i&1 == 1) {
				m |= 1 << 21
			}
		}
		if s.Size() != n {
			m |= 1 << 22
		}
		return
	}
	h0, h1 := back[0] == 'h', back[1] == 'h'
	return &tsets{
		op: func(nm string, a int, others ...int) (int, int) {
			s := mk(h0, a)
			var of []set.SetOf[V]
			var elems []V
			for _, o := range others {
				x := mk(h1, o)
				of = append(of, x)
				x.Each(func(v V) { elems = append(elems, v) })
			}
			var r set.Set[V]
			switch nm {
			case "Union":
				r = s.Union(of...)
			case "Intersection":
				r = s.Intersection(of...)
			case "Difference":
				r = s.Difference(of...)
			case "SymmetricDifference":
				r = s.SymmetricDifference(of...)
			case "InPlaceUnion":
				r = s.InPlaceUnion(of...)
			case "InPlaceIntersection":
				r = s.InPlaceIntersection(of...)
			case "InPlaceDifference":
				r = s.InPlaceDifference(of...)
			case "ConstUnion":
				r = s.ConstUnion(elems...)
			case "ConstIntersection":
				r = s.ConstIntersection(elems...)
			case "ConstDifference":
				r = s.ConstDifference(elems...)
			case "ConstSymmetricDifference":
				r = s.ConstSymmetricDifference(elems...)
			}
			after := mask(s)
			for i, o := range of {
				if mask(o) != others[i] {
					after |= 1 << 23
				}
			}
			return mask(r), after
		},
		rel: func(nm string, a, b int) bool {
			s, o := mk(h0, a), mk(h1, b)
			switch nm {
			case "Equal":
				return s.Equal(o)
			case "IsSubset":
				return s.IsSubset(o)
			case "IsSuperset":
				return s.IsSuperset(o)
			case "IsProperSubset":
				return s.IsProperSubset(o)
			case "IsProperSuperset":
				return s.IsProperSuperset(o)
			}
			return s.IsDisjoint(o)
		},
		keys: func(a int) (m int) {
			for _, v := range mk(h0, a).Keys() {
				m += 1 << k.id(v)
			}
			return
		},
		asMap: func(a int) (m int) {
			for v := range mk(h0, a).Map() {
				m += 1 << k.id(v)
			}
			return
		},
	}
}

func typedAlgebra(relations bool) []mc.Job {
	return mc.Shard(4, "set/element-types", func(cs *mc.Cases) {
		for _, k := range kinds() {
			for _, back := range []string{"mm", "mh", "hm", "hh"} {
				x := k.algebra(back)
				if x == nil {
					continue
				}
				cs.Do(name("%s, backings %s", k.kindName(), back), func(t *mc.T) {
					all := 1 << k.n()
					for a := 0; a < all; a++ {
						if relations {
							if m := x.keys(a); m != a {
								t.Failf("Keys() of set %b gives %b", a, m)
							}
							if m := x.asMap(a); m != a {
								t.Failf("Map() of set %b gives %b", a, m)
							}
						}
						for b := 0; b < all; b++ {
							t.Step()
							if relations {
								for nm, want := range map[string]bool{"Equal": a == b, "IsSubset": a&^b == 0, "IsSuperset": b&^a == 0, "IsProperSubset": a&^b == 0 && a != b, "IsProperSuperset": b&^a == 0 && a != b, "IsDisjoint": a&b == 0} {
									if x.rel(nm, a, b) != want {
										t.Failf("%b %s %b is %v", a, nm, b, !want)
									}
								}
								continue
							}
							for c := 0; c < all; c++ {
								for nm, want := range map[string]int{"Union": a | b | c, "Intersection": a & b & c, "Difference": a &^ b &^ c, "InPlaceUnion": a | b | c, "InPlaceIntersection": a & b & c, "InPlaceDifference": a &^ b &^ c, "ConstUnion": a | b | c, "ConstIntersection": a & (b | c), "ConstDifference": a &^ b &^ c} {
									r, after := x.op(nm, a, b, c)
									if wa := cond(nm[0] == 'I' && nm[2] == 'P', want, a); r != want || after != wa {
										t.Failf("%s of %b with %b and %b gives %b, receiver afterwards %b", nm, a, b, c, r, after)
									}
								}
							}
							for _, nm := range []string{"SymmetricDifference", "ConstSymmetricDifference"} {
								if r, after := x.op(nm, a, b); r != a^b || after != a {
									t.Failf("%s of %b with %b gives %b, receiver afterwards %b", nm, a, b, r, after)
								}
							}
						}
					}
				})
			}
		}
	})
}
