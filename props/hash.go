package props

import (
	"bytes"
	"fmt"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"verif/mc"
)

// ---- hash maps and hash sets: a family of containers related by Copy ----

// kv is a map or a set (values then are always 1).
type kv[K any] interface {
	put(K, mc.Label)
	get(K) (mc.Label, bool)
	remove(K)
	clear()
	size() int
	each(func(K, mc.Label))
	copy() kv[K]
}

type hm[K any] struct{ m *hashmap.Map[K, mc.Label] }

func (h hm[K]) put(k K, v mc.Label)      { h.m.Put(k, v) }
func (h hm[K]) get(k K) (mc.Label, bool) { return h.m.Get(k) }
func (h hm[K]) remove(k K)               { h.m.Remove(k) }
func (h hm[K]) clear()                   { h.m.Clear() }
func (h hm[K]) size() int                { return h.m.Size() }
func (h hm[K]) each(f func(K, mc.Label)) { h.m.Each(f) }
func (h hm[K]) copy() kv[K]              { return hm[K]{h.m.Copy()} }

type hs[K any] struct{ s *hashset.Set[K] }

func b2l(b bool) (mc.Label, bool) {
	if b {
		return 1, true
	}
	return 0, false
}

func (h hs[K]) put(k K, v mc.Label)      { h.s.Put(k) }
func (h hs[K]) get(k K) (mc.Label, bool) { return b2l(h.s.Has(k)) }
func (h hs[K]) remove(k K)               { h.s.Remove(k) }
func (h hs[K]) clear()                   { h.s.Clear() }
func (h hs[K]) size() int                { return h.s.Size() }
func (h hs[K]) each(f func(K, mc.Label)) { h.s.Each(func(k K) { f(k, 1) }) }
func (h hs[K]) copy() kv[K]              { return hs[K]{h.s.Copy()} }

type ms[K comparable] struct{ s mapset.Set[K] }

func (h ms[K]) put(k K, v mc.Label)      { h.s.Put(k) }
func (h ms[K]) get(k K) (mc.Label, bool) { return b2l(h.s.Has(k)) }
func (h ms[K]) remove(k K)               { h.s.Remove(k) }
func (h ms[K]) clear()                   { h.s.Clear() }
func (h ms[K]) size() int                { return h.s.Size() }
func (h ms[K]) each(f func(K, mc.Label)) { h.s.Each(func(k K) { f(k, 1) }) }
func (h ms[K]) copy() kv[K]              { panic("mapset has no Copy") }

// hcfg is one configuration of the family system.
type hcfg[K any] struct {
	name  string
	keys  []K   // alphabet of keys that are put
	class []int // keys of one class are equal
	probe []K   // keys never put
	same  func(a, b K) bool
	set   bool
	mk    func() kv[K]
}

// hfam: slots[0] is constructed, the others are filled by Copy.
type hfam[K any] struct {
	cfg   *hcfg[K]
	slot  []kv[K]
	model [][]mc.Label // per slot and class; 0 = absent
	next  mc.Label
}

func newHfam[K any](cfg *hcfg[K], slots int) *hfam[K] {
	f := &hfam[K]{cfg: cfg, slot: make([]kv[K], slots), model: make([][]mc.Label, slots)}
	f.slot[0] = cfg.mk()
	f.model[0] = make([]mc.Label, cfg.class[len(cfg.class)-1]+1)
	return f
}

// operations per slot: put k, remove k, clear, copy to each other slot
func hfamOps(nkeys, slots int) int { return slots * (2*nkeys + 1 + slots - 1) }

func hfamName[K any](keys []K, slots int) func(op int) string {
	return func(op int) string {
		per := 2*len(keys) + slots
		s, o := op/per, op%per
		switch {
		case o < len(keys):
			return fmt.Sprintf("Put(m%d,%v)", s, keys[o])
		case o < 2*len(keys):
			return fmt.Sprintf("Remove(m%d,%v)", s, keys[o-len(keys)])
		case o == 2*len(keys):
			return fmt.Sprintf("Clear(m%d)", s)
		}
		t := o - 2*len(keys) - 1
		if t >= s {
			t++
		}
		return fmt.Sprintf("Copy(m%d->m%d)", s, t)
	}
}

func (f *hfam[K]) Apply(op int) (bool, error) {
	n := len(f.cfg.keys)
	per := 2*n + len(f.slot)
	s, o := op/per, op%per
	if f.slot[s] == nil {
		return false, nil
	}
	switch {
	case o < n:
		f.next++
		v := f.next
		if f.cfg.set {
			v = 1
		}
		f.slot[s].put(f.cfg.keys[o], v)
		f.model[s][f.cfg.class[o]] = v
	case o < 2*n:
		f.slot[s].remove(f.cfg.keys[o-n])
		f.model[s][f.cfg.class[o-n]] = 0
	case o == 2*n:
		f.slot[s].clear()
		clear(f.model[s])
	default:
		t := o - 2*n - 1
		if t >= s {
			t++
		}
		if t > 0 && f.slot[t-1] == nil {
			return false, nil // fill slots in order
		}
		f.slot[t] = f.slot[s].copy()
		f.model[t] = append([]mc.Label{}, f.model[s]...)
	}
	return true, nil
}

func (f *hfam[K]) Observe() error {
	for s, m := range f.slot {
		if m == nil {
			continue
		}
		if err := f.observe(s, m); err != nil {
			return err
		}
	}
	return nil
}

func (f *hfam[K]) observe(s int, m kv[K]) error {
	want := 0
	for _, v := range f.model[s] {
		if v != 0 {
			want++
		}
	}
	if n := m.size(); n != want {
		return errf("m%d.Size() = %d, want %d", s, n, want)
	}
	for i, k := range f.cfg.keys {
		w := f.model[s][f.cfg.class[i]]
		if v, ok := m.get(k); v != w || ok != (w != 0) {
			return errf("m%d.Get(%v) = %d,%v, want %d,%v", s, k, v, ok, w, w != 0)
		}
	}
	for _, k := range f.cfg.probe {
		if v, ok := m.get(k); ok || v != 0 {
			return errf("m%d.Get(%v) = %d,%v for a key that was never put", s, k, v, ok)
		}
	}
	var seen [64]bool
	n := 0
	var err error
	m.each(func(k K, v mc.Label) {
		if err != nil {
			return
		}
		n++
		c := -1
		for i, q := range f.cfg.keys {
			if f.cfg.same(q, k) {
				c = f.cfg.class[i]
				break
			}
		}
		switch {
		case c < 0:
			err = errf("m%d.Each visits unknown key %v", s, k)
		case seen[c]:
			err = errf("m%d.Each visits %v twice", s, k)
		case f.model[s][c] == 0:
			err = errf("m%d.Each visits absent key %v", s, k)
		case f.model[s][c] != v:
			err = errf("m%d.Each visits %v with value %d, want %d", s, k, v, f.model[s][c])
		}
		if c >= 0 {
			seen[c] = true
		}
	})
	if err == nil && n != want {
		err = errf("m%d.Each visits %d entries, want %d", s, n, want)
	}
	return err
}

func (f *hfam[K]) Roots() []any {
	r := []any{f.model}
	for _, m := range f.slot {
		if m == nil {
			r = append(r, nil)
		} else {
			r = append(r, m)
		}
	}
	return r
}

// tableHash hashes key i to t[i]; probes (negative keys) hash to t[0].
func tableHash(t []uint64, div int) func(int) uint64 {
	return func(k int) uint64 {
		if k < 0 || k/div >= len(t) {
			return t[0]
		}
		return t[k/div]
	}
}

// hashTables enumerates every function from n classes to vals.
func hashTables(n int, vals []uint64) (r [][]uint64) {
	tuples(n, len(vals), func(t []int) {
		h := make([]uint64, n)
		for i, x := range t {
			h[i] = vals[x]
		}
		r = append(r, h)
	})
	return
}

type hkind int

const (
	kMap hkind = iota
	kSet
)

// hconfigs: every hash function x capacity, on n classes of reps keys each.
func hconfigs(kind hkind, n, reps int, vals []uint64, caps []uint64) (r []hcfg[int]) {
	for _, h := range hashTables(n, vals) {
		for _, c := range caps {
			r = append(r, hconfig(kind, n, reps, h, c))
		}
	}
	return
}

func hconfig(kind hkind, n, reps int, h []uint64, c uint64) hcfg[int] {
	cf := hcfg[int]{name: fmt.Sprintf("hash%v,cap%d", h, c), set: kind != kMap, probe: []int{-1, -2}}
	for i := 0; i < n*reps; i++ {
		cf.keys = append(cf.keys, i)
		cf.class = append(cf.class, i/reps)
	}
	// negative keys never equal others
	cf.same = func(a, b int) bool { return a >= 0 && b >= 0 && a/reps == b/reps || a == b }
	hash := tableHash(h, reps)
	if kind == kMap {
		cf.mk = func() kv[int] { return hm[int]{hashmap.New[int, mc.Label](c, cf.same, hash)} }
	} else {
		cf.mk = func() kv[int] { return hs[int]{hashset.New[int](c, cf.same, hash)} }
	}
	return cf
}

func hspace[K any](shards int, nm string, cfgs []hcfg[K], slots, depth int) []mc.Job {
	names := make([]string, len(cfgs))
	for i := range cfgs {
		names[i] = cfgs[i].name
	}
	return mc.Configs(shards, nm, names, hfamOps(len(cfgs[0].keys), slots), hfamName(cfgs[0].keys, slots), depth,
		func(i int) mc.Sys { return newHfam(&cfgs[i], slots) })
}

// real keys and library hashes
func realConfigs(kind hkind) (js []hcfg[string], bs []hcfg[[]byte]) {
	for _, c := range []uint64{0, 1, 4} {
		c := c
		sc := hcfg[string]{name: fmt.Sprint("string,cap", c), keys: []string{"", "a", "ab", "\x00"}, class: []int{0, 1, 2, 3},
			probe: []string{"b", "a\x00", "abc"}, same: func(a, b string) bool { return a == b }, set: kind != kMap}
		bc := hcfg[[]byte]{name: fmt.Sprint("bytes,cap", c), keys: [][]byte{nil, {1}, {1, 2}, {0}}, class: []int{0, 1, 2, 3},
			probe: [][]byte{{2}, {1, 0}, {1, 2, 3}}, same: bytes.Equal, set: kind != kMap}
		if kind == kMap {
			sc.mk = func() kv[string] { return hm[string]{hashmap.New[string, mc.Label](c, g.Equals[string], g.HashString)} }
			bc.mk = func() kv[[]byte] { return hm[[]byte]{hashmap.New[[]byte, mc.Label](c, bytes.Equal, g.HashBytes)} }
		} else {
			sc.mk = func() kv[string] { return hs[string]{hashset.New[string](c, g.Equals[string], g.HashString)} }
			bc.mk = func() kv[[]byte] { return hs[[]byte]{hashset.New[[]byte](c, bytes.Equal, g.HashBytes)} }
		}
		js = append(js, sc)
		bs = append(bs, bc)
	}
	return
}

// ---- large tables ----

type hashFam struct {
	name string
	hash func(int) uint64
	max  int // largest size it is used with (bad hashes are quadratic)
}

var hashFams = []hashFam{
	{"HashInt", g.HashInt, 1 << 30},
	{"identity", func(i int) uint64 { return uint64(i) }, 1 << 30},
	{"quarter", func(i int) uint64 { return uint64(i / 4) }, 1 << 30},
	{"high-bits", func(i int) uint64 { return uint64(i)<<58 | 7 }, 300},
	{"const-0", func(i int) uint64 { return 0 }, 300},
	{"const-max", func(i int) uint64 { return ^uint64(0) }, 300},
	{"mod5-end", func(i int) uint64 { return ^uint64(0) - uint64(i%5) }, 300},
	{"x8", func(i int) uint64 { return uint64(i) * 8 }, 2000},
}

// checkTable compares a container with the model: m[k] for k in [0,span).
func checkTable(c kv[int], m map[int]mc.Label, full bool, around int) error {
	if n := c.size(); n != len(m) {
		return errf("Size() = %d, want %d", n, len(m))
	}
	probe := func(k int) error {
		v, ok := c.get(k)
		w, wok := m[k]
		if v != w || ok != wok {
			return errf("Get(%d) = %d,%v, want %d,%v", k, v, ok, w, wok)
		}
		return nil
	}
	for d := -2; d <= 2; d++ {
		if err := probe(around + d); err != nil {
			return err
		}
	}
	if !full {
		return nil
	}
	for k := range m {
		if err := probe(k); err != nil {
			return err
		}
		if err := probe(k + 1); err != nil {
			return err
		}
	}
	seen := make(map[int]bool, len(m))
	var err error
	c.each(func(k int, v mc.Label) {
		w, ok := m[k]
		if err == nil && (!ok || v != w || seen[k]) {
			err = errf("Each visits %d=%d (seen %v), want %d,%v", k, v, seen[k], w, ok)
		}
		seen[k] = true
	})
	if err == nil && len(seen) != len(m) {
		err = errf("Each visits %d entries, want %d", len(seen), len(m))
	}
	return err
}

func hsweep(nm string, shards int, sizes []int, copies bool, set bool, mk func(c uint64, hash func(int) uint64) kv[int]) []mc.Job {
	return mc.Shard(shards, nm, func(cs *mc.Cases) {
		for _, n := range sizes {
			if cs.Stopped() {
				return
			}
			for hi, hf := range hashFams {
				if n > hf.max {
					continue
				}
				for pi, ins := range patterns {
					for qi, del := range patterns {
						if (pi+qi+hi)%3 != 0 && n > 20 {
							continue
						}
						caps := []uint64{0, uint64(n), uint64(3 * n)}
						c := caps[(pi+qi)%3]
						cs.Do(name("n=%d cap=%d %s insert %s, overwrite, remove %s, put back, clear", n, c, hf.name, ins.name, del.name), func(t *mc.T) {
							ct := mk(c, hf.hash)
							m := map[int]mc.Label{}
							type snap struct {
								c kv[int]
								m map[int]mc.Label
							}
							var snaps []snap
							cnt := 0
							ev := 1
							if n > 40 {
								ev = n / 4
							}
							step := func(k int, put bool, v mc.Label) {
								t.Step()
								cnt++
								if put {
									if set {
										v = 1
									}
									ct.put(k, v)
									m[k] = v
								} else {
									ct.remove(k)
									delete(m, k)
								}
								t.Check(checkTable(ct, m, cnt%ev == 0, k))
								if copies && cnt%(n/2+1) == 0 && len(snaps) < 8 {
									cm := make(map[int]mc.Label, len(m))
									for k, v := range m {
										cm[k] = v
									}
									cp := ct.copy()
									if len(snaps)%2 == 1 { // continue on the copy
										ct, cp = cp, ct
									}
									snaps = append(snaps, snap{cp, cm})
								}
							}
							for _, i := range ins.perm(n) {
								step(3*i, true, mc.Label(i+1))
							}
							for i, k := range del.perm(n) {
								if i%3 == 0 {
									step(3*k, true, mc.Label(n+k+1))
								}
								if i%4 == 0 {
									step(3*k+1, false, 0)
								}
								step(3*k, false, 0)
							}
							t.Check(checkTable(ct, m, true, 0))
							for _, i := range del.perm(n) {
								step(3*i, true, mc.Label(2*i+1))
							}
							t.Check(checkTable(ct, m, true, 0))
							ct.clear()
							clear(m)
							t.Check(checkTable(ct, m, true, 0))
							for _, i := range ins.perm(n / 2) {
								step(3*i, true, mc.Label(2*i+5))
							}
							t.Check(checkTable(ct, m, true, 0))
							for _, s := range snaps {
								t.Check(checkTable(s.c, s.m, true, 0))
							}
							t.State(n, hf.name, pi, qi)
						})
					}
				}
			}
		}
	})
}

func mkMap(c uint64, hash func(int) uint64) kv[int] {
	return hm[int]{hashmap.New[int, mc.Label](c, g.Equals[int], hash)}
}
func mkSet(c uint64, hash func(int) uint64) kv[int] {
	return hs[int]{hashset.New[int](c, g.Equals[int], hash)}
}
func mkMapset(c uint64, hash func(int) uint64) kv[int] { return ms[int]{mapset.New[int]()} }

// hofSweep: constructors that take elements, with repetitions.
func hofSweep() []mc.Job {
	return mc.Shard(1, "set/Of", func(cs *mc.Cases) {
		for n := 0; n <= 5; n++ {
			tuples(n, 3, func(tp []int) {
				vals := append([]int{}, tp...)
				for _, c := range []uint64{0, 1, 2, 8} {
					for _, h := range hashTables(3, []uint64{0, 3, 7}) {
						cs.Do(name("Of(cap %d, hash %v, %v)", c, h, vals), func(t *mc.T) {
							t.Step()
							in := append([]int{}, vals...)
							ct := hs[int]{hashset.Of[int](c, g.Equals[int], tableHash(h, 1), in...)}
							m := map[int]mc.Label{}
							for _, v := range vals {
								m[v] = 1
							}
							t.Check(checkTable(ct, m, true, 1))
							if !eqSlice(in, vals) {
								t.Failf("Of changed its arguments: %v -> %v", vals, in)
							}
							t.State(ct.s)
						})
					}
				}
				cs.Do(name("mapset.Of(%v)", vals), func(t *mc.T) {
					t.Step()
					m := map[int]mc.Label{}
					for _, v := range vals {
						m[v] = 1
					}
					ct := ms[int]{mapset.Of(vals...)}
					t.Check(checkTable(ct, m, true, 1))
					t.State(ct.s)
				})
			})
		}
	})
}

func mapsetConfig(k int) []hcfg[int] {
	c := hcfg[int]{name: "mapset", set: true, probe: []int{-1}, same: func(a, b int) bool { return a == b },
		mk: func() kv[int] { return ms[int]{mapset.New[int]()} }}
	for i := 0; i < k; i++ {
		c.keys = append(c.keys, i)
		c.class = append(c.class, i)
	}
	return []hcfg[int]{c}
}

var extremeHashes = []uint64{0, 1 << 63, ^uint64(0), 1<<32 - 1}

func init() {
	reg(&mc.Property{ID: "M01",
		Rule:        "for every hash function from k keys to the listed slots and every listed initial capacity: all put/remove/clear histories to fixpoint (fresh value per put, values compared up to renaming); two representatives per key class; string and []byte keys with the library hashes; plus every size x hash family x insertion/removal pattern up to the stated sizes; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "values are data-independent (the map is parametric in V)", "equality is an equivalence and the hash is consistent with it", "key alphabets of at most k keys for arbitrary histories"},
		Jobs: func(th bool) []mc.Job {
			ss, bs := realConfigs(kMap)
			r := jobs(
				hsweep("hashmap/sweep", 8, append(rangeInts(1, pick(th, 24, 70), 1), pick(th, []int{33, 64, 100, 1000}, []int{100, 129, 256, 1000, 5000, 30000})...), false, false, mkMap),
				hspace(8, "hashmap/k3-all-hashes", hconfigs(kMap, 3, 1, []uint64{0, 1, 2, 3, 4, 5, 6, 7}, pick(th, []uint64{0, 4, 8}, []uint64{0, 1, 2, 3, 4, 5, 8, 16})), 1, 0),
				hspace(8, "hashmap/k4", hconfigs(kMap, 4, 1, []uint64{0, 1, 7, 15}, pick(th, []uint64{1, 16}, []uint64{0, 2, 7, 8, 16, 32})), 1, 0),
				hspace(8, "hashmap/k5", hconfigs(kMap, 5, 1, pick(th, []uint64{0, 7}, []uint64{0, 7, 15}), pick(th, []uint64{1}, []uint64{1, 8, 16})), 1, 0),
				hspace(8, "hashmap/extreme-hashes", hconfigs(kMap, 3, 1, extremeHashes, []uint64{0, 2, 3, 17}), 1, 0),
				hspace(4, "hashmap/classes", hconfigs(kMap, 3, 2, []uint64{0, 3, 7}, []uint64{1, 8}), 1, 0),
				hspace(2, "hashmap/string", ss, 1, 0),
				hspace(2, "hashmap/bytes", bs, 1, 0),
				typedKeyed(th, "hashmap-keys", "hashmap-values"),
				largeHash(th, "hashmap", false),
			)
			if th {
				r = append(r, hspace(8, "hashmap/k6", hconfigs(kMap, 6, 1, []uint64{0, 15}, []uint64{1, 16}), 1, 0)...)
			}
			return r
		}})
	reg(&mc.Property{ID: "M02",
		Rule:        "families of up to 3 maps/sets: all histories (to fixpoint) of put/remove/clear on any member and copy from any member to any slot, for every hash function from k keys to the listed slots; plus large tables copied in mid-growth and mid-shrink; plus copies of tables of tens of thousands of entries",
		Assumptions: []string{stdAssume, "values are data-independent (the map is parametric in V)", "at most 3 simultaneously live members, k keys"},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				hspace(8, "hashmap-copies/k2-3maps", hconfigs(kMap, 2, 1, []uint64{0, 3}, pick(th, []uint64{0, 4}, []uint64{0, 1, 4, 8})), 3, 0),
				hspace(8, "hashmap-copies/k3-2maps", hconfigs(kMap, 3, 1, []uint64{0, 7}, pick(th, []uint64{1}, []uint64{0, 2, 4, 8})), 2, 0),
				hspace(8, "hashset-copies/k3-2sets", hconfigs(kSet, 3, 1, []uint64{0, 1, 3}, pick(th, []uint64{0, 4}, []uint64{0, 1, 4, 8})), 2, 0),
				hspace(4, "hashset-copies/k2-3sets", hconfigs(kSet, 2, 1, []uint64{0, 3}, []uint64{0, 4}), 3, 0),
				typedKeyed(th, "hashmap-keys", "hashmap-values", "hashset"),
				largeHash(th, "hashmap", true),
				largeHash(th, "hashset", true),
				hspace(8, "hashmap-copies/preloaded", preConfigs(th), 2, pick(th, 3, 5)),
				hsweep("hashmap-copies/sweep", 8, append(rangeInts(1, pick(th, 20, 50), 1), pick(th, []int{33, 64, 400}, []int{100, 400, 2000, 10000})...), true, false, mkMap),
				hsweep("hashset-copies/sweep", 4, []int{1, 2, 3, 5, 9, 17, 33, 200}, true, true, mkSet),
			)
		}})
	reg(&mc.Property{ID: "S01",
		Rule:        "for every hash function from k elements to the listed slots and every listed initial capacity: all put/remove/clear histories to fixpoint, for hash sets and map sets; all argument tuples of the Of constructors; plus large families; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders" + mapOrderRule,
		Assumptions: []string{stdAssume, "equality is an equivalence and the hash is consistent with it", "at most k elements for arbitrary histories"},
		Jobs: func(th bool) []mc.Job {
			ss, bs := realConfigs(kSet)
			return jobs(
				hspace(8, "hashset/k3-all-hashes", hconfigs(kSet, 3, 1, []uint64{0, 1, 2, 3, 4, 5, 6, 7}, pick(th, []uint64{0, 4}, []uint64{0, 1, 2, 3, 4, 8, 16})), 1, 0),
				hspace(8, "hashset/k4", hconfigs(kSet, 4, 1, []uint64{0, 7, 15}, pick(th, []uint64{1, 16}, []uint64{0, 2, 7, 8, 16, 32})), 1, 0),
				hspace(4, "hashset/classes", hconfigs(kSet, 3, 2, []uint64{0, 3, 7}, []uint64{1, 8}), 1, 0),
				hspace(2, "hashset/string", ss, 1, 0),
				hspace(2, "hashset/bytes", bs, 1, 0),
				typedKeyed(th, "hashset", "mapset", "set-map", "set-hash"),
				largeHash(th, "hashset", false),
				largeKeyed("mapset", largeSizes(th), lMapset),
				hspace(1, "mapset", mapsetConfig(pick(th, 8, 12)), 1, 0),
				mc.WithOrders(mapOrders(th), hspace(1, "mapset", mapsetConfig(4), 1, 0)),
				hofSweep(),
				hsweep("hashset/sweep", 8, append(rangeInts(1, pick(th, 16, 50), 1), pick(th, []int{33, 64, 500}, []int{100, 129, 256, 1000, 5000})...), false, true, mkSet),
				hsweep("mapset/sweep", 1, []int{1, 5, 100}, false, true, mkMapset),
			)
		}})
}

// preConfigs: maps filled to around every resize threshold before the history
// starts (copy right before a grow or a shrink).
func preConfigs(th bool) (r []hcfg[int]) {
	for n := 4; n <= pick(th, 9, 18); n++ {
		for _, drain := range []bool{false, true} {
			for _, hf := range []hashFam{hashFams[1], hashFams[4], {"end", func(i int) uint64 { return 15 - uint64(i%2) }, 0}} {
				n, hf, drain := n, hf, drain
				c := hcfg[int]{name: fmt.Sprintf("preload%d,drained=%v,%s", n, drain, hf.name), keys: []int{0, 1, 50}, class: []int{0, 1, 2}, probe: []int{-1}, same: func(a, b int) bool { return a == b }}
				c.mk = func() kv[int] {
					m := hashmap.New[int, mc.Label](1, g.Equals[int], hf.hash)
					for i := 0; i < n; i++ {
						m.Put(100+i, mc.Label(1000+i))
					}
					lo := n
					if drain { // just above the shrink threshold
						lo = pre8(n)
						for i := lo; i < n; i++ {
							m.Remove(100 + i)
						}
					}
					return &prem{hm[int]{m}, lo}
				}
				r = append(r, c)
			}
		}
	}
	return
}

// pre8 is the number of entries at which a table grown by n insertions is
// about to shrink.
func pre8(n int) int {
	c := 1
	for l := 0; l < n; l++ {
		if l >= c/2 {
			c *= 2
		}
	}
	return c/8 + 1
}

// prem hides the preloaded keys 100..100+n-1, after checking them.
type prem struct {
	hm[int]
	n int
}

func (p *prem) size() int {
	for i := 0; i < p.n; i++ {
		if v, ok := p.hm.get(100 + i); !ok || v != mc.Label(1000+i) {
			panic(fmt.Sprintf("preloaded key %d: Get = %d,%v", 100+i, v, ok))
		}
	}
	return p.hm.size() - p.pre()
}
func (p *prem) pre() int { return p.n }
func (p *prem) clear() {
	p.hm.clear()
	p.n = 0
}
func (p *prem) copy() kv[int] { return &prem{hm[int]{p.m.Copy()}, p.n} }
func (p *prem) each(f func(int, mc.Label)) {
	n := 0
	p.hm.each(func(k int, v mc.Label) {
		if k >= 100 {
			n++
			if v != mc.Label(900+k) {
				panic(fmt.Sprintf("Each: preloaded key %d has value %d", k, v))
			}
			return
		}
		f(k, v)
	})
	if n != p.n {
		panic(fmt.Sprintf("Each visits %d preloaded keys, want %d", n, p.n))
	}
}
