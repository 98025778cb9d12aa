package props

import (
	"fmt"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/set"
	"verif/mc"
)

// ---- 2-D array as a copyable object ----

type aobj struct {
	a    array2d.Array2D[L]
	w, h int
	m    []L
	next *L
}

func newAobj(w, h int) *aobj {
	return &aobj{a: array2d.New[L](w, h), w: w, h: h, m: make([]L, w*h), next: new(L)}
}

// Set(x,y) for every cell, Row(y)[:]=v for every row, Fill everything
func (o *aobj) nops() int { return o.w*o.h + o.h + 1 }
func (o *aobj) opName(op int) string {
	if op < o.w*o.h {
		return fmt.Sprintf("Set(%d,%d)", op%o.w, op/o.w)
	}
	if op -= o.w * o.h; op < o.h {
		return fmt.Sprintf("write Row(%d)", op)
	}
	return "Fill"
}
func (o *aobj) model() any { return o.m[:len(o.m):len(o.m)] }
func (o *aobj) impl() any  { return &o.a }
func (o *aobj) copy() object {
	return &aobj{a: o.a.Copy(), w: o.w, h: o.h, m: append([]L{}, o.m...), next: o.next}
}
func (o *aobj) apply(op int) (bool, error) {
	*o.next++
	v := *o.next
	if op < o.w*o.h {
		o.a.Set(op%o.w, op/o.w, v)
		o.m[op] = v
		return true, nil
	}
	if op -= o.w * o.h; op < o.h {
		r := o.a.Row(op)
		if len(r) != o.w {
			return true, errf("Row(%d) has %d cells, want %d", op, len(r), o.w)
		}
		for x := range r {
			r[x] = v
			o.m[op*o.w+x] = v
		}
		return true, nil
	}
	if o.w*o.h == 0 {
		return false, nil
	}
	o.a.Fill(0, 0, o.w-1, o.h-1, v)
	for i := range o.m {
		o.m[i] = v
	}
	return true, nil
}
func (o *aobj) observe() error {
	if o.a.Width() != o.w || o.a.Height() != o.h {
		return errf("size %dx%d, want %dx%d", o.a.Width(), o.a.Height(), o.w, o.h)
	}
	for y := 0; y < o.h; y++ {
		for x := 0; x < o.w; x++ {
			if v := o.a.Get(x, y); v != o.m[y*o.w+x] {
				return errf("Get(%d,%d) = %v, want %v", x, y, v, o.m[y*o.w+x])
			}
		}
	}
	return nil
}

// ---- bimap ----

const bmax = 4

var noPairs = [bmax]int{-1, -1, -1, -1}

// bval: the values, the zero value among them.
func bval(i int) int { return cond(i == 0, 0, 10+i) }

// bobj: keys 0..n-1, values bval(0)..bval(n-1)
type bobj struct {
	b *bimap.Bimap[int, int]
	n int
	m [bmax]int // key -> value, -1 = none
}

func (o *bobj) nops() int { return o.n*o.n + 2*o.n + 1 }
func (o *bobj) opName(op int) string {
	if op < o.n*o.n {
		return fmt.Sprintf("Add(%d,%d)", op/o.n, bval(op%o.n))
	}
	op -= o.n * o.n
	if op < o.n {
		return fmt.Sprintf("RemoveForward(%d)", op)
	}
	if op -= o.n; op < o.n {
		return fmt.Sprintf("RemoveReverse(%d)", bval(op))
	}
	return "Clear"
}
func (o *bobj) model() any { return o.m }
func (o *bobj) impl() any  { return o.b }
func (o *bobj) copy() object {
	c := o.b.Copy()
	return &bobj{b: &c, n: o.n, m: o.m}
}
func (o *bobj) dropVal(v int) {
	for k := range o.m {
		if o.m[k] == v {
			o.m[k] = -1
		}
	}
}
func (o *bobj) apply(op int) (bool, error) {
	if op < o.n*o.n {
		k, v := op/o.n, bval(op%o.n)
		o.b.Add(k, v)
		o.dropVal(v)
		o.m[k] = v
		return true, nil
	}
	op -= o.n * o.n
	if op < o.n {
		o.b.RemoveForward(op)
		o.m[op] = -1
		return true, nil
	}
	if op -= o.n; op < o.n {
		o.b.RemoveReverse(bval(op))
		o.dropVal(bval(op))
		return true, nil
	}
	o.b.Clear()
	o.m = noPairs
	return true, nil
}
func (o *bobj) observe() error {
	n := 0
	for k := 0; k < o.n; k++ {
		want := o.m[k]
		v, ok := o.b.GetForward(k)
		if ok != (want >= 0) || v != max(want, 0) {
			return errf("GetForward(%d) = %v,%v, want %v (-1 = absent)", k, v, ok, want)
		}
		if c := o.b.ContainsForward(k); c != ok {
			return errf("ContainsForward(%d) = %v", k, c)
		}
		if want >= 0 {
			n++
		}
	}
	for i := 0; i < o.n; i++ {
		v := bval(i)
		want := -1
		for k := 0; k < o.n; k++ {
			if o.m[k] == v {
				want = k
			}
		}
		k, ok := o.b.GetReverse(v)
		if ok != (want >= 0) || ok && k != want || !ok && k != 0 {
			return errf("GetReverse(%d) = %v,%v, want %v (-1 = absent)", v, k, ok, want)
		}
		if c := o.b.ContainsReverse(v); c != ok {
			return errf("ContainsReverse(%d) = %v", v, c)
		}
	}
	if l := o.b.Len(); l != n {
		return errf("Len() = %d, want %d", l, n)
	}
	got := noPairs
	visits := 0
	var err error
	o.b.Each(func(k, v int) {
		visits++
		if k < 0 || k >= o.n || got[k] >= 0 || v < 0 {
			err = errf("Each visits (%d,%d), twice or unknown", k, v)
			return
		}
		got[k] = v
	})
	if err == nil && (got != o.m || visits != n) {
		err = errf("Each visits %v in %d calls, want %v", got, visits, o.m)
	}
	return err
}

// ---- set.Set ----

type setBack struct {
	name string
	mk   func(in ...int) set.Set[int]
}

func ihash(nm string) func(int) uint64 {
	switch nm {
	case "const":
		return func(int) uint64 { return 5 }
	case "high":
		return func(i int) uint64 { return ^uint64(0) - uint64(i) }
	case "two":
		return func(i int) uint64 { return uint64(i&1)*3 + 1 }
	case "id":
		return func(i int) uint64 { return uint64(i) }
	}
	return g.HashInt
}

func setBacks() []setBack {
	r := []setBack{{"mapset", set.NewMapset[int]}}
	for _, h := range []string{"mix", "const", "high", "two", "id"} {
		for _, c := range []uint64{0, 1, 2, 8} {
			h, c := h, c
			if c == 8 && h != "high" && h != "mix" {
				continue
			}
			r = append(r, setBack{fmt.Sprintf("hashset(cap %d, hash %s)", c, h), func(in ...int) set.Set[int] {
				return set.NewHashset(c, g.Equals[int], ihash(h), in...)
			}})
		}
	}
	return r
}

const smax = 8

type setobj struct {
	s set.Set[int]
	n int
	m [smax]bool
}

func (o *setobj) nops() int { return 2*o.n + 1 }
func (o *setobj) opName(op int) string {
	if op < o.n {
		return fmt.Sprintf("Put(%d)", op)
	}
	if op < 2*o.n {
		return fmt.Sprintf("Remove(%d)", op-o.n)
	}
	return "Clear"
}
func (o *setobj) model() any { return o.m }
func (o *setobj) impl() any  { return &o.s.SetOf }
func (o *setobj) copy() object {
	return &setobj{s: o.s.Clone(), n: o.n, m: o.m}
}
func (o *setobj) apply(op int) (bool, error) {
	switch {
	case op < o.n:
		o.s.Put(op)
		o.m[op] = true
	case op < 2*o.n:
		o.s.Remove(op - o.n)
		o.m[op-o.n] = false
	default:
		o.s.Clear()
		o.m = [smax]bool{}
	}
	return true, nil
}
func (o *setobj) observe() error {
	var got [smax]bool
	n := 0
	var err error
	o.s.Each(func(k int) {
		n++
		if k < 0 || k >= o.n || got[k] {
			err = errf("Each visits %d, twice or unknown", k)
			return
		}
		got[k] = true
	})
	if err != nil {
		return err
	}
	if got != o.m {
		return errf("contains %v, want %v", got[:o.n], o.m[:o.n])
	}
	for k := 0; k < o.n; k++ {
		if o.s.Has(k) != o.m[k] {
			return errf("Has(%d) = %v", k, !o.m[k])
		}
	}
	if o.s.Size() != n {
		return errf("Size() = %d, want %d", o.s.Size(), n)
	}
	return nil
}

func bimapZero(n int) *bobj { return &bobj{b: &bimap.Bimap[int, int]{}, n: n, m: noPairs} }

func names(s []setBack) (r []string) {
	for _, b := range s {
		r = append(r, b.name)
	}
	return
}

func init() {
	reg(&mc.Property{ID: "V01",
		Rule:        "for each container: all histories (to fixpoint unless a depth is stated) of mutations and copies between up to three containers related by copying, from the listed starting contents; in every state every container is compared with its own model through all its observers; plus larger containers (every listed size, grown or shrunk to it): a family of three copies, every pair of mutations on every pair of members, compared with containers that have no copies" + mapOrderRule,
		Assumptions: []string{stdAssume, "elements of queues, stacks and arrays are data-independent"},
		Jobs: func(th bool) []mc.Job {
			bs := setBacks()
			shapes := [][2]int{{0, 0}, {0, 2}, {1, 1}, {2, 1}, {1, 2}, {2, 2}}
			shapeNames := make([]string, len(shapes))
			for i, s := range shapes {
				shapeNames[i] = fmt.Sprintf("%dx%d", s[0], s[1])
			}
			return jobs(
				objSpaces("queue/3copies", 6, itoaList(4), 3, pick(th, 6, 8), func(i int) object { return newQobj(i, 4) }),
				objSpaces("queue/2copies", 4, itoaList(4), 2, pick(th, 8, 11), func(i int) object { return newQobj(i, 4) }),
				objSpaces("stack/3copies", 6, itoaList(5), 3, pick(th, 7, 10), func(i int) object { return newSobj(i, 5) }),
				objSpaces("stack/2copies", 4, itoaList(5), 2, pick(th, 10, 14), func(i int) object { return newSobj(i, 5) }),
				objSpaces("array2d/3copies", 6, shapeNames, 3, pick(th, 4, 5), func(i int) object { return newAobj(shapes[i][0], shapes[i][1]) }),
				objSpaces("array2d/2copies", 6, shapeNames, 2, pick(th, 5, 7), func(i int) object { return newAobj(shapes[i][0], shapes[i][1]) }),
				objSpaces("bimap/3copies", 1, []string{"zero, 2 keys"}, 3, 0, func(i int) object { return bimapZero(2) }),
				objSpaces("bimap/2copies", 1, []string{"zero, 3 keys"}, 2, 0, func(i int) object { return bimapZero(3) }),
				objSpaces("set/3copies", 8, names(bs), 3, pick(th, 7, 0), func(i int) object { return &setobj{s: bs[i].mk(), n: 2} }),
				objSpaces("set/2copies", 8, names(bs), 2, pick(th, 0, 0), func(i int) object { return &setobj{s: bs[i].mk(), n: 3} }),
				mc.WithOrders(mapOrders(th),
					objSpaces("bimap/2copies", 1, []string{"zero, 3 keys"}, 2, pick(th, 5, 7), func(i int) object { return bimapZero(3) }),
					objSpaces("set/2copies", 1, names(bs[:1]), 2, pick(th, 5, 0), func(i int) object { return &setobj{s: bs[i].mk(), n: 3} })),
				typedKeyed(th, "bimap-keys", "bimap-values", "set-map", "set-hash"), typedSeq(th, "queue", "stack"),
				copySweep(append(rangeInts(0, pick(th, 20, 40), 1), pick(th, []int{31, 32, 33, 63, 64, 65, 100, 128, 129, 300}, []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 3000})...)),
			)
		}})
	reg(&mc.Property{ID: "B01",
		Rule:        "all histories (to fixpoint) of adds, removals in both directions and clears over n keys and n values, from the zero map, from Of with every Go map over them, and from copies; all observers in both directions in every state; plus containers of thousands of elements, filled, overwritten, thinned out and refilled in structured orders" + mapOrderRule,
		Assumptions: []string{stdAssume, "keys and values only matter through equality"},
		Jobs: func(th bool) []mc.Job {
			n := 3
			var cfgs []string
			var maps []map[int]int
			tuples(n, n+1, func(t []int) {
				m := map[int]int{}
				for k, v := range t {
					if v > 0 {
						m[k] = bval(v - 1)
					}
				}
				maps = append(maps, m)
				cfgs = append(cfgs, fmt.Sprintf("Of(%v)", m))
			})
			js := mc.Configs(8, "bimap/Of", cfgs, bimapZero(n).nops(), bimapZero(n).opName, 0, func(i int) mc.Sys {
				return &bsys{newBobj(maps[i], n)}
			})
			return jobs(js,
				objSpaces("bimap/zero3", 1, []string{"zero"}, 1, 0, func(i int) object { return bimapZero(3) }),
				objSpaces("bimap/zero4", 1, []string{"zero"}, 1, 0, func(i int) object { return bimapZero(4) }),
				objSpaces("bimap/copied", 1, []string{"zero"}, 2, 0, func(i int) object { return bimapZero(2) }),
				mc.Shard(1, "bimap/nil", func(cs *mc.Cases) {
					cs.Do(name("Len of a nil map"), func(t *mc.T) {
						t.Step()
						var b *bimap.Bimap[int, string]
						if b.Len() != 0 {
							t.Failf("Len() = %d", b.Len())
						}
					})
				}),
				mc.WithOrders(mapOrders(th), js, objSpaces("bimap/copied3", 1, []string{"zero"}, 2, pick(th, 4, 6), func(i int) object { return bimapZero(3) })),
				typedKeyed(th, "bimap-keys", "bimap-values"),
				largeKeyed("bimap", pick(th, []int{1025, 66000}, []int{1025, 5000, 66000, 140000}), lBimap(false)),
				bimapSweep(pick(th, 40, 200)))
		}})
}

type bsys struct{ *bobj }

func (s *bsys) Apply(op int) (bool, error) { return s.apply(op) }
func (s *bsys) Observe() error             { return s.observe() }
func (s *bsys) Roots() []any               { return []any{s.m, s.b} }

// newBobj builds a bimap from a Go map. Where several keys share a value any
// one of them may have survived.
func newBobj(m map[int]int, n int) *bobj {
	b := bimap.Of(m)
	o := &bobj{b: &b, n: n, m: noPairs}
	if b.Len() > len(m) {
		panic("Of invents entries")
	}
	for k, v := range m {
		got, ok := b.GetForward(k)
		if ok {
			if got != v {
				panic(fmt.Sprintf("Of(%v) maps %d to %d", m, k, got))
			}
			o.m[k] = v
			continue
		}
		k2, ok := b.GetReverse(v)
		if !ok || k2 == k || m[k2] != v {
			panic(fmt.Sprintf("Of(%v): value %d is held by no key", m, v))
		}
	}
	return o
}

// bimapSweep: many pairs, then re-pairing by a shift, then removals.
func bimapSweep(max int) []mc.Job {
	return mc.Shard(2, "bimap/sweep", func(cs *mc.Cases) {
		for n := 1; n <= max; n++ {
			for _, shift := range []int{0, 1, n / 2, n - 1} {
				for _, rev := range []bool{false, true} {
					cs.Do(name("%d pairs, shifted by %d, removed by value: %v", n, shift, rev), func(t *mc.T) {
						var b bimap.Bimap[int, int]
						f, r := map[int]int{}, map[int]int{}
						add := func(k, v int) {
							t.Step()
							b.Add(k, v)
							if o, ok := f[k]; ok {
								delete(r, o)
							}
							if o, ok := r[v]; ok {
								delete(f, o)
							}
							f[k], r[v] = v, k
						}
						check := func() {
							if b.Len() != len(f) {
								t.Failf("Len() = %d, want %d", b.Len(), len(f))
							}
							for k := 0; k < n; k++ {
								v, ok := b.GetForward(k)
								w, wok := f[k]
								if v != w || ok != wok {
									t.Failf("GetForward(%d) = %d,%v, want %d,%v", k, v, ok, w, wok)
								}
								v, ok = b.GetReverse(k)
								w, wok = r[k]
								if v != w || ok != wok {
									t.Failf("GetReverse(%d) = %d,%v, want %d,%v", k, v, ok, w, wok)
								}
							}
						}
						for i := 0; i < n; i++ {
							add(i, i)
						}
						check()
						for i := 0; i < n; i++ {
							add(i, (i+shift)%n)
							if n < 20 {
								check()
							}
						}
						check()
						for i := 0; i < n; i += 2 {
							t.Step()
							if rev {
								b.RemoveReverse(i)
								if k, ok := r[i]; ok {
									delete(f, k)
									delete(r, i)
								}
							} else {
								b.RemoveForward(i)
								if v, ok := f[i]; ok {
									delete(r, v)
									delete(f, i)
								}
							}
						}
						check()
						t.State(n, shift, rev)
					})
				}
			}
		}
	})
}
