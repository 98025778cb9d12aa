package props

import (
	"fmt"
	"sort"

	"github.com/zyedidia/generic/multimap"
	"verif/mc"
)

const (
	xkeys = 4
	xvals = 3
)

type xvariant struct {
	name       string
	dup        bool
	keyOrder   int // 0 none, 1 ascending, -1 descending
	valueOrder int
	mk         func() multimap.MultiMap[int, int]
}

var (
	lessUp   = hookLess
	lessDown = func(a, b int) bool { return a > b }
)

func xvariants() []xvariant {
	return []xvariant{
		{"MapSlice", true, 0, 0, multimap.NewMapSlice[int, int]},
		{"MapSet", false, 0, 1, func() multimap.MultiMap[int, int] { return multimap.NewMapSet[int](lessUp) }},
		{"AvlSlice", true, 1, 0, func() multimap.MultiMap[int, int] { return multimap.NewAvlSlice[int, int](lessUp) }},
		{"AvlSet", false, 1, 1, func() multimap.MultiMap[int, int] { return multimap.NewAvlSet(lessUp, lessUp) }},
		{"MapSet/descending", false, 0, -1, func() multimap.MultiMap[int, int] { return multimap.NewMapSet[int](lessDown) }},
		{"AvlSet/descending", false, -1, 1, func() multimap.MultiMap[int, int] { return multimap.NewAvlSet(lessDown, lessUp) }},
	}
}

type xsys struct {
	v     xvariant
	m     multimap.MultiMap[int, int]
	keys  int
	vals  int
	max   int // entries per key
	total int // entries overall
	ref   [][]int
}

func newXsys(v xvariant, keys, vals, max, total int) *xsys {
	s := &xsys{v: v, m: v.mk(), keys: keys, vals: vals, max: max, total: total}
	s.ref = make([][]int, keys)
	for i := range s.ref {
		s.ref[i] = make([]int, vals)
	}
	return s
}

func (s *xsys) nops() int { return 2*s.keys*s.vals + s.keys + 1 }
func (s *xsys) opName(op int) string {
	n := s.keys * s.vals
	if op < 2*n {
		return fmt.Sprintf("%s(%d,%d)", []string{"Put", "Remove"}[op/n], op%n/s.vals, op%s.vals)
	}
	if op -= 2 * n; op < s.keys {
		return fmt.Sprintf("RemoveAll(%d)", op)
	}
	return "Clear"
}

func (s *xsys) count(k int) (n int) {
	for _, c := range s.ref[k] {
		n += c
	}
	return
}

func (s *xsys) Apply(op int) (bool, error) {
	n := s.keys * s.vals
	k, v := op%n/s.vals, op%s.vals
	switch {
	case op < n:
		if s.v.dup && s.count(k) >= s.max {
			return false, nil
		}
		tot := 0
		for k := range s.ref {
			tot += s.count(k)
		}
		if tot >= s.total {
			return false, nil
		}
		s.m.Put(k, v)
		if s.v.dup || s.ref[k][v] == 0 {
			s.ref[k][v]++
		}
	case op < 2*n:
		s.m.Remove(k, v)
		if s.ref[k][v] > 0 {
			s.ref[k][v]--
		}
	case op < 2*n+s.keys:
		k := op - 2*n
		s.m.RemoveAll(k)
		s.ref[k] = make([]int, s.vals)
	default:
		s.m.Clear()
		for k := range s.ref {
			s.ref[k] = make([]int, s.vals)
		}
	}
	return true, nil
}

func sorted(a []int, order int) bool {
	for i := 1; i < len(a); i++ {
		if order*a[i-1] > order*a[i] {
			return false
		}
	}
	return true
}

// sameValues compares a list of values of key k with the model.
func (s *xsys) sameValues(what string, k int, got []int) error {
	var want []int
	for v, c := range s.ref[k] {
		for i := 0; i < c; i++ {
			want = append(want, v)
		}
	}
	if !sorted(got, s.v.valueOrder) {
		return errf("%s of key %d: values %v are out of order", what, k, got)
	}
	g := append([]int{}, got...)
	sort.Ints(g)
	if !eqSlice(g, want) {
		return errf("%s of key %d: values %v, want %v", what, k, got, want)
	}
	return nil
}

func (s *xsys) Observe() error {
	dim, size := 0, 0
	for k := 0; k < s.keys; k++ {
		n := s.count(k)
		size += n
		if n > 0 {
			dim++
		}
		if h := s.m.Has(k); h != (n > 0) {
			return errf("Has(%d) = %v with %d entries", k, h, n)
		}
		if c := s.m.Count(k); c != n {
			return errf("Count(%d) = %d, want %d", k, c, n)
		}
		if err := s.sameValues("Get", k, s.m.Get(k)); err != nil {
			return err
		}
	}
	if n := s.m.Size(); n != size {
		return errf("Size() = %d, want %d", n, size)
	}
	if n := s.m.Dimension(); n != dim {
		return errf("Dimension() = %d, want %d", n, dim)
	}
	per := make([][]int, s.keys)
	var keys []int
	var err error
	s.m.Each(func(k, v int) {
		if k < 0 || k >= s.keys {
			err = errf("Each visits key %d", k)
			return
		}
		per[k] = append(per[k], v)
		keys = append(keys, k)
	})
	if err != nil {
		return err
	}
	if !sorted(keys, s.v.keyOrder) {
		return errf("Each visits keys %v out of order", keys)
	}
	for k := range per {
		if err := s.sameValues("Each", k, per[k]); err != nil {
			return err
		}
	}
	keys = keys[:0]
	s.m.EachAssociation(func(k int, vs []int) {
		keys = append(keys, k)
		if k < 0 || k >= s.keys || s.count(k) == 0 {
			err = errf("EachAssociation visits key %d", k)
		}
		if err == nil {
			err = s.sameValues("EachAssociation", k, vs)
		}
	})
	if err != nil {
		return err
	}
	if !sorted(keys, s.v.keyOrder) {
		return errf("EachAssociation visits keys %v out of order", keys)
	}
	if len(keys) != dim {
		return errf("EachAssociation visits keys %v, want %d distinct ones", keys, dim)
	}
	sort.Ints(keys)
	for i := 1; i < len(keys); i++ {
		if keys[i] == keys[i-1] {
			return errf("EachAssociation visits key %d twice", keys[i])
		}
	}
	return nil
}

func (s *xsys) Roots() []any { return []any{s.ref, s.m} }

func multimapSpaces(nm string, keys, vals, max, total, depth int) (js []mc.Job) {
	for _, v := range xvariants() {
		v := v
		total, depth := total, depth
		if !v.dup { // finite and small
			total, depth = 99, 0
		}
		s := newXsys(v, keys, vals, max, total)
		js = append(js, one(&mc.Space{Name: fmt.Sprintf("%s/%s-%dkeys-%dvalues", nm, v.name, keys, vals), NOps: s.nops(), OpName: s.opName, Depth: depth,
			New: func() mc.Sys { return newXsys(v, keys, vals, max, total) }})...)
	}
	return
}

// multimapSweep: many keys with many values each, repeated and removed in
// structured orders.
func multimapSweep(shards int, th bool) []mc.Job {
	return mc.Shard(shards, "multimap/sweep", func(cs *mc.Cases) {
		for _, v := range xvariants() {
			for _, nk := range pick(th, []int{1, 2, 5, 12, 70}, []int{1, 2, 3, 5, 8, 12, 30, 70, 130, 300}) {
				for _, nv := range pick(th, []int{1, 2, 5, 12, 20, 70}, []int{1, 2, 3, 5, 8, 12, 20, 30, 70, 130, 300}) {
					if nk*nv > pick(th, 240, 1300) {
						continue
					}
					for _, pt := range patterns {
						for rep := 1; rep <= 3; rep++ {
							cs.Do(name("%s, %d keys, %d values, %d times, %s", v.name, nk, nv, rep, pt.name), func(t *mc.T) {
								s := newXsys(v, nk, nv, 1<<30, 1<<30)
								p := pt.perm(nk * nv)
								ev := 1 + len(p)*rep/40
								step := 0
								do := func(op int) {
									t.Step()
									_, err := s.Apply(op)
									t.Check(err)
									if step++; step%ev == 0 {
										t.Check(s.Observe())
									}
								}
								n := nk * nv
								for r := 0; r < rep; r++ {
									for _, i := range p {
										do(i)
									}
								}
								t.Check(s.Observe())
								for i, x := range p {
									do(n + x)
									if i%7 == 3 {
										do(n + x)
										do(n + p[(i*5)%n])
									}
									if i%11 == 5 {
										do(x)
									}
								}
								t.Check(s.Observe())
								for k := 0; k < nk; k += 2 {
									do(2*n + k)
									do(2*n + k)
								}
								t.Check(s.Observe())
								for _, i := range p {
									do(i)
								}
								for _, i := range p {
									for r := 0; r <= rep; r++ {
										do(n + i)
									}
								}
								t.Check(s.Observe())
								do(p[0])
								do(2*n + nk)
								t.Check(s.Observe())
								do(p[0])
								t.Check(s.Observe())
								t.State(v.name, nk, nv, rep, pt.name)
							})
						}
					}
				}
			}
		}
	})
}

func init() {
	reg(&mc.Property{ID: "X01",
		Rule:        "for each of the four variants (and descending orderings): all histories (to fixpoint unless a depth is stated) of put, remove, remove-all and clear over all key/value pairs, with every observer in every state; plus structured families with many keys and values; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders; one key with tens of thousands of values" + mapOrderRule,
		Assumptions: []string{stdAssume, "the orderings are strict weak orderings", "slices returned by Get are only read"},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				multimapSpaces("multimap", 2, 2, 3, 99, pick(th, 0, 0)),
				multimapSpaces("multimap", 3, 2, 3, pick(th, 7, 99), pick(th, 9, 0)),
				multimapSpaces("multimap", 2, 3, 3, pick(th, 6, 99), pick(th, 9, 0)),
				multimapSpaces("multimap", 3, 3, 3, pick(th, 5, 99), pick(th, 6, 7)),
				multimapSpaces("multimap", 4, 1, 2, 99, pick(th, 0, 0)),
				mc.WithOrders(mapOrders(th), multimapSpaces("multimap", 3, 2, 2, pick(th, 6, 99), pick(th, 6, 0))[:2], multimapSpaces("multimap", 4, 1, 2, 99, 0)[:2]),
				typedMulti(th), largeMultimaps(th), largeValues(pick(th, []int{300, 5000, 66000}, []int{300, 5000, 40000, 100000})),
				multimapSweep(8, th))
		}})
}
