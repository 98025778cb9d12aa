package props

import (
	"fmt"
	"sort"
	"strings"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/set"
	"verif/mc"
)

// ---- a few sets that operate on each other ----

type mask uint16

func (m mask) has(i int) bool { return m>>i&1 == 1 }
func (m mask) String() string {
	var b strings.Builder
	b.WriteByte('{')
	for i := 0; i < 16; i++ {
		if m.has(i) {
			if b.Len() > 1 {
				b.WriteByte(' ')
			}
			fmt.Fprint(&b, i)
		}
	}
	return b.String() + "}"
}

const foreign = 15 // an element no operand ever has

// contents compares everything a set shows with the model.
func contents(s set.SetOf[int], want mask, n int) error {
	var got mask
	visits := 0
	var err error
	s.Each(func(k int) {
		visits++
		if k < 0 || k > foreign || got.has(k) {
			err = errf("visits %d, twice or unknown", k)
			return
		}
		got |= 1 << k
	})
	if err != nil {
		return err
	}
	if got != want {
		return errf("contains %v, want %v", got, want)
	}
	for k := 0; k < n; k++ {
		if s.Has(k) != want.has(k) {
			return errf("contains %v, but Has(%d) = %v", want, k, !want.has(k))
		}
	}
	if s.Size() != visits {
		return errf("contains %v, but Size() = %d", want, s.Size())
	}
	return nil
}

// The algebra: kind 0 union, 1 intersection, 2 difference, 3 symmetric difference.
var algName = []string{"Union", "Intersection", "Difference", "SymmetricDifference"}

func algebra(kind int, s mask, others ...mask) mask {
	switch kind {
	case 0:
		for _, o := range others {
			s |= o
		}
	case 1:
		for _, o := range others {
			s &= o
		}
	case 2:
		for _, o := range others {
			s &^= o
		}
	case 3:
		var r mask
		for i := 0; i < 16; i++ {
			n := 0
			for _, o := range append([]mask{s}, others...) {
				if o.has(i) {
					n++
				}
			}
			if n == 1 {
				r |= 1 << i
			}
		}
		return r
	}
	return s
}

func setAlgebra(kind int, s set.Set[int], others ...set.SetOf[int]) set.Set[int] {
	switch kind {
	case 0:
		return s.Union(others...)
	case 1:
		return s.Intersection(others...)
	case 2:
		return s.Difference(others...)
	}
	return s.SymmetricDifference(others...)
}

func setInPlace(kind int, s set.Set[int], others ...set.SetOf[int]) set.Set[int] {
	switch kind {
	case 0:
		return s.InPlaceUnion(others...)
	case 1:
		return s.InPlaceIntersection(others...)
	}
	return s.InPlaceDifference(others...)
}

func setConst(kind int, s set.Set[int], with ...int) set.Set[int] {
	switch kind {
	case 0:
		return s.ConstUnion(with...)
	case 1:
		return s.ConstIntersection(with...)
	case 2:
		return s.ConstDifference(with...)
	}
	return s.ConstSymmetricDifference(with...)
}

type setop struct {
	kind string
	alg  int
	i, j int
	k    int // second operand, -1 none
}

func (o setop) String() string {
	args := fmt.Sprintf("s%d", o.j)
	if o.k >= 0 {
		args += fmt.Sprintf(", s%d", o.k)
	}
	switch o.kind {
	case "Put", "Remove":
		return fmt.Sprintf("%s(s%d, %d)", o.kind, o.i, o.j)
	case "Clear":
		return fmt.Sprintf("Clear(s%d)", o.i)
	case "Clone":
		return fmt.Sprintf("Clone(s%d -> s%d)", o.j, o.i)
	case "InPlace":
		return fmt.Sprintf("InPlace%s(s%d; %s)", algName[o.alg], o.i, args)
	}
	return fmt.Sprintf("Assign%s(s%d = s%d of %s)", algName[o.alg], o.i, o.i, args)
}

func setops(sets, n int, two, pure bool) (r []setop) {
	for i := 0; i < sets; i++ {
		for e := 0; e < n; e++ {
			r = append(r, setop{"Put", 0, i, e, -1}, setop{"Remove", 0, i, e, -1})
		}
		r = append(r, setop{"Clear", 0, i, 0, -1})
		for j := 0; j < sets; j++ {
			if i != j {
				r = append(r, setop{"Clone", 0, i, j, -1})
			}
			for a := 0; a < 4; a++ {
				for k := -1; k < sets; k++ {
					if k >= 0 && !two {
						break
					}
					if a < 3 {
						r = append(r, setop{"InPlace", a, i, j, k})
					}
					if pure {
						r = append(r, setop{"Assign", a, i, j, k})
					}
				}
			}
		}
	}
	return
}

// setsys: sets of possibly different backings operating on each other.
type setsys struct {
	ops   []setop
	n     int
	raw   bool // operands are passed without their Set wrapper
	preds bool
	s     []set.Set[int]
	m     []mask
}

func (s *setsys) operand(j int) set.SetOf[int] {
	if s.raw {
		return s.s[j].SetOf
	}
	return s.s[j]
}

func (s *setsys) Apply(op int) (bool, error) {
	o := s.ops[op]
	switch o.kind {
	case "Put":
		s.s[o.i].Put(o.j)
		s.m[o.i] |= 1 << o.j
	case "Remove":
		s.s[o.i].Remove(o.j)
		s.m[o.i] &^= 1 << o.j
	case "Clear":
		s.s[o.i].Clear()
		s.m[o.i] = 0
	case "Clone":
		s.s[o.i] = s.s[o.j].Clone()
		s.m[o.i] = s.m[o.j]
	default:
		others := []set.SetOf[int]{s.operand(o.j)}
		om := []mask{s.m[o.j]}
		if o.k >= 0 {
			others = append(others, s.operand(o.k))
			om = append(om, s.m[o.k])
		}
		want := algebra(o.alg, s.m[o.i], om...)
		if o.kind == "InPlace" {
			r := setInPlace(o.alg, s.s[o.i], others...)
			s.m[o.i] = want
			if err := contents(r, want, s.n); err != nil {
				return true, errf("returned set %w", err)
			}
			return true, nil
		}
		r := setAlgebra(o.alg, s.s[o.i], others...)
		if err := contents(s.s[o.i], s.m[o.i], s.n); err != nil {
			return true, errf("receiver afterwards %w", err)
		}
		s.s[o.i] = r
		s.m[o.i] = want
	}
	return true, nil
}

func (s *setsys) Observe() error {
	for i := range s.s {
		if err := contents(s.s[i], s.m[i], s.n); err != nil {
			return errf("s%d: %w", i, err)
		}
	}
	if !s.preds {
		return nil
	}
	for i := range s.s {
		if err := rendering(s.s[i], s.m[i]); err != nil {
			return errf("s%d: %w", i, err)
		}
		for j := range s.s {
			if err := predicates(s.s[i], s.operand(j), s.m[i], s.m[j]); err != nil {
				return errf("s%d %v, s%d %v: %w", i, s.m[i], j, s.m[j], err)
			}
		}
	}
	for i := range s.s {
		if err := contents(s.s[i], s.m[i], s.n); err != nil {
			return errf("after the comparisons: s%d: %w", i, err)
		}
	}
	return nil
}

func (s *setsys) Roots() []any {
	m := s.m[:len(s.m):len(s.m)]
	r := []any{m}
	for i := range s.s {
		r = append(r, &s.s[i].SetOf)
	}
	return r
}

func predicates(a set.Set[int], b set.SetOf[int], x, y mask) error {
	for _, p := range []struct {
		name string
		got  bool
		want bool
	}{
		{"Equal", a.Equal(b), x == y},
		{"IsSubset", a.IsSubset(b), x&^y == 0},
		{"IsSuperset", a.IsSuperset(b), y&^x == 0},
		{"IsProperSubset", a.IsProperSubset(b), x&^y == 0 && x != y},
		{"IsProperSuperset", a.IsProperSuperset(b), y&^x == 0 && x != y},
		{"IsDisjoint", a.IsDisjoint(b), x&y == 0},
	} {
		if p.got != p.want {
			return errf("%s = %v", p.name, p.got)
		}
	}
	return nil
}

func rendering(s set.Set[int], want mask) error {
	var got mask
	keys := s.Keys()
	for _, k := range keys {
		if k < 0 || k > foreign || got.has(k) {
			return errf("Keys() = %v", keys)
		}
		got |= 1 << k
	}
	if got != want {
		return errf("Keys() = %v, want %v", keys, want)
	}
	got = 0
	mp := s.Map()
	for k := range mp {
		if k < 0 || k > foreign {
			return errf("Map() = %v", mp)
		}
		got |= 1 << k
	}
	if got != want {
		return errf("Map() = %v, want %v", mp, want)
	}
	var strs []string
	for k := 0; k <= 9; k++ {
		if want.has(k) {
			strs = append(strs, fmt.Sprint(k))
		}
	}
	if want < 1<<10 {
		if got, want := s.String(), "["+strings.Join(strs, " ")+"]"; got != want {
			return errf("String() = %q, want %q", got, want)
		}
	}
	return nil
}

// setSpaces: every choice of backings for each of the sets.
func setSpaces(nm string, shards int, backs []setBack, sets, n int, two, pure, preds bool, depth int) []mc.Job {
	ops := setops(sets, n, two, pure)
	var cfgs []string
	var choice [][]int
	tuples(sets, len(backs), func(t []int) {
		for _, raw := range []bool{false, true} {
			if sets > 2 && raw != (t[0] == 0) { // alternate to halve the number of configurations
				continue
			}
			c := append([]int{}, t...)
			if raw {
				c = append(c, 1)
			}
			choice = append(choice, c)
			var bn []string
			for _, b := range t {
				bn = append(bn, backs[b].name)
			}
			cfgs = append(cfgs, fmt.Sprintf("%s, raw operands: %v", strings.Join(bn, " | "), raw))
		}
	})
	return mc.Configs(shards, nm, cfgs, len(ops), func(o int) string { return ops[o].String() }, depth, func(i int) mc.Sys {
		s := &setsys{ops: ops, n: n, raw: len(choice[i]) > sets, preds: preds, m: make([]mask, sets)}
		for k := 0; k < sets; k++ {
			s.s = append(s.s, backs[choice[i][k]].mk())
		}
		return s
	})
}

// ---- families of operands, built in every order ----

// orders lists every ordered subset of 0..n-1.
func orders(n int) (r [][]int) {
	var rec func(cur []int, used mask)
	rec = func(cur []int, used mask) {
		r = append(r, append([]int{}, cur...))
		for i := 0; i < n; i++ {
			if !used.has(i) {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

func maskOf(in []int) (m mask) {
	for _, k := range in {
		m |= 1 << k
	}
	return
}

func increasing(a []int) bool { return sort.IntsAreSorted(a) }

type operandKind struct {
	name string
	mk   func(in ...int) set.SetOf[int]
}

func operandKinds(backs []setBack) (r []operandKind) {
	for _, b := range backs {
		b := b
		r = append(r, operandKind{b.name, func(in ...int) set.SetOf[int] { return b.mk(in...) }})
	}
	return append(r,
		operandKind{"raw mapset.Of", func(in ...int) set.SetOf[int] { return mapset.Of(in...) }},
		operandKind{"raw hashset.Of(mix)", func(in ...int) set.SetOf[int] { return hashset.Of(1, g.Equals[int], g.HashInt, in...) }},
		operandKind{"raw hashset.Of(high)", func(in ...int) set.SetOf[int] { return hashset.Of(0, g.Equals[int], ihash("high"), in...) }},
		operandKind{"raw hashset, built with removals", func(in ...int) set.SetOf[int] {
			s := hashset.New(0, g.Equals[int], ihash("two"))
			for _, k := range in {
				s.Put(k + 10)
				s.Put(k)
			}
			for _, k := range in {
				s.Remove(k + 10)
			}
			return s.Copy()
		}})
}

// algCase runs all operations with one receiver and one list of operands.
func algCase(t *mc.T, mk func() (set.Set[int], []set.SetOf[int]), x mask, om []mask, n int) {
	check := func(what string, s set.Set[int], want mask, others []set.SetOf[int], self mask) {
		t.Step()
		if err := contents(s, want, n); err != nil {
			t.Failf("%s: %v", what, err)
		}
		for i, o := range others {
			w := om[i]
			if self.has(i) {
				continue
			}
			if err := contents(o, w, n); err != nil {
				t.Failf("%s: operand %d afterwards: %v", what, i, err)
			}
		}
	}
	for a := 0; a < 4; a++ {
		s, others := mk()
		want := algebra(a, x, om...)
		r := setAlgebra(a, s, others...)
		check(algName[a], r, want, others, 0)
		check("receiver after "+algName[a], s, x, others, 0)
		// the result is a set of its own
		r.Put(foreign)
		check("changing the result of "+algName[a]+" changes the receiver", s, x, others, 0)
		check("changing the result of "+algName[a], r, want|1<<foreign, nil, 0)
	}
	for a := 0; a < 3; a++ {
		s, others := mk()
		want := algebra(a, x, om...)
		r := setInPlace(a, s, others...)
		check("InPlace"+algName[a], s, want, others, 0)
		check("result of InPlace"+algName[a], r, want, others, 0)
		r.Put(foreign)
		check("receiver and result of InPlace"+algName[a]+" differ", s, want|1<<foreign, others, 0)
	}
}

// constCase runs the variants that take elements.
func constCase(t *mc.T, mk func() set.Set[int], x mask, with []int, n int) {
	for a := 0; a < 4; a++ {
		t.Step()
		s := mk()
		w := append([]int{}, with...)
		want := algebra(a, x, maskOf(with))
		r := setConst(a, s, w...)
		if err := contents(r, want, n); err != nil {
			t.Failf("Const%s: %v", algName[a], err)
		}
		if err := contents(s, x, n); err != nil {
			t.Failf("receiver after Const%s: %v", algName[a], err)
		}
		r.Put(foreign)
		if err := contents(s, x, n); err != nil {
			t.Failf("changing the result of Const%s changes the receiver: %v", algName[a], err)
		}
		if !eqSlice(w, with) {
			t.Failf("Const%s changed its argument", algName[a])
		}
	}
}

func someBacks() []setBack {
	var r []setBack
	for _, b := range setBacks() {
		switch b.name {
		case "mapset", "hashset(cap 0, hash mix)", "hashset(cap 1, hash const)", "hashset(cap 1, hash high)", "hashset(cap 2, hash two)", "hashset(cap 8, hash high)":
			r = append(r, b)
		}
	}
	return r
}

// mapBacks: the sets built on Go maps, and one or two that are not.
func mapBacks(th bool) []setBack { return someBacks()[:pick(th, 2, 3)] }

// mapAlgebra is every pair of subsets of four elements of which at least one is
// in a Go map, for runs under every order of loops over Go maps.
func mapAlgebra(th, preds bool) []mc.Job {
	n := 4
	backs := mapBacks(th)
	kinds := operandKinds(backs)
	return mc.Shard(2, "set/pairs", func(cs *mc.Cases) {
		for _, b := range backs {
			for _, k := range kinds {
				for x := mask(0); x < 1<<n; x++ {
					for y := mask(0); y < 1<<n; y++ {
						if cs.Stopped() {
							return
						}
						cs.Do(name("receiver %s %v, operand %s %v", b.name, elems(x), k.name, elems(y)), func(t *mc.T) {
							if !preds {
								algCase(t, func() (set.Set[int], []set.SetOf[int]) {
									return b.mk(elems(x)...), []set.SetOf[int]{k.mk(elems(y)...)}
								}, x, []mask{y}, n)
								return
							}
							t.Step()
							s, o := b.mk(elems(x)...), k.mk(elems(y)...)
							t.Check(predicates(s, o, x, y))
							t.Check(contents(s, x, n))
							t.Check(contents(o, y, n))
							t.Check(predicates(s, s, x, x))
							t.Check(rendering(s, x))
						})
					}
				}
			}
		}
	})
}

func algSweeps(th bool) []mc.Job {
	n := 4
	rec := orders(n)
	backs := setBacks()
	kinds := operandKinds(someBacks())
	one := mc.Shard(16, "set/one-operand", func(cs *mc.Cases) {
		for _, b := range backs {
			for _, k := range kinds {
				for _, x := range rec {
					for _, y := range rec {
						if cs.Stopped() {
							return
						}
						if !th && !increasing(x) && !increasing(y) {
							continue
						}
						b, k, x, y := b, k, x, y
						cs.Do(name("receiver %s %v, operand %s %v", b.name, x, k.name, y), func(t *mc.T) {
							algCase(t, func() (set.Set[int], []set.SetOf[int]) {
								return b.mk(x...), []set.SetOf[int]{k.mk(y...)}
							}, maskOf(x), []mask{maskOf(y)}, n)
						})
					}
				}
			}
		}
	})
	self := mc.Shard(2, "set/self", func(cs *mc.Cases) {
		for _, b := range backs {
			for _, x := range rec {
				for _, raw := range []bool{false, true} {
					cs.Do(name("%s %v with itself, with nothing, and twice with itself (raw: %v)", b.name, x, raw), func(t *mc.T) {
						m := maskOf(x)
						me := func(s set.Set[int]) set.SetOf[int] {
							if raw {
								return s.SetOf
							}
							return s
						}
						algCase(t, func() (set.Set[int], []set.SetOf[int]) { return b.mk(x...), nil }, m, nil, n)
						for times := 1; times <= 2; times++ {
							var om []mask
							for i := 0; i < times; i++ {
								om = append(om, m)
							}
							for a := 0; a < 4; a++ {
								s := b.mk(x...)
								var others []set.SetOf[int]
								for i := 0; i < times; i++ {
									others = append(others, me(s))
								}
								t.Step()
								r := setAlgebra(a, s, others...)
								if err := contents(r, algebra(a, m, om...), n); err != nil {
									t.Failf("%s with itself: %v", algName[a], err)
								}
								if err := contents(s, m, n); err != nil {
									t.Failf("receiver after %s with itself: %v", algName[a], err)
								}
								if a < 3 {
									r := setInPlace(a, s, others...)
									if err := contents(r, algebra(a, m, om...), n); err != nil {
										t.Failf("InPlace%s with itself: %v", algName[a], err)
									}
									if err := contents(s, algebra(a, m, om...), n); err != nil {
										t.Failf("receiver after InPlace%s with itself: %v", algName[a], err)
									}
								}
							}
						}
					})
				}
			}
		}
	})
	con := mc.Shard(4, "set/const", func(cs *mc.Cases) {
		for _, b := range backs {
			for _, x := range rec {
				for _, y := range rec {
					cs.Do(name("%s %v with elements %v", b.name, x, y), func(t *mc.T) {
						constCase(t, func() set.Set[int] { return b.mk(x...) }, maskOf(x), y, n)
						if len(y) > 0 { // a repeated element
							constCase(t, func() set.Set[int] { return b.mk(x...) }, maskOf(x), append([]int{y[len(y)-1]}, y...), n)
						}
					})
				}
			}
		}
	})
	few := someBacks()
	fewKinds := operandKinds(few[:4])
	two := mc.Shard(8, "set/two-operands", func(cs *mc.Cases) {
		rec := orders(3)
		for _, b := range few {
			for _, k1 := range fewKinds {
				for _, k2 := range fewKinds {
					for _, x := range rec {
						for _, y := range rec {
							for _, z := range rec {
								if cs.Stopped() {
									return
								}
								if !th && (!increasing(y) || !increasing(z)) {
									continue
								}
								b, k1, k2, x, y, z := b, k1, k2, x, y, z
								cs.Do(name("receiver %s %v, operands %s %v, %s %v", b.name, x, k1.name, y, k2.name, z), func(t *mc.T) {
									algCase(t, func() (set.Set[int], []set.SetOf[int]) {
										return b.mk(x...), []set.SetOf[int]{k1.mk(y...), k2.mk(z...)}
									}, maskOf(x), []mask{maskOf(y), maskOf(z)}, 3)
								})
							}
						}
					}
				}
			}
		}
	})
	// One to four operands over every combination of subsets of 3 elements.
	many := mc.Shard(8, "set/many-operands", func(cs *mc.Cases) {
		for c := 3; c <= 4; c++ {
			for bi, b := range few {
				if c == 4 && bi%3 != 1 && !th {
					continue
				}
				tuples(c+1, 8, func(ms []int) {
					if cs.Stopped() {
						return
					}
					tm := append([]int{}, ms...)
					cs.Do(name("receiver %s, subsets (bit masks) %v", b.name, tm), func(t *mc.T) {
						var om []mask
						for _, m := range tm[1:] {
							om = append(om, mask(m))
						}
						algCase(t, func() (set.Set[int], []set.SetOf[int]) {
							var o []set.SetOf[int]
							for i, m := range tm[1:] {
								o = append(o, few[(bi+i)%len(few)].mk(elems(mask(m))...))
							}
							return b.mk(elems(mask(tm[0]))...), o
						}, mask(tm[0]), om, 3)
					})
				})
			}
		}
	})
	return jobs(one, self, con, two, many, algLarge(th), algButOne(th))
}

func elems(m mask) (r []int) {
	for i := 0; i < 16; i++ {
		if m.has(i) {
			r = append(r, i)
		}
	}
	return
}

// algPair: all algebra and all predicates on two sets of 0..n-1.
func algPair(t *mc.T, n int, b1, b2 setBack, xf, yf func(i, n int) bool) {
	build := func(b setBack, f func(i, n int) bool) set.Set[int] {
		s := b.mk()
		for i := 0; i < n; i++ {
			if f((i*7)%n, n) {
				s.Put((i * 7) % n)
			}
		}
		if n%7 == 0 {
			for i := 0; i < n; i++ {
				if f(i, n) {
					s.Put(i)
				}
			}
		}
		return s
	}
	same := func(what string, s set.SetOf[int], f func(i int) bool) {
		t.Step()
		seen := make([]bool, n)
		c := 0
		s.Each(func(k int) {
			if k < 0 || k >= n || seen[k] || !f(k) {
				t.Failf("%s: visits %d", what, k)
			}
			seen[k] = true
			c++
		})
		for i := 0; i < n; i++ {
			if f(i) != seen[i] || s.Has(i) != f(i) {
				t.Failf("%s: element %d, want %v", what, i, f(i))
			}
		}
		if s.Size() != c {
			t.Failf("%s: Size() = %d, want %d", what, s.Size(), c)
		}
	}
	in := func(kind int) func(i int) bool {
		return func(i int) bool {
			a, b := xf(i, n), yf(i, n)
			switch kind {
			case 0:
				return a || b
			case 1:
				return a && b
			case 2:
				return a && !b
			}
			return a != b
		}
	}
	fx := func(i int) bool { return xf(i, n) }
	fy := func(i int) bool { return yf(i, n) }
	o := build(b2, yf)
	for a := 0; a < 4; a++ {
		s := build(b1, xf)
		same(algName[a], setAlgebra(a, s, o), in(a))
		same("receiver", s, fx)
		same("operand", o, fy)
		if a < 3 {
			setInPlace(a, s, o)
			same("InPlace"+algName[a], s, in(a))
			same("operand", o, fy)
		}
	}
	s := build(b1, xf)
	eq, sub, sup, dis := true, true, true, true
	for i := 0; i < n; i++ {
		a, b := fx(i), fy(i)
		eq = eq && a == b
		sub = sub && (!a || b)
		sup = sup && (a || !b)
		dis = dis && !(a && b)
	}
	got := []bool{s.Equal(o), s.IsSubset(o), s.IsSuperset(o), s.IsProperSubset(o), s.IsProperSuperset(o), s.IsDisjoint(o)}
	want := []bool{eq, sub, sup, sub && !eq, sup && !eq, dis}
	if !eqSlice(got, want) {
		t.Failf("Equal,IsSubset,IsSuperset,IsProperSubset,IsProperSuperset,IsDisjoint = %v, want %v", got, want)
	}
	same("receiver", s, fx)
	same("operand", o, fy)
}

// algButOne: pairs of sets that differ from a common one by at most an element
// each, at every place.
func algButOne(th bool) []mc.Job {
	return mc.Shard(8, "set/all-but-one", func(cs *mc.Cases) {
		for _, n := range pick(th, []int{2, 3, 4, 5, 6, 7, 9, 12}, []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33}) {
			for _, b1 := range someBacks() {
				for _, b2 := range someBacks() {
					for i := -1; i < n; i++ {
						i := i
						cs.Do(name("%s of 0..%d but %d with %s but any one", b1.name, n-1, i, b2.name), func(t *mc.T) {
							for j := -1; j < n; j++ {
								algPair(t, n, b1, b2, func(x, n int) bool { return x != i }, func(x, n int) bool { return x != j })
							}
							t.State(n, b1.name, b2.name, i)
						})
					}
				}
			}
		}
	})
}

// algLarge: sets of many elements, related by arithmetic.
func algLarge(th bool) []mc.Job {
	return mc.Shard(8, "set/large", func(cs *mc.Cases) {
		sel := []struct {
			name string
			f    func(i, n int) bool
		}{
			{"none", func(i, n int) bool { return false }},
			{"all", func(i, n int) bool { return true }},
			{"even", func(i, n int) bool { return i%2 == 0 }},
			{"thirds", func(i, n int) bool { return i%3 == 0 }},
			{"low half", func(i, n int) bool { return i < n/2 }},
			{"high half", func(i, n int) bool { return i >= n/2 }},
			{"last", func(i, n int) bool { return i == n-1 }},
			{"but first", func(i, n int) bool { return i > 0 }},
		}
		for _, n := range pick(th, []int{5, 9, 17, 33, 70, 150}, []int{5, 8, 9, 13, 17, 25, 33, 50, 70, 100, 150, 300, 700}) {
			for _, b1 := range someBacks() {
				for _, b2 := range someBacks() {
					for _, x := range sel {
						for _, y := range sel {
							cs.Do(name("%d elements, %s %s with %s %s", n, b1.name, x.name, b2.name, y.name), func(t *mc.T) {
								algPair(t, n, b1, b2, x.f, y.f)
								t.State(n, b1.name, b2.name, x.name, y.name)
							})
						}
					}
				}
			}
		}
	})
}

// predSweeps: predicates and renderings for every pair of ordered subsets.
func predSweeps(th bool) []mc.Job {
	n := 4
	rec := orders(n)
	backs := setBacks()
	kinds := operandKinds(someBacks())
	pairs := mc.Shard(16, "set/pairs", func(cs *mc.Cases) {
		for _, b := range backs {
			for _, k := range kinds {
				for _, x := range rec {
					for _, y := range rec {
						if cs.Stopped() {
							return
						}
						if !th && !increasing(x) && !increasing(y) {
							continue
						}
						b, k, x, y := b, k, x, y
						cs.Do(name("%s %v compared with %s %v", b.name, x, k.name, y), func(t *mc.T) {
							s, o := b.mk(x...), k.mk(y...)
							t.Step()
							t.Check(predicates(s, o, maskOf(x), maskOf(y)))
							t.Check(contents(s, maskOf(x), n))
							t.Check(contents(o, maskOf(y), n))
							t.Check(predicates(s, s, maskOf(x), maskOf(x)))
							t.Check(predicates(s, s.SetOf, maskOf(x), maskOf(x)))
							t.Check(rendering(s, maskOf(x)))
						})
					}
				}
			}
		}
	})
	// text and lists of strings
	words := []string{"", "a", "B", "aa", "b c"}
	text := mc.Shard(1, "set/text", func(cs *mc.Cases) {
		for _, x := range orders(5) {
			for _, hashed := range []int{0, 1, 2} {
				cs.Do(name("words %v of %q, backing %d", x, words, hashed), func(t *mc.T) {
					t.Step()
					var in []string
					for _, i := range x {
						in = append(in, words[i])
					}
					s := set.NewMapset(in...)
					if hashed == 1 {
						s = set.NewHashset(0, g.Equals[string], g.HashString, in...)
					} else if hashed == 2 {
						s = set.NewHashset(1, g.Equals[string], func(string) uint64 { return 3 }, in...)
					}
					want := append([]string{}, in...)
					sort.Strings(want)
					if got, w := s.String(), fmt.Sprintf("%v", want); got != w {
						t.Failf("String() = %q, want %q", got, w)
					}
					keys := s.Keys()
					sort.Strings(keys)
					if !eqSlice(keys, want) {
						t.Failf("Keys() = %q, want %q", keys, want)
					}
					m := s.Map()
					if len(m) != len(want) {
						t.Failf("Map() = %v, want %q", m, want)
					}
					for _, w := range want {
						if _, ok := m[w]; !ok {
							t.Failf("Map() = %v, want %q", m, want)
						}
					}
				})
			}
		}
	})
	return jobs(pairs, text, algLarge(th))
}

func init() {
	reg(&mc.Property{ID: "S02",
		Rule:        "(1) all histories (to fixpoint unless a depth is stated) of two and three sets of every combination of backings mutating, cloning and combining one another, each other's contents compared after every step; (2) all ordered subsets of 4 elements as receiver and operand for every backing, operands wrapped and raw, with zero to four operands, and the receiver as its own operand; (3) large arithmetic families; (4) all pairs of subsets of values of other element types, chosen to look alike; (5) many operands; (6) sets of tens of thousands of elements" + mapOrderRule,
		Assumptions: []string{stdAssume, "spaces and sweeps that are not repeated for every order of loops over Go maps run under one order per execution, picked by the runtime"},
		Jobs: func(th bool) []mc.Job {
			few := someBacks()
			return jobs(
				setSpaces("set/2sets-3elements", 8, few, 2, 3, false, true, false, pick(th, 0, 0)),
				setSpaces("set/2sets-2elements-two", 8, setBacks(), 2, 2, true, true, false, pick(th, 4, 0)),
				setSpaces("set/3sets-2elements", 8, few[:4], 3, 2, true, true, false, pick(th, 3, 5)),
				mc.WithOrders(mapOrders(th),
					setSpaces("set/2sets-3elements", 2, mapBacks(th), 2, 3, false, true, false, pick(th, 4, 0)),
					setSpaces("set/3sets-2elements", 2, mapBacks(th), 3, 2, true, true, false, 3),
					mapAlgebra(th, false)),
				typedAlgebra(false), manyOperands(th), largeSets(th),
				algSweeps(th), typedSetJobs(th, false))
		}})
	reg(&mc.Property{ID: "S03",
		Rule:        "(1) all histories (to fixpoint unless a depth is stated) of two sets of every combination of backings, with every comparison in both directions, with themselves, wrapped and raw, and every rendering, in every state; (2) every pair of ordered subsets of 4 elements for every backing; (3) large arithmetic families; (4) all pairs of subsets of values of other element types, chosen to look alike; (5) sets of tens of thousands of elements" + mapOrderRule,
		Assumptions: []string{stdAssume, "spaces and sweeps that are not repeated for every order of loops over Go maps run under one order per execution, picked by the runtime"},
		Jobs: func(th bool) []mc.Job {
			few := someBacks()
			return jobs(
				setSpaces("set/2sets-3elements", 8, few, 2, 3, false, false, true, pick(th, 0, 0)),
				setSpaces("set/2sets-4elements", 8, few, 2, 4, false, false, true, pick(th, 4, 6)),
				setSpaces("set/2sets-2elements", 8, setBacks(), 2, 2, false, false, true, pick(th, 5, 0)),
				mc.WithOrders(mapOrders(th),
					setSpaces("set/2sets-3elements", 2, mapBacks(th), 2, 3, false, false, true, pick(th, 4, 0)),
					mapAlgebra(th, true)),
				typedAlgebra(true),
				largeSets(th),
				predSweeps(th), typedSetJobs(th, true))
		}})
}

// typedSets: element types whose distinct values look alike (same text, same
// contents behind pointers, same number in different types).
func typedSets[K comparable](nm string, vals []K, hash g.HashFn[K], preds bool) []mc.Job {
	n := len(vals)
	type back struct {
		name string
		mk   func(in ...K) set.Set[K]
		raw  func(in ...K) set.SetOf[K]
	}
	backs := []back{
		{"mapset", func(in ...K) set.Set[K] { return set.NewMapset(in...) }, func(in ...K) set.SetOf[K] { return mapset.Of(in...) }},
		{"hashset", func(in ...K) set.Set[K] { return set.NewHashset(1, g.Equals[K], hash, in...) }, func(in ...K) set.SetOf[K] { return hashset.Of(1, g.Equals[K], hash, in...) }},
	}
	of := func(m mask) (r []K) {
		for i, v := range vals {
			if m.has(i) {
				r = append(r, v)
			}
		}
		return
	}
	same := func(s set.SetOf[K], want mask) error {
		var got mask
		var err error
		visits := 0
		s.Each(func(k K) {
			visits++
			for i, v := range vals {
				if v == k {
					got |= 1 << i
					return
				}
			}
			err = errf("visits unknown %v", k)
		})
		if err != nil {
			return err
		}
		if got != want || s.Size() != visits {
			return errf("contains %v, want %v (Size %d, %d visits)", got, want, s.Size(), visits)
		}
		for i, v := range vals {
			if s.Has(v) != want.has(i) {
				return errf("contains %v, but Has(value %d) = %v", want, i, !want.has(i))
			}
		}
		return nil
	}
	return mc.Shard(4, "set/"+nm, func(cs *mc.Cases) {
		for x := mask(0); x < 1<<n; x++ {
			for y := mask(0); y < 1<<n; y++ {
				for _, b := range backs {
					for bi, o := range backs {
						if cs.Stopped() {
							return
						}
						cs.Do(name("%s %v with %s %v of %v", b.name, x, o.name, y, vals), func(t *mc.T) {
							t.Step()
							r := b.mk(of(x)...)
							for _, other := range []set.SetOf[K]{o.mk(of(y)...), o.raw(of(y)...)} {
								if preds {
									t.Step()
									got := []bool{r.Equal(other), r.IsSubset(other), r.IsSuperset(other), r.IsProperSubset(other), r.IsProperSuperset(other), r.IsDisjoint(other)}
									want := []bool{x == y, x&^y == 0, y&^x == 0, x&^y == 0 && x != y, y&^x == 0 && x != y, x&y == 0}
									if !eqSlice(got, want) {
										t.Failf("Equal,IsSubset,IsSuperset,IsProperSubset,IsProperSuperset,IsDisjoint = %v, want %v", got, want)
									}
								} else {
									for a, f := range []func(...set.SetOf[K]) set.Set[K]{r.Union, r.Intersection, r.Difference, r.SymmetricDifference} {
										t.Step()
										if err := same(f(other), algebra(a, x, y)); err != nil {
											t.Failf("%s: %v", algName[a], err)
										}
									}
									for a, f := range []func(...K) set.Set[K]{r.ConstUnion, r.ConstIntersection, r.ConstDifference, r.ConstSymmetricDifference} {
										t.Step()
										if err := same(f(of(y)...), algebra(a, x, y)); err != nil {
											t.Failf("Const%s: %v", algName[a], err)
										}
									}
									for a := 0; a < 3; a++ {
										t.Step()
										c := r.Clone()
										f := []func(...set.SetOf[K]) set.Set[K]{c.InPlaceUnion, c.InPlaceIntersection, c.InPlaceDifference}[a]
										if err := same(f(other), algebra(a, x, y)); err != nil {
											t.Failf("InPlace%s: %v", algName[a], err)
										}
										if err := same(c, algebra(a, x, y)); err != nil {
											t.Failf("receiver of InPlace%s: %v", algName[a], err)
										}
									}
								}
								if err := same(r, x); err != nil {
									t.Failf("receiver afterwards: %v", err)
								}
								if err := same(other, y); err != nil {
									t.Failf("operand afterwards: %v", err)
								}
							}
							if preds && y == 0 && bi == 0 {
								var text []string
								for _, v := range of(x) {
									text = append(text, fmt.Sprint(v))
								}
								sort.Strings(text)
								if got, want := r.String(), fmt.Sprint(text); got != want {
									t.Failf("String() = %q, want %q", got, want)
								}
								if got := maskKeys(r.Keys(), vals); got != x {
									t.Failf("Keys() = %v, want %v", got, x)
								}
								var keys []K
								for k := range r.Map() {
									keys = append(keys, k)
								}
								if got := maskKeys(keys, vals); got != x {
									t.Failf("Map() = %v, want %v", got, x)
								}
							}
							t.State(b.name, o.name, x, y)
						})
					}
				}
			}
		}
	})
}

// maskKeys maps a list of distinct values to a mask; the foreign bit marks a
// repeated or unknown one.
func maskKeys[K comparable](keys, vals []K) (m mask) {
next:
	for _, k := range keys {
		for i, v := range vals {
			if v == k && !m.has(i) {
				m |= 1 << i
				continue next
			}
		}
		m |= 1 << foreign
	}
	return
}

func typedSetJobs(th, preds bool) []mc.Job {
	type pair struct{ a, b string }
	one, two := 1, 1
	strs := []string{"a", "b c", "a b", "c", ""}
	anys := []any{1, "1", 1.0, nil, uint8(1)}
	if th {
		strs = append(strs, "A", "a b c")
		anys = append(anys, int64(1), pair{"1", ""})
	}
	return jobs(
		typedSets("strings", strs, g.HashString, preds),
		typedSets("interfaces", anys, func(v any) uint64 { return 1 }, preds),
		typedSets("structs", []pair{{"a", "b"}, {"a b", ""}, {"", "a b"}, {"a", "b "}}, func(p pair) uint64 { return g.HashString(p.a) }, preds),
		typedSets("pointers", []*int{&one, &two, nil}, func(p *int) uint64 { return 2 }, preds),
		typedSets("floats", []float64{0, 0.1, -0.1, 1e300, 1}, func(f float64) uint64 { return uint64(int64(f * 10)) }, preds),
		typedSets("booleans", []bool{false, true}, func(b bool) uint64 { return 0 }, preds),
		typedSets("empty structs", []struct{}{{}}, func(struct{}) uint64 { return 0 }, preds))
}
