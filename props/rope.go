package props

import (
	"fmt"

	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/rope"
	"verif/mc"
)

// ---- ropes ----

type L = mc.Label

type ropeCfg struct {
	split, join int
	ratio       float64
	init        int // initial length
}

func (c ropeCfg) String() string {
	return fmt.Sprintf("split%d,join%d,ratio%v,len%d", c.split, c.join, c.ratio, c.init)
}

// given is a slice handed to the implementation, embedded in a larger array so
// that writes outside of it are noticed as well.
type given struct {
	buf, want []L
}

func newGiven(n, spare int, next *L) *given {
	g := &given{buf: make([]L, n+spare)}
	for i := range g.buf {
		if i < n {
			*next++
			g.buf[i] = *next
		} else {
			g.buf[i] = -1
		}
	}
	g.want = append([]L{}, g.buf...)
	return g
}

func (g *given) slice(n int) []L { return g.buf[:n] }
func (g *given) check() error {
	if !eqSlice(g.buf, g.want) {
		return errf("a slice passed in by the caller was modified: %v -> %v", g.want, g.buf)
	}
	return nil
}

type rkind int

const (
	rInsert rkind = iota
	rRemove
	rAlias // insert a slice obtained from the same rope
	rAliasValue
	rSplit
	rJoin
	rJoin3
	rRebuild
	rRebalance
	rConcatSelf
)

type rop struct {
	kind rkind
	slot int
	a, b int // position, length/end
	c    int
	dst  int
}

func (o rop) String() string {
	switch o.kind {
	case rInsert:
		return fmt.Sprintf("Insert(r%d,%d,%d new)", o.slot, o.a, o.b)
	case rRemove:
		return fmt.Sprintf("Remove(r%d,%d,%d)", o.slot, o.a, o.b)
	case rAlias:
		return fmt.Sprintf("InsertOwnSlice(r%d,at %d,[%d:%d])", o.slot, o.a, o.b, o.c)
	case rAliasValue:
		return fmt.Sprintf("InsertOwnValue(r%d,at %d)", o.slot, o.a)
	case rSplit:
		return fmt.Sprintf("SplitAt(r%d,%d)->r%d", o.slot, o.a, o.dst)
	case rJoin:
		return fmt.Sprintf("Join(r%d,r%d)->r%d", o.slot, o.a, o.dst)
	case rJoin3:
		return fmt.Sprintf("Join(r%d,r%d,r%d)->r%d", o.slot, o.a, o.b, o.dst)
	case rRebuild:
		return fmt.Sprintf("Rebuild(r%d)", o.slot)
	case rRebalance:
		return fmt.Sprintf("Rebalance(r%d)", o.slot)
	}
	return "?"
}

func insertAt[T any](s []T, pos int, v []T) []T {
	r := make([]T, 0, len(s)+len(v))
	r = append(append(append(r, s[:pos]...), v...), s[pos:]...)
	return r
}

func removeAt(s []L, a, b int) []L {
	r := make([]L, 0, len(s)-(b-a))
	return append(append(r, s[:a]...), s[b:]...)
}

// observeSeq compares Len, At, Slice and Value of a (persistent) rope with the
// model.
func observeSeq(nm string, m []L, length int, at func(int) L, slice func(a, b int) []L, value func() []L) error {
	if length != len(m) {
		return errf("%s.Len() = %d, want %d", nm, length, len(m))
	}
	if v := value(); !eqSlice(v, m) {
		return errf("%s.Value() = %v, want %v", nm, v, m)
	}
	for i := range m {
		if v := at(i); v != m[i] {
			return errf("%s.At(%d) = %v, want %v (content %v)", nm, i, v, m[i], m)
		}
	}
	for a := 0; a <= len(m); a++ {
		for b := a; b <= len(m); b++ {
			if v := slice(a, b); !eqSlice(v, m[a:b]) {
				return errf("%s.Slice(%d,%d) = %v, want %v (content %v)", nm, a, b, v, m[a:b], m)
			}
		}
	}
	return nil
}

type ropeSys struct {
	ops   []rop
	max   int
	slot  []*rope.Node[L]
	model [][]L
	next  L
}

func newRopeSys(ops []rop, slots, max int, c ropeCfg) *ropeSys {
	rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = c.split, c.join, c.ratio
	s := &ropeSys{ops: ops, max: max, slot: make([]*rope.Node[L], slots), model: make([][]L, slots)}
	b := make([]L, c.init)
	for i := range b {
		s.next++
		b[i] = s.next
	}
	s.model[0] = append([]L{}, b...)
	s.slot[0] = rope.New(b)
	return s
}

func (s *ropeSys) total() (n int) {
	for _, m := range s.model {
		n += len(m)
	}
	return
}

func (s *ropeSys) Apply(op int) (bool, error) {
	o := s.ops[op]
	r := s.slot[o.slot]
	m := s.model[o.slot]
	if r == nil {
		return false, nil
	}
	switch o.kind {
	case rInsert:
		if o.a > len(m) || s.total()+o.b > s.max {
			return false, nil
		}
		g := newGiven(o.b, 2, &s.next)
		r.Insert(o.a, g.slice(o.b))
		s.model[o.slot] = insertAt(m, o.a, g.want[:o.b])
		if err := g.check(); err != nil {
			return true, err
		}
		for i := range g.buf { // must not be retained
			g.buf[i] = -7
		}
	case rRemove:
		if o.b > len(m) {
			return false, nil
		}
		r.Remove(o.a, o.b)
		s.model[o.slot] = removeAt(m, o.a, o.b)
	case rAlias:
		if o.a > len(m) || o.c > len(m) || s.total()+o.c-o.b > s.max {
			return false, nil
		}
		r.Insert(o.a, r.Slice(o.b, o.c))
		s.model[o.slot] = insertAt(m, o.a, append([]L{}, m[o.b:o.c]...))
	case rAliasValue:
		if o.a > len(m) || s.total()+len(m) > s.max {
			return false, nil
		}
		r.Insert(o.a, r.Value())
		s.model[o.slot] = insertAt(m, o.a, append([]L{}, m...))
	case rSplit:
		if o.a > len(m) || s.slot[o.dst] != nil {
			return false, nil
		}
		s.slot[o.slot], s.slot[o.dst] = r.SplitAt(o.a)
		s.model[o.slot], s.model[o.dst] = append([]L{}, m[:o.a]...), append([]L{}, m[o.a:]...)
	case rJoin:
		q := s.slot[o.a]
		if q == nil {
			return false, nil
		}
		j := rope.Join(r, q)
		mm := insertAt(m, len(m), s.model[o.a])
		s.slot[o.slot], s.slot[o.a] = nil, nil
		s.model[o.slot], s.model[o.a] = nil, nil
		s.slot[o.dst], s.model[o.dst] = j, mm
	case rJoin3:
		q, p := s.slot[o.a], s.slot[o.b]
		if q == nil || p == nil {
			return false, nil
		}
		j := rope.Join(r, q, p)
		mm := insertAt(m, len(m), s.model[o.a])
		mm = insertAt(mm, len(mm), s.model[o.b])
		for i := range s.slot {
			s.slot[i], s.model[i] = nil, nil
		}
		s.slot[o.dst], s.model[o.dst] = j, mm
	case rRebuild:
		r.Rebuild()
	case rRebalance:
		r.Rebalance()
	}
	return true, nil
}

func (s *ropeSys) Observe() error {
	for i, r := range s.slot {
		if r == nil {
			continue
		}
		m := s.model[i]
		if err := observeSeq(fmt.Sprintf("r%d", i), m, r.Len(), r.At, r.Slice, r.Value); err != nil {
			return err
		}
		var cat []L
		r.Each(func(n *rope.Node[L]) {
			v := n.Value()
			if n.Len() != len(v) {
				panic(failf("leaf Len() = %d but Value() has %d elements", n.Len(), len(v)))
			}
			cat = append(cat, v...)
		})
		if !eqSlice(cat, m) {
			return errf("r%d.Each: leaves hold %v, want %v", i, cat, m)
		}
	}
	return nil
}

func (s *ropeSys) Roots() []any {
	r := []any{s.model}
	for _, n := range s.slot {
		r = append(r, n)
	}
	return r
}

func failf(f string, a ...any) error { return errf(f, a...) }

// ropeOps: all operations on ropes of at most max elements.
func editOps(slot, max, maxIns int) (r []rop) {
	for p := 0; p <= max; p++ {
		for n := 0; n <= maxIns; n++ {
			if p+n <= max || n == 1 {
				r = append(r, rop{kind: rInsert, slot: slot, a: p, b: n})
			}
		}
	}
	for a := 0; a <= max; a++ {
		for b := a; b <= max; b++ {
			if b > a || a == 0 || a == max/2 {
				r = append(r, rop{kind: rRemove, slot: slot, a: a, b: b})
			}
		}
	}
	return
}

func aliasOps(slot, max int) (r []rop) {
	for p := 0; p <= max; p++ {
		for a := 0; a <= max; a++ {
			for b := a + 1; b <= max; b++ {
				r = append(r, rop{kind: rAlias, slot: slot, a: p, b: a, c: b})
			}
		}
		r = append(r, rop{kind: rAliasValue, slot: slot, a: p})
	}
	return
}

func structOps(slots, max int) (r []rop) {
	for s := 0; s < slots; s++ {
		r = append(r, rop{kind: rRebuild, slot: s}, rop{kind: rRebalance, slot: s})
		for d := 0; d < slots; d++ {
			if d == s {
				continue
			}
			for p := 0; p <= max; p++ {
				r = append(r, rop{kind: rSplit, slot: s, a: p, dst: d})
			}
			r = append(r, rop{kind: rJoin, slot: s, a: d, dst: 0})
		}
	}
	if slots == 3 {
		r = append(r, rop{kind: rJoin3, slot: 0, a: 1, b: 2, dst: 0}, rop{kind: rJoin3, slot: 2, a: 0, b: 1, dst: 0})
	}
	return
}

var ropeLens = [][2]int{{1, 0}, {2, 0}, {2, 1}, {3, 1}, {3, 2}, {4, 2}, {4, 3}, {5, 2}, {6, 3}, {8, 4}}

func ropeCfgs(lens [][2]int, ratios []float64, inits []int) (c []ropeCfg, names []string) {
	for _, l := range lens {
		for _, r := range ratios {
			for _, i := range inits {
				cf := ropeCfg{l[0], l[1], r, i}
				c = append(c, cf)
				names = append(names, cf.String())
			}
		}
	}
	return
}

func ropeSpaces(nm string, shards int, lens [][2]int, ratios []float64, inits []int, slots, max, depth int, ops []rop) []mc.Job {
	cfgs, names := ropeCfgs(lens, ratios, inits)
	return fewRepeats(mc.Configs(shards, nm, names, len(ops), func(o int) string { return ops[o].String() }, depth,
		func(i int) mc.Sys { return newRopeSys(ops, slots, max, cfgs[i]) }), ops)
}

// ---- persistent ropes ----

// propeSys keeps versions in slots. Operations create a version from one slot
// into another (or the same) one.
type propeSys struct {
	ops    []rop
	max    int
	grow   bool // new versions are appended, none is ever dropped
	slot   []*prope.Node[L]
	model  [][]L
	given  []*given
	next   L
	frozen bool
}

func newPropeSys(ops []rop, slots, max int, c ropeCfg, grow bool) *propeSys {
	prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = c.split, c.join, c.ratio
	s := &propeSys{ops: ops, max: max, grow: grow, slot: make([]*prope.Node[L], slots), model: make([][]L, slots)}
	g := newGiven(c.init, 3, &s.next)
	s.given = append(s.given, g)
	s.model[0] = append([]L{}, g.want[:c.init]...)
	s.slot[0] = prope.New(g.slice(c.init))
	return s
}

func (s *propeSys) set(d int, n *prope.Node[L], m []L) {
	s.slot[d], s.model[d] = n, m
}

func (s *propeSys) Apply(op int) (bool, error) {
	o := s.ops[op]
	r := s.slot[o.slot]
	m := s.model[o.slot]
	if r == nil {
		return false, nil
	}
	d := o.dst
	free := func() bool { // in grow mode results go to the next free slots
		if !s.grow {
			return d == 0 || s.slot[d-1] != nil
		}
		for d = 0; d < len(s.slot) && s.slot[d] != nil; d++ {
		}
		return d < len(s.slot)
	}
	switch o.kind {
	case rInsert:
		if o.a > len(m) || len(m)+o.b > s.max || !free() {
			return false, nil
		}
		g := newGiven(o.b, 3, &s.next)
		n := r.Insert(o.a, g.slice(o.b))
		s.given = append(s.given, g)
		s.set(d, n, insertAt(m, o.a, g.want[:o.b]))
	case rRemove:
		if o.b > len(m) || !free() {
			return false, nil
		}
		s.set(d, r.Remove(o.a, o.b), removeAt(m, o.a, o.b))
	case rSplit:
		if o.a > len(m) || !free() {
			return false, nil
		}
		e := o.b
		if s.grow {
			e = d + 1
		} else if e > 1 && s.slot[e-1] == nil && e-1 != d {
			return false, nil
		}
		if e >= len(s.slot) {
			return false, nil
		}
		x, y := r.SplitAt(o.a)
		s.set(d, x, append([]L{}, m[:o.a]...))
		s.set(e, y, append([]L{}, m[o.a:]...))
	case rJoin:
		q := s.slot[o.a]
		if q == nil || len(m)+len(s.model[o.a]) > s.max || !free() {
			return false, nil
		}
		s.set(d, prope.Join(r, q), insertAt(m, len(m), s.model[o.a]))
	case rJoin3:
		q, p := s.slot[o.a], s.slot[o.b]
		if q == nil || p == nil || len(m)+len(s.model[o.a])+len(s.model[o.b]) > s.max || !free() {
			return false, nil
		}
		mm := insertAt(m, len(m), s.model[o.a])
		s.set(d, prope.Join(r, q, p), insertAt(mm, len(mm), s.model[o.b]))
	case rRebuild:
		r.Rebuild()
	case rRebalance:
		r.Rebalance()
	}
	return true, nil
}

func (s *propeSys) Observe() error {
	for i, r := range s.slot {
		if r == nil {
			continue
		}
		scribble := func(v []L) []L {
			c := append([]L{}, v...)
			v = v[:cap(v)]
			for i := range v {
				v[i] = -9
			}
			return c
		}
		err := observeSeq(fmt.Sprintf("v%d", i), s.model[i], r.Len(), r.At,
			func(a, b int) []L { return scribble(r.Slice(a, b)) },
			func() []L { return scribble(r.Value()) })
		if err != nil {
			return err
		}
	}
	for _, g := range s.given {
		if err := g.check(); err != nil {
			return err
		}
	}
	return nil
}

func (s *propeSys) Roots() []any {
	r := []any{s.model}
	for _, n := range s.slot {
		r = append(r, n)
	}
	return r
}

// propeOps: edits from each slot into each slot.
func propeOps(slots, max, maxIns int, grow bool) (r []rop) {
	dsts := slots
	if grow {
		dsts = 1
	}
	for s := 0; s < slots; s++ {
		for d := 0; d < dsts; d++ {
			for p := 0; p <= max; p++ {
				for n := 1; n <= maxIns; n++ {
					r = append(r, rop{kind: rInsert, slot: s, a: p, b: n, dst: d})
				}
				for b := p + 1; b <= max; b++ {
					r = append(r, rop{kind: rRemove, slot: s, a: p, b: b, dst: d})
				}
			}
			r = append(r, rop{kind: rInsert, slot: s, a: 0, b: 0, dst: d}, rop{kind: rRemove, slot: s, a: 0, b: 0, dst: d})
			for q := 0; q < slots; q++ {
				r = append(r, rop{kind: rJoin, slot: s, a: q, dst: d})
			}
			for e := 0; e < slots; e++ {
				if e == d || grow && e > 1 {
					continue
				}
				if grow && e != 1 {
					continue
				}
				for p := 0; p <= max; p++ {
					r = append(r, rop{kind: rSplit, slot: s, a: p, b: e, dst: d})
				}
			}
		}
		r = append(r, rop{kind: rRebuild, slot: s}, rop{kind: rRebalance, slot: s})
	}
	if slots >= 3 {
		r = append(r, rop{kind: rJoin3, slot: 0, a: 1, b: 2, dst: 0}, rop{kind: rJoin3, slot: 1, a: 1, b: 0, dst: 2})
	}
	return
}

func propeSpaces(nm string, shards int, lens [][2]int, ratios []float64, inits []int, slots, max, depth int, grow bool, ops []rop) []mc.Job {
	cfgs, names := ropeCfgs(lens, ratios, inits)
	return fewRepeats(mc.Configs(shards, nm, names, len(ops), func(o int) string { return ops[o].String() }, depth,
		func(i int) mc.Sys { return newPropeSys(ops, slots, max, cfgs[i], grow) }), ops)
}

// ---- large ropes ----

type bigRope interface {
	insert(pos int, v []L)
	remove(a, b int)
	length() int
	at(i int) L
	slice(a, b int) []L
	value() []L
	splitJoin(i int, swap bool)
	rebuild()
	rebalance()
	selfInsert(pos, a, b int)
}

type bigR struct{ n *rope.Node[L] }

func (b *bigR) insert(p int, v []L)    { b.n.Insert(p, v) }
func (b *bigR) remove(x, y int)        { b.n.Remove(x, y) }
func (b *bigR) length() int            { return b.n.Len() }
func (b *bigR) at(i int) L             { return b.n.At(i) }
func (b *bigR) slice(x, y int) []L     { return b.n.Slice(x, y) }
func (b *bigR) value() []L             { return b.n.Value() }
func (b *bigR) rebuild()               { b.n.Rebuild() }
func (b *bigR) rebalance()             { b.n.Rebalance() }
func (b *bigR) selfInsert(p, x, y int) { b.n.Insert(p, b.n.Slice(x, y)) }
func (b *bigR) splitJoin(i int, swap bool) {
	l, r := b.n.SplitAt(i)
	if swap {
		l, r = r, l
	}
	b.n = rope.Join(l, r)
}

type bigP struct {
	n    *prope.Node[L]
	vers []*prope.Node[L]
	want [][]L

	edits int
}

func (b *bigP) keep() {
	b.edits++
	if b.edits <= 60 || b.edits%61 == 0 {
		b.vers = append(b.vers, b.n)
		b.want = append(b.want, b.n.Value())
	}
}
func (b *bigP) insert(p int, v []L)    { b.keep(); b.n = b.n.Insert(p, v) }
func (b *bigP) remove(x, y int)        { b.keep(); b.n = b.n.Remove(x, y) }
func (b *bigP) length() int            { return b.n.Len() }
func (b *bigP) at(i int) L             { return b.n.At(i) }
func (b *bigP) slice(x, y int) []L     { return b.n.Slice(x, y) }
func (b *bigP) value() []L             { return b.n.Value() }
func (b *bigP) rebuild()               { b.keep(); b.n.Rebuild() }
func (b *bigP) rebalance()             { b.keep(); b.n.Rebalance() }
func (b *bigP) selfInsert(p, x, y int) { b.keep(); b.n = b.n.Insert(p, b.n.Slice(x, y)) }
func (b *bigP) splitJoin(i int, swap bool) {
	b.keep()
	l, r := b.n.SplitAt(i)
	if swap {
		l, r = r, l
	}
	b.n = prope.Join(l, r)
}

// ropeSweep: long deterministic edit scripts on large ropes with the default
// and other settings. parts: include split/join/rebuild/rebalance.
func ropeSweep(nm string, shards int, persistent, parts bool, cfgs []ropeCfg, steps int) []mc.Job {
	type script struct {
		name string
		at   func(i, n int) int
	}
	scripts := []script{
		{"end", func(i, n int) int { return n }},
		{"front", func(i, n int) int { return 0 }},
		{"middle", func(i, n int) int { return n / 2 }},
		{"stride", func(i, n int) int { return i * 7919 % (n + 1) }},
		{"alternate", func(i, n int) int { return cond(i%2 == 0, 0, n) }},
	}
	return mc.Shard(shards, nm, func(cs *mc.Cases) {
		for _, cf := range cfgs {
			for _, sc := range scripts {
				for _, dl := range scripts {
					for _, blk := range []int{1, cf.split/3 + 1, cf.split + 1} {
						if blk > cf.init/2+8 {
							continue
						}
						cs.Do(name("%v: insert at %s, remove at %s, blocks of %d", cf, sc.name, dl.name, blk), func(t *mc.T) {
							var next L
							first := make([]L, cf.init)
							for i := range first {
								next++
								first[i] = next
							}
							m := append([]L{}, first...)
							var b bigRope
							if persistent {
								prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = cf.split, cf.join, cf.ratio
								b = &bigP{n: prope.New(first)}
							} else {
								rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = cf.split, cf.join, cf.ratio
								b = &bigR{n: rope.New(first)}
							}
							check := func(full bool, p int) {
								if n := b.length(); n != len(m) {
									t.Failf("Len() = %d, want %d", n, len(m))
								}
								for _, i := range []int{p - 1, p, p + blk, 0, len(m) - 1} {
									if i >= 0 && i < len(m) {
										if v := b.at(i); v != m[i] {
											t.Failf("At(%d) = %v, want %v (len %d)", i, v, m[i], len(m))
										}
									}
								}
								a, e := max(0, p-blk-2), min(len(m), p+2*blk+2)
								if v := b.slice(a, e); !eqSlice(v, m[a:e]) {
									t.Failf("Slice(%d,%d) differs (len %d)", a, e, len(m))
								}
								if full {
									if v := b.value(); !eqSlice(v, m) {
										t.Failf("Value() differs from the plain array of %d elements", len(m))
									}
									if v := b.slice(0, len(m)); !eqSlice(v, m) {
										t.Failf("Slice(0,%d) differs", len(m))
									}
								}
							}
							v := make([]L, blk)
							for i := 0; i < steps; i++ {
								t.Step()
								p := sc.at(i, len(m))
								for j := range v {
									next++
									v[j] = next
								}
								b.insert(p, v)
								m = insertAt(m, p, v)
								for j := range v {
									v[j] = -7
								}
								check(i%8 == 0, p)
								if i%3 == 1 {
									a := dl.at(i*3+1, len(m))
									e := min(len(m), a+2*blk-1)
									a = max(0, e-2*blk+1)
									b.remove(a, e)
									m = removeAt(m, a, e)
									check(i%8 == 1, a)
								}
								if i%7 == 3 && len(m) < 3*cf.init+20*blk {
									a := dl.at(i, len(m)) / 2
									e := min(len(m), a+blk+1)
									p := sc.at(i+1, len(m))
									b.selfInsert(p, a, e)
									m = insertAt(m, p, append([]L{}, m[a:e]...))
									check(true, p)
								}
								if parts {
									if i%5 == 2 {
										c := dl.at(i, len(m))
										swap := i%2 == 0
										b.splitJoin(c, swap)
										if swap {
											m = append(append([]L{}, m[c:]...), m[:c]...)
										}
										check(true, c)
									}
									if i%9 == 4 {
										b.rebalance()
										check(true, p)
									}
									if i%13 == 6 {
										b.rebuild()
										check(true, p)
									}
								}
							}
							for len(m) > 0 { // drain
								t.Step()
								k := min(len(m), max(blk, len(m)/6))
								a := min(dl.at(len(m), len(m)), len(m)-k)
								e := a + k
								b.remove(a, e)
								m = removeAt(m, a, e)
								check(len(m) < 20, a)
							}
							b.insert(0, []L{1, 2})
							m = []L{1, 2}
							check(true, 0)
							if p, ok := b.(*bigP); ok {
								for i, n := range p.vers {
									if !eqSlice(n.Value(), p.want[i]) || n.Len() != len(p.want[i]) {
										t.Failf("version %d changed later", i)
									}
								}
							}
							t.State(cf, sc.name, dl.name, blk)
						})
					}
				}
			}
		}
	})
}

// joinMany: joining any number of ropes of every combination of lengths, then
// every single edit of the result.
func joinMany(nm string, shards int, persistent bool, lens []int, maxK, long int) []mc.Job {
	cfgs := []ropeCfg{{1, 0, 1.2, 0}, {2, 1, 1.2, 0}, {4, 2, 1.2, 0}, {4, 3, 1.2, 0}, {16, 8, 1.2, 0}}
	return mc.Shard(shards, nm, func(cs *mc.Cases) {
		run := func(cf ropeCfg, parts []int) {
			parts = append([]int{}, parts...)
			total := 0
			for _, l := range parts {
				total += l
			}
			cs.Do(name("%v: join parts of lengths %v", cf, parts), func(t *mc.T) {
				// edit -1: none; then an insertion or deletion at each position
				for e := -1; e < 2*total+1; e++ {
					t.Step()
					var next L
					var m []L
					var ms [][]L
					for _, l := range parts {
						p := make([]L, l)
						for i := range p {
							next++
							p[i] = next
						}
						m = append(m, p...)
						ms = append(ms, append([]L{}, p...))
					}
					var b bigRope
					var pp []*prope.Node[L]
					if persistent {
						prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = cf.split, cf.join, cf.ratio
						for _, x := range ms {
							pp = append(pp, prope.New(append([]L{}, x...)))
						}
						b = &bigP{n: prope.Join(pp...)}
					} else {
						rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = cf.split, cf.join, cf.ratio
						var rr []*rope.Node[L]
						for _, x := range ms {
							rr = append(rr, rope.New(append([]L{}, x...)))
						}
						b = &bigR{n: rope.Join(rr[0], rr[1], rr[2:]...)}
					}
					switch {
					case e < 0:
					case e <= total:
						b.insert(e, []L{-1, -2})
						m = insertAt(m, e, []L{-1, -2})
					default:
						i := e - total - 1
						b.remove(i, min(total, i+2))
						m = removeAt(m, i, min(total, i+2))
					}
					if total <= 24 {
						if err := observeSeq("joined", m, b.length(), b.at, b.slice, b.value); err != nil {
							t.Failf("edit %d: %v", e, err)
						}
					} else if v := b.value(); !eqSlice(v, m) || b.length() != len(m) {
						t.Failf("edit %d: Value() = %v (Len %d), want %v", e, v, b.length(), m)
					}
					for i, n := range pp {
						if v := n.Value(); !eqSlice(v, ms[i]) {
							t.Failf("edit %d: part %d became %v, was %v", e, i, v, ms[i])
						}
					}
				}
				t.State(cf, fmt.Sprint(parts))
			})
		}
		for _, cf := range cfgs {
			from := cond(persistent, 0, 2)
			for k := from; k <= maxK; k++ {
				if k == 0 {
					run(cf, nil)
					continue
				}
				tuples(k, len(lens), func(tp []int) {
					parts := make([]int, k)
					for i, x := range tp {
						parts[i] = lens[x]
					}
					run(cf, parts)
				})
			}
			for k := maxK + 1; k <= long; k++ {
				for l := 0; l < 4; l++ {
					run(cf, gen(k, func(i int) int { return cond(l == 3, i%4, l) }))
				}
			}
		}
	})
}

func init() {
	defaults := []ropeCfg{{4096 * 4, 2048 * 4, 1.2, 16384}, {4096 * 4, 2048 * 4, 1.2, 40000}, {256, 128, 1.5, 257}, {256, 128, 1.5, 3000}}
	small := []ropeCfg{{1, 0, 1.2, 5}, {2, 1, 1.2, 9}, {3, 1, 2, 20}, {7, 3, 1.5, 60}, {16, 8, 1.2, 100}, {16, 15, 1.2, 40}}
	const asm = "elements are data-independent; ropes of at most the stated length for arbitrary histories"
	reg(&mc.Property{ID: "R01",
		Rule:        "for every listed split/join setting and initial length: all histories of insertions (new slices and slices obtained from the rope itself) and range deletions at all positions, to the stated depth and length; all Len/At/Slice/Value/Each observations in every state; plus long edit scripts on large ropes with default settings; plus insertions and deletions of many thresholds' length with the default settings",
		Assumptions: []string{stdAssume, asm, "a rope owns the slice it was constructed from (documented)"},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				typedSeq(th, "rope"),
				hugeRopes("rope/huge", false, false, th),
				ropeSweep("rope/large", 8, false, false, pick(th, defaults[1:3], defaults), pick(th, 12, 40)),
				ropeSweep("rope/scripts", 8, false, false, small, pick(th, 60, 200)),
				ropeSweep("rope/long-scripts", 8, false, false, []ropeCfg{small[1], small[4]}, pick(th, 1000, 5000)),
				ropeSpaces("rope/edit-small", 8, ropeLens[:5], []float64{1.2}, []int{0, 3}, 1, 4, pick(th, 5, 7), append(editOps(0, 4, 2), aliasOps(0, 2)...)),
				ropeSpaces("rope/edit-deep", 8, ropeLens, []float64{1.2}, []int{0, 1, 2, 3, 5, 8}, 1, 9, pick(th, 3, 4), append(editOps(0, 9, pick(th, 2, 4)), aliasOps(0, pick(th, 2, 4))...)),
			)
		}})
	reg(&mc.Property{ID: "R02",
		Rule:        "up to 3 ropes: all histories of splitting at every position, joining 2 or 3 ropes in any order, rebuilding, rebalancing and editing the parts, for every listed setting, to the stated depth and total length; joins of up to k ropes of every combination of lengths, each followed by every single edit; plus long scripts on large ropes; plus insertions and deletions of many thresholds' length with the default settings",
		Assumptions: []string{stdAssume, asm, "splitting or joining consumes the operand ropes (the package shares nodes; the documentation promises no more)"},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				typedSeq(th, "rope"),
				hugeRopes("rope/huge-parts", false, true, th),
				ropeSweep("rope/large-parts", 8, false, true, pick(th, defaults[1:3], defaults), pick(th, 12, 40)),
				ropeSweep("rope/scripts-parts", 8, false, true, small, pick(th, 60, 200)),
				ropeSweep("rope/long-scripts-parts", 8, false, true, []ropeCfg{small[1], small[4]}, pick(th, 1000, 5000)),
				joinMany("rope/join-many", 8, false, []int{0, 1, 3}, pick(th, 5, 7), pick(th, 40, 140)),
				ropeSpaces("rope/parts-small", 8, ropeLens[:4], []float64{1.2}, []int{2, 3}, 2, 4, pick(th, 6, 8), jobsOps(editOps(0, 3, 1), editOps(1, 3, 1), structOps(2, 3))),
				ropeSpaces("rope/parts-deep", 8, ropeLens, []float64{1, 1.2, 3}, []int{1, 4, 7, 10}, 3, 11, pick(th, 2, 3), jobsOps(editOps(0, 10, 1), editOps(1, 6, 1), editOps(2, 4, 1), structOps(3, 10))),
				ropeSpaces("rope/struct-deep", 8, ropeLens, []float64{1.2}, []int{5, 9}, 3, 10, pick(th, 4, 6), jobsOps(structOps(3, pick(th, 5, 9)), []rop{{kind: rInsert, slot: 0, a: 1, b: 1}, {kind: rInsert, slot: 1, a: 0, b: 1}, {kind: rRemove, slot: 0, a: 0, b: 1}, {kind: rRemove, slot: 1, a: 1, b: 2}})),
			)
		}})
	reg(&mc.Property{ID: "R03",
		Rule:        "for every listed split/join setting and initial length: all histories of insertions, range deletions, splits at every position, joins, rebuilds and rebalances on up to 2 current versions, to the stated depth and length; all Len/At/Slice/Value observations in every state; joins of up to k ropes of every combination of lengths, each followed by every single edit; plus long edit scripts on large ropes; plus insertions and deletions of many thresholds' length with the default settings",
		Assumptions: []string{stdAssume, asm},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				typedSeq(th, "prope"),
				hugeRopes("prope/huge-parts", true, true, th),
				ropeSweep("prope/large", 8, true, true, pick(th, defaults[2:], defaults), pick(th, 20, 60)),
				ropeSweep("prope/scripts", 8, true, true, small, pick(th, 60, 200)),
				ropeSweep("prope/long-scripts", 8, true, true, []ropeCfg{small[1], small[4]}, pick(th, 1000, 5000)),
				joinMany("prope/join-many", 8, true, []int{0, 1, 3}, pick(th, 5, 7), pick(th, 40, 140)),
				propeSpaces("prope/edit-small", 8, ropeLens[:5], []float64{1.5}, []int{0, 3}, 1, 5, pick(th, 6, 8), false, append(editOps(0, 5, 2), structOps(1, 0)...)),
				propeSpaces("prope/edit-deep", 8, ropeLens, []float64{1.5}, []int{0, 1, 3, 5, 8}, 1, 9, pick(th, 3, 4), false, append(editOps(0, 9, pick(th, 2, 4)), structOps(1, 0)...)),
				propeSpaces("prope/parts", 8, ropeLens, []float64{1, 1.5, 3}, []int{2, 5, 9}, 2, 12, pick(th, 2, 3), false, propeOps(2, pick(th, 9, 9), 1, false)),
			)
		}})
	reg(&mc.Property{ID: "R04",
		Rule:        "version trees: every operation is applied to any earlier version, all versions are kept (up to the stated number) and all are compared after every step, with every slice returned by a read overwritten and every slice passed in (with spare capacity behind it) compared; plus up to 3 versions with replacement, deeper; plus insertions and deletions of many thresholds' length with the default settings; plus versions made by every kind of edit, used by every kind of edit after n edits elsewhere, for n around 256 and 65536",
		Assumptions: []string{stdAssume, asm},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				typedSeq(th, "prope"),
				hugeRopes("prope/huge-versions", true, true, th),
				propeEpochs(th),
				ropeSweep("prope/scripts-versions", 4, true, true, small, pick(th, 40, 120)),
				propeSpaces("prope/tree", 8, pick(th, ropeLens[1:6], ropeLens), []float64{1.2}, []int{3, 6}, 6, 8, pick(th, 3, 4), true, propeOps(6, 7, pick(th, 1, 2), true)),
				propeSpaces("prope/tree-deep", 8, [][2]int{{2, 1}, {3, 2}, {4, 2}}, []float64{1.2}, []int{2}, 6, 4, pick(th, 4, 5), true, propeOps(6, 4, 1, true)),
				propeSpaces("prope/versions", 8, [][2]int{{1, 0}, {2, 1}, {3, 1}, {4, 2}}, []float64{1.2}, []int{1, 3}, 2, 3, pick(th, 4, 6), false, propeOps(2, 3, 1, false)),
				propeSpaces("prope/3versions", 8, [][2]int{{2, 1}, {3, 1}, {4, 2}}, []float64{1.2}, []int{3}, 3, 4, pick(th, 3, 4), false, propeOps(3, 3, 1, false)),
			)
		}})
}

func jobsOps(o ...[]rop) (r []rop) {
	for _, x := range o {
		r = append(r, x...)
	}
	return
}

// propeEpochs: a version is made, many edits are made elsewhere, then the
// version is used: counts of edits (per rope or overall) must not matter. Every
// history "make by op1 - n edits of another version - op2" for n around the
// sizes of 8 and 16 bit counters.
func propeEpochs(th bool) []mc.Job {
	type edit struct {
		name string
		f    func(p *prope.Node[L], m []L, v L) (*prope.Node[L], []L)
	}
	var edits []edit
	for _, at := range []int{0, 50, 99, 100} {
		at := at
		edits = append(edits, edit{fmt.Sprintf("Insert at %d%%", at), func(p *prope.Node[L], m []L, v L) (*prope.Node[L], []L) {
			i := len(m) * at / 100
			return p.Insert(i, []L{v}), insertAt(m, i, []L{v})
		}})
	}
	for _, at := range []int{0, 50, 99} {
		at := at
		edits = append(edits, edit{fmt.Sprintf("Remove at %d%%", at), func(p *prope.Node[L], m []L, v L) (*prope.Node[L], []L) {
			i := len(m) * at / 100
			return p.Remove(i, i+1), removeAt(m, i, i+1)
		}})
	}
	edits = append(edits,
		edit{"Join of the parts of SplitAt", func(p *prope.Node[L], m []L, v L) (*prope.Node[L], []L) {
			x, y := p.SplitAt(len(m) / 3)
			return prope.Join(y, x), append(append([]L{}, m[len(m)/3:]...), m[:len(m)/3]...)
		}},
		edit{"Join with another", func(p *prope.Node[L], m []L, v L) (*prope.Node[L], []L) {
			return prope.Join(p, prope.New([]L{v})), insertAt(m, len(m), []L{v})
		}},
		edit{"SplitAt, second part", func(p *prope.Node[L], m []L, v L) (*prope.Node[L], []L) {
			_, y := p.SplitAt(len(m) / 3)
			return y, append([]L{}, m[len(m)/3:]...)
		}},
		edit{"SplitAt, first part", func(p *prope.Node[L], m []L, v L) (*prope.Node[L], []L) {
			y, _ := p.SplitAt(len(m) * 2 / 3)
			return y, append([]L{}, m[:len(m)*2/3]...)
		}},
		edit{"Rebuild", func(p *prope.Node[L], m []L, v L) (*prope.Node[L], []L) { p.Rebuild(); return p, m }},
		edit{"Rebalance", func(p *prope.Node[L], m []L, v L) (*prope.Node[L], []L) { p.Rebalance(); return p, m }})
	fillers := edits[:0:0]
	for i, e := range edits {
		if i == 0 || i == 4 || i == 7 || i == 8 || th && i < 11 {
			fillers = append(fillers, e)
		}
	}
	return mc.Shard(8, "prope/epochs", func(cs *mc.Cases) {
		type version struct {
			p *prope.Node[L]
			m []L
		}
		body := func(fill edit, run func(t *mc.T, fresh func() L, mk func() version, filler func(n int), same func(v version, what string))) func(t *mc.T) {
			return func(t *mc.T) {
				prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = 3, 1, 1.2
				var next L
				fresh := func() L { next++; return next }
				mk := func() version {
					m := make([]L, 8)
					for i := range m {
						m[i] = fresh()
					}
					p, m := edits[1].f(prope.New(append([]L{}, m...)), m, fresh())
					return version{p, m}
				}
				other := mk()
				same := func(v version, what string) {
					t.Step()
					if got := v.p.Value(); !eqSlice(got, v.m) || v.p.Len() != len(v.m) {
						t.Failf("%s: a version that holds %v holds %v (length %d)", what, v.m, got, v.p.Len())
					}
				}
				run(t, fresh, mk, func(n int) {
					for ; n > 0; n-- {
						if n%64 == 0 {
							t.Step()
						}
						fill.f(other.p, other.m, fresh())
					}
				}, same)
				same(other, "in the end, the version edited elsewhere")
			}
		}
		for _, e1 := range edits {
			for _, e2 := range edits {
				for fi, fill := range fillers {
					e1, e2 := e1, e2
					what := fmt.Sprintf("%s, then %s elsewhere, then %s", e1.name, fill.name, e2.name)
					// every small number, and those around 256
					cs.Do(name("%s: up to 262 times", what), body(fill, func(t *mc.T, fresh func() L, mk func() version, filler func(n int), same func(v version, what string)) {
						for n := 0; n <= 262; n++ {
							if n > 20 && n < 120 || n > 132 && n < 248 {
								continue
							}
							v := mk()
							p1, m1 := e1.f(v.p, v.m, fresh())
							w := version{p1, m1}
							filler(n)
							p2, m2 := e2.f(w.p, w.m, fresh())
							x := version{p2, m2}
							what := fmt.Sprintf("%d times", n)
							same(x, what+", result")
							same(w, what)
							same(v, what)
							p3, m3 := edits[0].f(x.p, x.m, fresh())
							same(version{p3, m3}, what+", and an insertion")
							same(x, what+", and an insertion")
							same(w, what+", and an insertion")
						}
						t.State(e1.name, e2.name, fill.name)
					}))
					// Around 65536: one run serves 32 versions. The schedules
					// are such that their distances from making to use take
					// every value around 65536, whichever of the operations
					// count.
					if fi > 0 && !th {
						continue
					}
					cs.Do(name("%s: around 65536 times", what), body(fill, func(t *mc.T, fresh func() L, mk func() version, filler func(n int), same func(v version, what string)) {
						for _, gap := range [][2]int{{0, 0}, {1, 0}, {0, 1}} {
							for _, f := range []int{16, 47, 78} {
								var vs []version
								for k := 0; k < 32; k++ {
									v := mk()
									vs = append(vs, v)
								}
								ws := make([]version, 32)
								for k, v := range vs {
									ws[k].p, ws[k].m = e1.f(v.p, v.m, fresh())
									filler(gap[0])
								}
								filler(65536 - f)
								for k, w := range ws {
									p2, m2 := e2.f(w.p, w.m, fresh())
									filler(gap[1])
									what := fmt.Sprintf("version %d", k)
									same(version{p2, m2}, what+", result")
									same(w, what)
									same(vs[k], what+", origin")
								}
							}
						}
						t.State(e1.name, e2.name, fill.name, "wide")
					}))
				}
			}
		}
	})
}

// fewRepeats: a rope joined with itself again and again doubles its tree, even
// when it is empty.
func fewRepeats(js []mc.Job, ops []rop) []mc.Job {
	for _, j := range js {
		j.(*mc.Space).NoLoop = func(o int) bool { return ops[o].kind == rJoin || ops[o].kind == rJoin3 }
	}
	return js
}
