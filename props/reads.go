package props

import (
	"fmt"

	"verif/mc"
)

// Single reads: every observer on its own, so that code which remembers
// something about the last of them is explored with each of them last. What
// they return is not looked at here: Observe does that, in the same state.

var (
	_ mc.Reader = (*osys[int])(nil)
	_ mc.Reader = (*bpre)(nil)
	_ mc.Reader = (*hfam[int])(nil)
	_ mc.Reader = (*family)(nil)
	_ mc.Reader = (*bsys)(nil)
	_ mc.Reader = (*isys[int])(nil)
	_ mc.Reader = (*tsys)(nil)
	_ mc.Reader = (*xsys)(nil)
	_ mc.Reader = (*csys)(nil)
	_ mc.Reader = (*hsys)(nil)
	_ mc.Reader = (*usys)(nil)
	_ mc.Reader = (*setsys)(nil)
	_ mc.Reader = (*arrsys)(nil)
	_ mc.Reader = (*ropeSys)(nil)
	_ mc.Reader = (*propeSys)(nil)
	_ mc.Reader = leafSys{}
)

func two(a, b any) any { return [2]any{a, b} }

// sum: how many and which, in any order.
type sum struct{ n, all int }

func (s *sum) add(i int) { s.n++; s.all += i + 7*i*i }

func sumOf(a []int) (s sum) {
	for _, x := range a {
		s.add(x)
	}
	return
}

// menu: numbered reads in groups; do is called with the group and the number
// within it.
func menu(i int, sizes ...int) (group, k int) {
	for g, n := range sizes {
		if i < n {
			return g, i
		}
		i -= n
	}
	panic("no such read")
}

// ---- ordered maps ----

func (s *osys[K]) NReads() int { return 2 + len(s.ks.keys) + min(len(s.ks.probe), 2) }
func (s *osys[K]) Read(i int) any {
	switch g, k := menu(i, 1, 1, len(s.ks.keys), 2); g {
	case 0:
		return s.t.Size()
	case 1:
		var r []int
		s.t.Each(func(_ K, v int) { r = append(r, v) })
		return r
	case 2:
		return two(s.t.Get(s.ks.keys[k]))
	default:
		return two(s.t.Get(s.ks.probe[k]))
	}
}
func (s *osys[K]) ReadName(i int) string {
	switch g, k := menu(i, 1, 1, len(s.ks.keys), 2); g {
	case 2:
		return fmt.Sprintf("Get(%v)", s.ks.keys[k])
	case 3:
		return fmt.Sprintf("Get(%v)", s.ks.probe[k])
	default:
		return []string{"Size()", "Each"}[g]
	}
}

func (s *bpre) NReads() int { return 2 + len(s.keys) }
func (s *bpre) Read(i int) any {
	switch g, k := menu(i, 1, 1, len(s.keys)); g {
	case 0:
		return s.t.Size()
	case 1:
		var r sum
		s.t.Each(func(k, v int) { r.add(k); r.add(v) })
		return r
	default:
		return two(s.t.Get(s.keys[k]))
	}
}
func (s *bpre) ReadName(i int) string {
	g, k := menu(i, 1, 1, len(s.keys))
	return []string{"Size()", "Each", fmt.Sprintf("Get(%v)", s.keys[k])}[g]
}

// ---- hash maps and sets ----

func (f *hfam[K]) per() int    { return 2 + len(f.cfg.keys) + min(len(f.cfg.probe), 1) }
func (f *hfam[K]) NReads() int { return len(f.slot) * f.per() }
func (f *hfam[K]) Read(i int) any {
	m := f.slot[i/f.per()]
	if m == nil {
		return nil
	}
	switch g, k := menu(i%f.per(), 1, 1, len(f.cfg.keys), 1); g {
	case 0:
		return m.size()
	case 1:
		var r sum
		m.each(func(_ K, v mc.Label) { r.add(int(v)) })
		return r
	case 2:
		return two(m.get(f.cfg.keys[k]))
	default:
		return two(m.get(f.cfg.probe[k]))
	}
}
func (f *hfam[K]) ReadName(i int) string {
	g, k := menu(i%f.per(), 1, 1, len(f.cfg.keys), 1)
	nm := "Size()"
	switch g {
	case 1:
		nm = "Each"
	case 2:
		nm = fmt.Sprintf("Get(%v)", f.cfg.keys[k])
	case 3:
		nm = fmt.Sprintf("Get(%v)", f.cfg.probe[k])
	}
	return fmt.Sprintf("m%d.%s", i/f.per(), nm)
}

// ---- objects ----

// robject is an object with single reads.
type robject interface {
	nreads() int
	read(i int) any
	readName(i int) string
}

func (f *family) reads() int {
	if o, ok := f.slot[0].(robject); ok {
		return o.nreads()
	}
	return 0
}
func (f *family) NReads() int { return len(f.slot) * f.reads() }
func (f *family) Read(i int) any {
	if o, ok := f.slot[i/f.reads()].(robject); ok {
		return o.read(i % f.reads())
	}
	return nil
}
func (f *family) ReadName(i int) string {
	return fmt.Sprintf("c%d.%s", i/f.reads(), f.slot[0].(robject).readName(i%f.reads()))
}

func (o *bobj) nreads() int { return 2 + 4*o.n }
func (o *bobj) read(i int) any {
	switch g, k := menu(i, 1, 1, o.n, o.n, o.n, o.n); g {
	case 0:
		return o.b.Len()
	case 1:
		var r sum
		o.b.Each(func(k, v int) { r.add(100*k + v) })
		return r
	case 2:
		return two(o.b.GetForward(k))
	case 3:
		return two(o.b.GetReverse(bval(k)))
	case 4:
		return o.b.ContainsForward(k)
	default:
		return o.b.ContainsReverse(bval(k))
	}
}
func (o *bobj) readName(i int) string {
	g, k := menu(i, 1, 1, o.n, o.n, o.n, o.n)
	return []string{"Len()", "Each", fmt.Sprintf("GetForward(%d)", k), fmt.Sprintf("GetReverse(%d)", bval(k)),
		fmt.Sprintf("ContainsForward(%d)", k), fmt.Sprintf("ContainsReverse(%d)", bval(k))}[g]
}
func (s *bsys) NReads() int           { return s.nreads() }
func (s *bsys) Read(i int) any        { return s.read(i) }
func (s *bsys) ReadName(i int) string { return s.readName(i) }

func (o *setobj) nreads() int { return 2 + o.n }
func (o *setobj) read(i int) any {
	switch g, k := menu(i, 1, 1, o.n); g {
	case 0:
		return o.s.Size()
	case 1:
		var r sum
		o.s.Each(r.add)
		return r
	default:
		return o.s.Has(k)
	}
}
func (o *setobj) readName(i int) string {
	g, k := menu(i, 1, 1, o.n)
	return []string{"Size()", "Each", fmt.Sprintf("Has(%d)", k)}[g]
}

func (o *qobj) nreads() int { return 6 }
func (o *qobj) read(i int) any {
	switch i {
	case 0:
		return o.q.Len()
	case 1:
		return o.q.Empty()
	case 2:
		return two(o.q.TryPeek())
	case 3:
		if len(o.m) > 0 {
			return o.q.Peek()
		}
		return nil
	case 4:
		return o.q.PeekAll()
	default:
		var r []L
		o.q.Each(func(v L) { r = append(r, v) })
		return r
	}
}
func (o *qobj) readName(i int) string {
	return []string{"Len()", "Empty()", "TryPeek()", "Peek()", "PeekAll()", "Each"}[i]
}

func (o *sobj) nreads() int { return 2 }
func (o *sobj) read(i int) any {
	if i == 0 {
		return o.s.Size()
	}
	return o.s.Peek()
}
func (o *sobj) readName(i int) string { return []string{"Size()", "Peek()"}[i] }

func (o *aobj) nreads() int { return o.w*o.h + o.h + 1 }
func (o *aobj) read(i int) any {
	switch g, k := menu(i, o.w*o.h, o.h, 1); g {
	case 0:
		return o.a.Get(k%o.w, k/o.w)
	case 1:
		return o.a.Row(k)
	default:
		return o.a.String()
	}
}
func (o *aobj) readName(i int) string {
	switch g, k := menu(i, o.w*o.h, o.h, 1); g {
	case 0:
		return fmt.Sprintf("Get(%d,%d)", k%o.w, k/o.w)
	case 1:
		return fmt.Sprintf("Row(%d)", k)
	}
	return "String()"
}

func (s *arrsys) NReads() int { return s.w*s.h + s.h*s.w*s.w + s.h + 1 }
func (s *arrsys) Read(i int) any {
	switch g, k := menu(i, s.w*s.h, s.h*s.w*s.w, s.h, 1); g {
	case 0:
		return s.a.Get(k%s.w, k/s.w)
	case 1:
		return s.a.RowSpan(k%s.w, k/s.w%s.w, k/s.w/s.w)
	case 2:
		return s.a.Row(k)
	default:
		return s.a.String()
	}
}
func (s *arrsys) ReadName(i int) string {
	switch g, k := menu(i, s.w*s.h, s.h*s.w*s.w, s.h, 1); g {
	case 0:
		return fmt.Sprintf("Get(%d,%d)", k%s.w, k/s.w)
	case 1:
		return fmt.Sprintf("RowSpan(%d,%d,%d)", k%s.w, k/s.w%s.w, k/s.w/s.w)
	case 2:
		return fmt.Sprintf("Row(%d)", k)
	}
	return "String()"
}

// ---- intervals ----

func (s *isys[I]) sizes() (n, q int) {
	n = len(s.sp.pos)
	if s.over {
		q = n * (n + 1) / 2
	}
	return
}

// query i is one of the ranges [pos[l],pos[h]] with l <= h.
func (s *isys[I]) query(i int) (l, h int) {
	n := len(s.sp.pos)
	for l = 0; i >= n-l; l++ {
		i -= n - l
	}
	return l, l + i
}
func (s *isys[I]) NReads() int { n, q := s.sizes(); return 2 + n + q }
func (s *isys[I]) Read(i int) any {
	n, q := s.sizes()
	switch g, k := menu(i, 1, 1, n, q); g {
	case 0:
		return s.t.Size()
	case 1:
		var r []mc.Label
		s.t.Each(func(_, _ I, v mc.Label) { r = append(r, v) })
		return r
	case 2:
		return two(s.t.Get(s.sp.pos[k]))
	default:
		l, h := s.query(k)
		return s.t.Overlaps(s.sp.pos[l], s.sp.pos[h])
	}
}
func (s *isys[I]) ReadName(i int) string {
	n, q := s.sizes()
	switch g, k := menu(i, 1, 1, n, q); g {
	case 0:
		return "Size()"
	case 1:
		return "Each"
	case 2:
		return fmt.Sprintf("Get(%v)", s.sp.pos[k])
	default:
		l, h := s.query(k)
		return fmt.Sprintf("Overlaps(%v,%v)", s.sp.pos[l], s.sp.pos[h])
	}
}

// ---- tries ----

func (s *tsys) words() (r [3][]string) { return [3][]string{s.sp.keys, s.sp.extra, s.sp.probe} }
func (s *tsys) word(i int) string {
	w := s.words()
	g, k := menu(i, len(w[0]), len(w[1]), len(w[2]))
	return w[g][k]
}
func (s *tsys) kinds() (n, words int) {
	w := s.words()
	return 2, len(w[0]) + len(w[1]) + len(w[2])
}
func (s *tsys) NReads() int { n, w := s.kinds(); return 1 + n*w }
func (s *tsys) Read(i int) any {
	n, w := s.kinds()
	if i == n*w {
		if s.list {
			return s.t.Keys()
		}
		return s.t.Size()
	}
	k := s.word(i % w)
	switch {
	case s.list && i < w:
		return s.t.KeysWithPrefix(k)
	case s.list:
		return s.t.LongestPrefix(k)
	case i < w:
		return two(s.t.Get(k))
	default:
		return s.t.Contains(k)
	}
}
func (s *tsys) ReadName(i int) string {
	n, w := s.kinds()
	if i == n*w {
		return cond(s.list, "Keys()", "Size()")
	}
	nm := []string{"Get", "Contains", "KeysWithPrefix", "LongestPrefix"}[i/w+cond(s.list, 2, 0)]
	return fmt.Sprintf("%s(%q)", nm, s.word(i%w))
}

// ---- multimaps ----

func (s *xsys) NReads() int { return 4 + 3*s.keys }
func (s *xsys) Read(i int) any {
	switch g, k := menu(i, 1, 1, 1, 1, s.keys, s.keys, s.keys); g {
	case 0:
		return s.m.Size()
	case 1:
		return s.m.Dimension()
	case 2:
		var r sum
		s.m.Each(func(k, v int) { r.add(10*k + v) })
		return r
	case 3:
		var r sum
		s.m.EachAssociation(func(k int, vs []int) { r.add(1000*k + sumOf(vs).all) })
		return r
	case 4:
		return sumOf(s.m.Get(k))
	case 5:
		return s.m.Count(k)
	default:
		return s.m.Has(k)
	}
}
func (s *xsys) ReadName(i int) string {
	g, k := menu(i, 1, 1, 1, 1, s.keys, s.keys, s.keys)
	if g < 4 {
		return []string{"Size()", "Dimension()", "Each", "EachAssociation"}[g]
	}
	return fmt.Sprintf("%s(%d)", []string{"Get", "Count", "Has"}[g-4], k)
}

// ---- caches: a lookup is no mere read ----

func (s *csys) NReads() int { return 3 }
func (s *csys) Read(i int) any {
	switch i {
	case 0:
		return s.c.Size()
	case 1:
		return s.c.Capacity()
	default:
		var r []int
		s.c.Each(func(k int, v L) { r = append(r, k, int(v)); guardLen(len(r), 6*len(s.m)+20) })
		return r
	}
}
func (s *csys) ReadName(i int) string { return []string{"Size()", "Capacity()", "Each"}[i] }

// ---- heaps ----

func (s *hsys) NReads() int { return 2 }
func (s *hsys) Read(i int) any {
	if i == 0 {
		return s.h.Size()
	}
	e, ok := s.h.Peek() // one of the least
	return two(e.K, ok)
}
func (s *hsys) ReadName(i int) string { return []string{"Size()", "Peek()"}[i] }

// ---- unrolled lists ----

func (s *usys) NReads() int { return 5 }
func (s *usys) Read(i int) any {
	var r []L
	switch i {
	case 0:
		return s.ul.Size()
	case 1:
		for it := s.ul.Begin(); it.IsValid(); it.Next() {
			r = append(r, it.Get())
			guardLen(len(r), len(s.m)+10)
		}
	case 2:
		for it := s.ul.End(); it.IsValid(); it.Prev() {
			r = append(r, it.Get())
			guardLen(len(r), len(s.m)+10)
		}
	case 3:
		return s.ul.Begin().IsValid()
	default:
		return s.ul.End().IsValid()
	}
	return r
}
func (s *usys) ReadName(i int) string {
	return []string{"Size()", "walk forward", "walk backward", "Begin()", "End()"}[i]
}

// ---- sets ----

func (s *setsys) NReads() int {
	n := len(s.s) * (2 + s.n)
	if s.preds {
		n += 3 * len(s.s) * len(s.s)
	}
	return n
}
func (s *setsys) Read(i int) any {
	n := len(s.s)
	switch g, k := menu(i, n, n, n*s.n, 3*n*n); g {
	case 0:
		return s.s[k].Size()
	case 1:
		var r sum
		s.s[k].Each(r.add)
		return r
	case 2:
		return s.s[k/s.n].Has(k % s.n)
	default:
		a, b := s.s[k/3/n], s.operand(k/3%n)
		switch k % 3 {
		case 0:
			return a.Equal(b)
		case 1:
			return a.IsSubset(b)
		default:
			return a.IsSuperset(b)
		}
	}
}
func (s *setsys) ReadName(i int) string {
	n := len(s.s)
	switch g, k := menu(i, n, n, n*s.n, 3*n*n); g {
	case 0:
		return fmt.Sprintf("s%d.Size()", k)
	case 1:
		return fmt.Sprintf("s%d.Each", k)
	case 2:
		return fmt.Sprintf("s%d.Has(%d)", k/s.n, k%s.n)
	default:
		return fmt.Sprintf("s%d.%s(s%d)", k/3/n, []string{"Equal", "IsSubset", "IsSuperset"}[k%3], k/3%n)
	}
}

// ---- ropes ----

const ropeReads = 8 // Len, Value, the middle as a slice, At of the first, second, middle and last two

func readRope(i, n int, length func() int, at func(int) L, slice func(a, b int) []L, value func() []L) any {
	pos := func(p int) any {
		if p >= 0 && p < n {
			return at(p)
		}
		return nil
	}
	switch i {
	case 0:
		return length()
	case 1:
		return value()
	case 2:
		return slice(n/3, n-n/3)
	case 3:
		return pos(0)
	case 4:
		return pos(1)
	case 5:
		return pos(n / 2)
	case 6:
		return pos(n - 2)
	default:
		return pos(n - 1)
	}
}

func ropeReadName(i int) string {
	return fmt.Sprintf("r%d.%s", i/ropeReads, []string{"Len()", "Value()", "Slice(of the middle)", "At(0)", "At(1)", "At(middle)", "At(last but one)", "At(last)"}[i%ropeReads])
}

func (s *ropeSys) NReads() int { return len(s.slot) * ropeReads }
func (s *ropeSys) Read(i int) any {
	if r := s.slot[i/ropeReads]; r != nil {
		return readRope(i%ropeReads, len(s.model[i/ropeReads]), r.Len, r.At, r.Slice, r.Value)
	}
	return nil
}
func (s *ropeSys) ReadName(i int) string { return ropeReadName(i) }

func (s *propeSys) NReads() int { return len(s.slot) * ropeReads }
func (s *propeSys) Read(i int) any {
	if r := s.slot[i/ropeReads]; r != nil {
		return readRope(i%ropeReads, len(s.model[i/ropeReads]), r.Len, r.At, r.Slice, r.Value)
	}
	return nil
}
func (s *propeSys) ReadName(i int) string { return ropeReadName(i) }
