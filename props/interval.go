package props

import (
	"fmt"
	"math"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/interval"
	"golang.org/x/exp/constraints"
	"verif/mc"
)

// ---- interval trees ----

// ispec: positions are ranks 0..len(pos)-1 mapped through pos (ascending).
type ispec[I constraints.Ordered] struct {
	name  string
	pos   []I
	lows  []int // ranks used as interval starts
	highs func(low int) []int
}

type iop struct {
	kind      int // 0 Add, 1 Put, 2 Remove, 3 Add inverted, 4 Put inverted
	low, high int
}

func (sp *ispec[I]) ops(bad bool) (r []iop) {
	for _, l := range sp.lows {
		for _, h := range sp.highs(l) {
			r = append(r, iop{0, l, h}, iop{1, l, h})
		}
		r = append(r, iop{2, l, 0})
	}
	if bad {
		// at starts that may be stored, and at others
		for _, l := range []int{sp.lows[0], sp.lows[len(sp.lows)/2], sp.lows[len(sp.lows)-1]} {
			if l > 0 {
				r = append(r, iop{3, l, l - 1}, iop{4, l, l - 1})
			}
			if l+1 < len(sp.pos) {
				r = append(r, iop{3, l + 1, l}, iop{4, l + 1, l})
			}
		}
	}
	return
}

type isys[I constraints.Ordered] struct {
	sp   *ispec[I]
	op   []iop
	over bool // check overlap queries
	t    *interval.Tree[I, mc.Label]
	high []int // model per position; -1 = absent
	val  []mc.Label
	next mc.Label
}

func newIsys[I constraints.Ordered](sp *ispec[I], op []iop, over bool) *isys[I] {
	s := &isys[I]{sp: sp, op: op, over: over, t: interval.New[I, mc.Label](), high: make([]int, len(sp.pos)), val: make([]mc.Label, len(sp.pos))}
	for i := range s.high {
		s.high[i] = -1
	}
	return s
}

func (s *isys[I]) name(o int) string {
	op := s.op[o]
	p := s.sp.pos
	if op.kind == 2 {
		return fmt.Sprintf("Remove(%v)", p[op.low])
	}
	return fmt.Sprintf("%s(%v,%v)", []string{"Add", "Put", "", "Add", "Put"}[op.kind], p[op.low], p[op.high])
}

func (s *isys[I]) want(low int) (interval.KV[I, mc.Label], bool) {
	if s.high[low] < 0 {
		return interval.KV[I, mc.Label]{}, false
	}
	return interval.KV[I, mc.Label]{Low: s.sp.pos[low], High: s.sp.pos[s.high[low]], Val: s.val[low]}, true
}

func (s *isys[I]) Apply(o int) (bool, error) {
	op := s.op[o]
	p := s.sp.pos
	var kv interval.KV[I, mc.Label]
	var ok bool
	w, wok := s.want(op.low)
	switch op.kind {
	case 0:
		s.next++
		kv, ok = s.t.Add(p[op.low], p[op.high], s.next)
		if !wok {
			s.high[op.low], s.val[op.low] = op.high, s.next
		}
	case 1:
		s.next++
		kv, ok = s.t.Put(p[op.low], p[op.high], s.next)
		s.high[op.low], s.val[op.low] = op.high, s.next
	case 2:
		kv, ok = s.t.Remove(p[op.low])
		s.high[op.low], s.val[op.low] = -1, 0
	case 3, 4:
		s.next++
		if !catch(func() {
			if op.kind == 3 {
				s.t.Add(p[op.low], p[op.high], s.next)
			} else {
				s.t.Put(p[op.low], p[op.high], s.next)
			}
		}) {
			return true, errf("inverted interval accepted")
		}
		return true, nil
	}
	if kv != w || ok != wok {
		return true, errf("returned %v,%v, want %v,%v", kv, ok, w, wok)
	}
	return true, nil
}

func (s *isys[I]) Observe() error {
	n := 0
	for l := range s.high {
		w, wok := s.want(l)
		if wok {
			n++
		}
		if kv, ok := s.t.Get(s.sp.pos[l]); kv != w || ok != wok {
			return errf("Get(%v) = %v,%v, want %v,%v", s.sp.pos[l], kv, ok, w, wok)
		}
	}
	if sz := s.t.Size(); sz != n {
		return errf("Size() = %d, want %d", sz, n)
	}
	i := 0
	next := func() {
		for i < len(s.high) && s.high[i] < 0 {
			i++
		}
	}
	var err error
	next()
	s.t.Each(func(low, high I, v mc.Label) {
		if err != nil {
			return
		}
		if i >= len(s.high) {
			err = errf("Each visits too many intervals: [%v,%v)", low, high)
			return
		}
		if w, _ := s.want(i); w.Low != low || w.High != high || w.Val != v {
			err = errf("Each visits [%v,%v)=%d, want %v", low, high, v, w)
		}
		i++
		next()
	})
	if err == nil && i != len(s.high) {
		err = errf("Each visits too few intervals")
	}
	if err != nil || !s.over {
		return err
	}
	for ql := range s.sp.pos {
		for qh := ql; qh < len(s.sp.pos); qh++ {
			got := s.t.Overlaps(s.sp.pos[ql], s.sp.pos[qh])
			j := 0
			for l, h := range s.high {
				if h >= 0 && l < qh && h > ql {
					w, _ := s.want(l)
					if j >= len(got) || got[j] != w {
						return errf("Overlaps(%v,%v) = %v: %v is missing or misplaced", s.sp.pos[ql], s.sp.pos[qh], got, w)
					}
					j++
				}
			}
			if j != len(got) {
				return errf("Overlaps(%v,%v) = %v has %d intervals, want %d", s.sp.pos[ql], s.sp.pos[qh], got, len(got), j)
			}
		}
	}
	return nil
}

func (s *isys[I]) Roots() []any { return []any{s.high, s.val, s.t} }

func ispace[I constraints.Ordered](sp ispec[I], over bool, depth int) []mc.Job {
	op := sp.ops(true)
	d := newIsys(&sp, op, over)
	nm := "interval/" + sp.name
	return one(&mc.Space{Name: nm, NOps: len(op), OpName: d.name, Depth: depth,
		New: func() mc.Sys { return newIsys(&sp, op, over) }})
}

// ispecs: k starts; positions 0..2k (even ones are starts, odd ones between),
// with the given selection of upper ends.
func ilat[I constraints.Ordered](name string, k int, conv func(i int) I, highs func(k, low int) []int) ispec[I] {
	sp := ispec[I]{name: fmt.Sprintf("%s%d", name, k)}
	for i := 0; i <= 2*k+1; i++ {
		sp.pos = append(sp.pos, conv(i))
	}
	for i := 0; i < k; i++ {
		sp.lows = append(sp.lows, 2*i+1)
	}
	sp.highs = func(low int) (r []int) {
		last := -1
		for _, h := range highs(k, low) {
			if h > last && h < len(sp.pos) {
				r = append(r, h)
				last = h
			}
		}
		return
	}
	return sp
}

func hAll(k, low int) (r []int) {
	for h := low; h <= 2*k+1; h++ {
		r = append(r, h)
	}
	return
}
func hTwo(k, low int) []int   { return []int{low + 1, 2 * k} }
func hThree(k, low int) []int { return []int{low, low + 2, 2*k - low/2} }
func hOne(k, low int) []int   { return []int{low + 1 + (low*5)%7} }

func cint(i int) int       { return i - 3 }
func cfloat(i int) float64 { return float64(i-3) / 4 }
func cstring(i int) string {
	return []string{"", "\x00", "a", "a\x00", "aa", "ab", "b", "ba", "c", "d", "\xff", "\xff\xff"}[i]
}
func cuint8(i int) uint8 { return []uint8{0, 1, 2, 3, 127, 128, 253, 254, 255, 255}[i] }
func cint64(i int) int64 {
	return []int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, math.MaxInt64 - 1, math.MaxInt64}[i]
}

// extremes: all positions of a type's range are starts, including its ends.
func iext[I constraints.Ordered](name string, n int, conv func(int) I) ispec[I] {
	sp := ispec[I]{name: name}
	for i := 0; i < n; i++ {
		sp.pos = append(sp.pos, conv(i))
	}
	for i := 0; i < n; i += 2 {
		sp.lows = append(sp.lows, i)
	}
	sp.highs = func(low int) (r []int) {
		for _, h := range []int{low, low + 1, n - 1} {
			if h < n && (len(r) == 0 || h > r[len(r)-1]) {
				r = append(r, h)
			}
		}
		return
	}
	return sp
}

// isweep: large trees.
func isweep(shards int, sizes []int, over bool) []mc.Job {
	widths := []struct {
		name string
		w    func(i, n int) int
	}{
		{"short", func(i, n int) int { return 3 }},
		{"mixed", func(i, n int) int { return (i * 37) % 50 }},
		{"one-long", func(i, n int) int { return cond(i == n/3, 20*n, 2) }},
		{"nested", func(i, n int) int { return 8 * (n - i) }},
		{"empty", func(i, n int) int { return cond(i%3 == 0, 0, 9) }},
	}
	return mc.Shard(shards, "interval/sweep", func(cs *mc.Cases) {
		for _, n := range sizes {
			for pi, ins := range patterns {
				for qi, del := range patterns {
					if n > 12 && (pi+qi)%2 == 1 {
						continue
					}
					for wi, wd := range widths {
						if n > 40 && (pi+qi+wi)%3 != 0 {
							continue
						}
						cs.Do(name("n=%d insert %s (%s), replace, remove %s", n, ins.name, wd.name, del.name), func(t *mc.T) {
							tr := interval.New[int, int]()
							hi := map[int]int{} // low -> high
							va := map[int]int{}
							check := func(full bool, at int) {
								if sz := tr.Size(); sz != len(hi) && full {
									t.Failf("Size() = %d, want %d", sz, len(hi))
								}
								var lows []int
								for l := 0; l < 4*n; l += 4 {
									if _, ok := hi[l]; ok {
										lows = append(lows, l)
									}
								}
								i := 0
								if full {
									tr.Each(func(l, h, v int) {
										if i >= len(lows) || lows[i] != l || hi[l] != h || va[l] != v {
											t.Failf("Each visits [%d,%d)=%d at %d", l, h, v, i)
										}
										i++
									})
									if i != len(lows) {
										t.Failf("Each visits %d intervals, want %d", i, len(lows))
									}
								}
								for _, l := range []int{at, at + 4, at - 4, at + 1} {
									kv, ok := tr.Get(l)
									h, wok := hi[l]
									if ok != wok || wok && (kv.Low != l || kv.High != h || kv.Val != va[l]) {
										t.Failf("Get(%d) = %v,%v, want %d,%v", l, kv, ok, h, wok)
									}
								}
								if !over {
									return
								}
								q := func(ql, qh int) {
									got := tr.Overlaps(ql, qh)
									j := 0
									for _, l := range lows {
										if l < qh && hi[l] > ql {
											if j >= len(got) || got[j].Low != l || got[j].High != hi[l] || got[j].Val != va[l] {
												t.Failf("Overlaps(%d,%d) = %v: [%d,%d) is missing or misplaced", ql, qh, got, l, hi[l])
											}
											j++
										}
									}
									if j != len(got) {
										t.Failf("Overlaps(%d,%d) returns %d intervals, want %d", ql, qh, len(got), j)
									}
								}
								q(at, at+1)
								q(at+2, at+7)
								q(hi[at], hi[at]+1)
								q(hi[at]-1, hi[at])
								if full {
									st := 1 + n/12
									for a := -1; a < 4*n+60; a += st {
										q(a, a+1)
										q(a, a+st+3)
										q(a, a)
									}
									q(-1, 100*n)
								}
							}
							c := 0
							ev := 1 + n/8
							put := func(l, h, v int, over bool) {
								t.Step()
								var kv interval.KV[int, int]
								var ok bool
								oh, wok := hi[l]
								ov := va[l]
								if over {
									kv, ok = tr.Put(l, h, v)
								} else {
									kv, ok = tr.Add(l, h, v)
								}
								if ok != wok || wok && (kv.Low != l || kv.High != oh || kv.Val != ov) {
									t.Failf("Put/Add(%d,%d) = %v,%v, want %v", l, h, kv, ok, wok)
								}
								if over || !wok {
									hi[l], va[l] = h, v
								}
								c++
								check(c%ev == 0, l)
							}
							remove := func(l int) {
								t.Step()
								oh, wok := hi[l]
								kv, ok := tr.Remove(l)
								if ok != wok || wok && (kv.Low != l || kv.High != oh || kv.Val != va[l]) {
									t.Failf("Remove(%d) = %v,%v, want %v", l, kv, ok, wok)
								}
								delete(hi, l)
								delete(va, l)
								c++
								check(c%ev == 0, l)
							}
							for _, i := range ins.perm(n) {
								put(4*i, 4*i+wd.w(i, n), i, i%2 == 0)
							}
							check(true, 0)
							for k, i := range del.perm(n) {
								if k%3 == 0 {
									put(4*i, 4*i+1, -i, true) // shrink
								} else if k%3 == 1 {
									put(4*i, 4*i+30, -i, true) // extend
								} else {
									put(4*i, 4*i+90, -i, false) // refused
								}
								remove(4*((i+n/2)%n) + 1) // absent
								remove(4 * i)
							}
							check(true, 0)
							for _, i := range del.perm(n) {
								put(4*i, 4*i+wd.w(n-i, n), i, false)
							}
							check(true, 0)
							t.State(n, pi, qi, wi)
						})
					}
				}
			}
		}
	})
}

// ---- balance ----

type ivBal struct{ t *interval.Tree[int, int] }

func newIntervalBal() balanced { return &ivBal{interval.New[int, int]()} }

func (b *ivBal) put(k int) {
	if k%2 == 0 {
		b.t.Put(k, k+(k+5)%5, k)
	} else {
		b.t.Add(k, k+(k+7)%7, k)
	}
}
func (b *ivBal) remove(k int) { b.t.Remove(k) }
func (b *ivBal) get(k int)    { b.t.Get(k) }
func (b *ivBal) height() int  { return b.t.Height() }
func (b *ivBal) calls() int   { return -1 }
func (b *ivBal) tree() any    { return b.t }

type ivOmap struct{ t *interval.Tree[int, int] }

func (o ivOmap) Put(k, v int) { o.t.Put(k, k+1, v) }
func (o ivOmap) Get(k int) (int, bool) {
	kv, ok := o.t.Get(k)
	return kv.Val, ok
}
func (o ivOmap) Remove(k int)          { o.t.Remove(k) }
func (o ivOmap) Each(f func(k, v int)) { o.t.Each(func(l, h, v int) { f(l, v) }) }
func (o ivOmap) Size() int             { return o.t.Size() }

func intervalHeightSpace(k int) []mc.Job {
	return ospace("interval-height", intKeys(k), 1, 0, func(g.LessFn[int]) omap[int] { return ivOmap{interval.New[int, int]()} },
		func(t omap[int], n int) error {
			tr := t.(ivOmap).t
			return heightOK(tr.Height(), n, tr)
		})
}

func init() {
	const asm = "positions are totally ordered (no NaN); at most k distinct starts for arbitrary histories"
	reg(&mc.Property{ID: "I01",
		Rule:        "all add/put/remove histories to fixpoint over k starts and the listed upper ends (empty, short, long and inverted intervals), values compared up to renaming; plus every size x pattern family; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, asm},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				ispace(ilat("int-all", pick(th, 3, 4), cint, hAll), false, 0),
				ispace(ilat("int-three", pick(th, 5, 6), cint, hThree), false, 0),
				ispace(ilat("int-one", pick(th, 8, 11), cint, hOne), false, 0),
				ispace(ilat("float", 4, cfloat, hThree), false, 0),
				ispace(ilat("string", 4, cstring, hThree), false, 0),
				ispace(iext("uint8-range", 9, cuint8), false, 0),
				ispace(iext("int64-range", 7, cint64), false, 0),
				isweep(8, append(rangeInts(1, pick(th, 24, 60), 1), pick(th, []int{33, 100, 300}, []int{100, 200, 500, 1500})...), false),
				intervalShapes(pick(th, 7, 9), pick(th, []int{15, 31}, []int{15, 31, 63, 90}), false),
				typedKeyed(th, "interval"),
				largeKeyed("interval", largeSizes(th), lInterval(false)),
			)
		}})
	reg(&mc.Property{ID: "I02",
		Rule:        "in every state reachable by add/put/remove histories (to fixpoint) over k starts and the listed upper ends, every query range over all positions is compared with direct evaluation; plus every size x pattern family with a grid of queries; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, asm},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				ispace(ilat("int-all", pick(th, 3, 4), cint, hAll), true, 0),
				ispace(ilat("int-three", 5, cint, hThree), true, 0),
				ispace(ilat("int-two", pick(th, 6, 8), cint, hTwo), true, 0),
				ispace(ilat("int-one", pick(th, 8, 10), cint, hOne), true, 0),
				ispace(ilat("float", 4, cfloat, hThree), true, 0),
				ispace(ilat("string", 4, cstring, hThree), true, 0),
				ispace(iext("uint8-range", 9, cuint8), true, 0),
				ispace(iext("int64-range", 7, cint64), true, 0),
				isweep(8, append(rangeInts(1, pick(th, 24, 60), 1), pick(th, []int{33, 100, 300}, []int{100, 200, 500, 1500})...), true),
				intervalShapes(pick(th, 7, 9), pick(th, []int{15, 31}, []int{15, 31, 63, 90}), true),
				typedKeyed(th, "interval"),
				largeKeyed("interval", largeSizes(th), lInterval(true)),
			)
		}})
}
