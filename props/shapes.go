package props

import (
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/interval"

	g "github.com/zyedidia/generic"

	"verif/mc"
)

// Trees of given shapes (sparsest trees of a height, leaning to either side or
// alternating, and the results of insertion patterns) with every single step
// from each: behaviour that needs a deep successor, or a rotation or an
// augmented field at a certain height.

type shape struct {
	name string
	keys []int // in insertion order, multiples of 2
}

func shapes(maxH int, sizes []int) (r []shape) {
	for h := 2; h <= maxH; h++ {
		for lean := 0; lean < 4; lean++ {
			k := sparseShape(h, h+1, lean)
			r = append(r, shape{name("sparse height %d lean %d", h, lean)(), k})
		}
	}
	for _, n := range sizes {
		for _, p := range patterns {
			var ks []int
			for _, k := range p.perm(n) {
				ks = append(ks, 2*k)
			}
			r = append(r, shape{name("%d keys inserted %s", n, p.name)(), ks})
		}
	}
	return
}

// avlShapes: every single put and remove from every shape, and removing two.
func avlShapes(maxH int, sizes []int) []mc.Job {
	return mc.Shard(8, "avl/shapes", func(cs *mc.Cases) {
		for _, sh := range shapes(maxH, sizes) {
			sh := sh
			n := len(sh.keys)
			for k := -1; k <= 2*n; k++ {
				if cs.Stopped() {
					return
				}
				k := k
				cs.Do(name("%s; step at %d, then next to it", sh.name, k), func(t *mc.T) {
					for _, second := range []int{0, -2, 2, 4, -4, 2 * (n / 2), -1, 1} {
						tr := avl.New[int, int](g.Less[int])
						m := map[int]int{}
						for i, x := range sh.keys {
							tr.Put(x, i)
							m[x] = i
						}
						step := func(k int) {
							t.Step()
							if _, ok := m[k]; ok {
								tr.Remove(k)
								delete(m, k)
							} else {
								tr.Put(k, -k)
								m[k] = -k
							}
						}
						step(k)
						if second != 0 {
							step(cond(second%2 == 0 && second > 4, second, k+second))
						}
						prev, c := -1<<30, 0
						tr.Each(func(k, v int) {
							if w, ok := m[k]; !ok || w != v || k <= prev {
								t.Failf("Each visits %d=%d after %d", k, v, prev)
							}
							prev = k
							c++
						})
						if c != len(m) || tr.Size() != c {
							t.Failf("Each visits %d entries, Size() = %d, want %d", c, tr.Size(), len(m))
						}
						for k := -6; k <= 2*n+6; k++ {
							v, ok := tr.Get(k)
							w, wok := m[k]
							if ok != wok || wok && v != w {
								t.Failf("Get(%d) = %d,%v, want %d,%v", k, v, ok, w, wok)
							}
						}
						t.State(sh.name, k, second)
					}
				})
			}
		}
	})
}

// intervalShapes: one interval reaches far, the others are short; every
// single removal, replacement and insertion; queries find it exactly while it
// is there, and its neighbours.
func intervalShapes(maxH int, sizes []int, over bool) []mc.Job {
	return mc.Shard(8, cond(over, "interval/shapes-queries", "interval/shapes"), func(cs *mc.Cases) {
		for _, sh := range shapes(maxH, sizes) {
			sh := sh
			n := len(sh.keys)
			far := 2*n + 10
			for long := 0; long < n; long++ {
				if cs.Stopped() {
					return
				}
				long := 2 * long
				cs.Do(name("%s; interval at %d reaches far; every step", sh.name, long), func(t *mc.T) {
					hi := make([]int, 2*n+8)
					for k := -1; k <= 2*n; k++ {
						for _, how := range []int{0, 1, 2} { // remove/insert, replace by short, replace by long
							tr := interval.New[int, int]()
							for i := range hi {
								hi[i] = -1
							}
							for _, x := range sh.keys {
								h := x + 1
								if x == long {
									h = far
								}
								tr.Put(x, h, x)
								hi[x] = h
							}
							t.Step()
							sz := n
							has := k >= 0 && hi[k] >= 0
							if how > 0 && (!has || how == 1 && k != long) {
								continue
							}
							var kv interval.KV[int, int]
							var ok bool
							was := interval.KV[int, int]{}
							if has {
								was = interval.KV[int, int]{Low: k, High: hi[k], Val: k}
							}
							switch {
							case how == 2:
								kv, ok = tr.Put(k, far+5, k)
								hi[k] = far + 5
							case how == 1:
								kv, ok = tr.Put(k, k+1, k)
								hi[k] = k + 1
							case has:
								kv, ok = tr.Remove(k)
								hi[k] = -1
								sz--
							case k < 0: // at the far left, reaching beyond all
								kv, ok = tr.Add(k, far+7, k)
								sz++
							default:
								kv, ok = tr.Add(k, far+7, k)
								hi[k] = far + 7
								sz++
							}
							if ok != has || kv != was {
								t.Failf("the step at %d returns %v,%v, want %v,%v", k, kv, ok, was, has)
							}
							left := how == 0 && k < 0
							if !over {
								if tr.Size() != sz {
									t.Failf("Size() = %d, want %d", tr.Size(), sz)
								}
								prev, c := -10, 0
								tr.Each(func(l, h, v int) {
									if l <= prev || v != l || l >= 0 && hi[l] != h || l < 0 && !left {
										t.Failf("Each visits [%d,%d)=%d after %d", l, h, v, prev)
									}
									prev = l
									c++
								})
								if c != sz {
									t.Failf("Each visits %d, want %d", c, sz)
								}
								for x := 0; x <= 2*n; x++ {
									kv, ok := tr.Get(x)
									if ok != (hi[x] >= 0) || ok && (kv.Low != x || kv.High != hi[x] || kv.Val != x) {
										t.Failf("Get(%d) = %v,%v", x, kv, ok)
									}
								}
								continue
							}
							q := func(a, b int) {
								got := tr.Overlaps(a, b)
								i := 0
								want := func(l, h int) {
									if i >= len(got) || got[i] != (interval.KV[int, int]{Low: l, High: h, Val: l}) {
										t.Failf("Overlaps(%d,%d) = %v, misses [%d,%d)", a, b, got, l, h)
									}
									i++
								}
								if left && b > k && far+7 > a {
									want(k, far+7)
								}
								for l := 0; l <= 2*n && l < b; l++ {
									if hi[l] >= 0 && hi[l] > a {
										want(l, hi[l])
									}
								}
								if i != len(got) {
									t.Failf("Overlaps(%d,%d) = %v, %d too many", a, b, got, len(got)-i)
								}
							}
							q(far-1, far)
							q(far-5, far+1)
							q(far+4, far+5)
							q(far+6, far+7)
							q(far+7, far+9)
							q(2*n, 2*n+1)
							q(k, k+1)
							q(k+1, k+2)
							q(long+1, long+2)
							q(-2, 0)
							q(-2, far)
						}
						t.State(sh.name, long, k)
					}
				})
			}
		}
	})
}
