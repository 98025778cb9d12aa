package props

import (
	"fmt"

	"github.com/zyedidia/generic/array2d"
	"verif/mc"
)

// ---- K03: goroutines on different cells of one array ----

// A partition gives every cell of an array to one of up to three goroutines.
type partition struct {
	name  string
	n     int
	owner func(w, h, x, y int) int
}

var partitions = []partition{
	{"rows", 2, func(w, h, x, y int) int { return cond(2*y < h, 0, 1) }},
	{"every other row", 2, func(w, h, x, y int) int { return y % 2 }},
	{"columns", 2, func(w, h, x, y int) int { return cond(2*x < w, 0, 1) }},
	{"checkerboard", 2, func(w, h, x, y int) int { return (x + y) % 2 }},
	{"the first cell and the others", 2, func(w, h, x, y int) int { return cond(x+y == 0, 0, 1) }},
	{"diagonal stripes", 3, func(w, h, x, y int) int { return (x + 2*y) % 3 }},
}

// partOps lists the operations of goroutine k that touch its cells alone.
func partOps[T comparable](a *array2d.Array2D[T], w, h int, mine func(x, y int) bool, v1, v2 T, code func(T) int) (ops []cop) {
	add := func(nm string, f func(r *rec)) { ops = append(ops, cop{nm, f}) }
	first := true
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			x, y := x, y
			if !mine(x, y) {
				continue
			}
			add(fmt.Sprintf("Set(%d,%d)", x, y), func(r *rec) {
				a.Set(x, y, v1)
				r.I(code(a.Get(x, y)))
			})
			if first {
				first = false
				add(fmt.Sprintf("Get(%d,%d)", x, y), func(r *rec) { r.I(code(a.Get(x, y)), a.Width(), a.Height()) })
			}
			// the largest spans and rectangles that begin here
			x2 := x
			for x2+1 < w && mine(x2+1, y) {
				x2++
			}
			if x == 0 || !mine(x-1, y) {
				add(fmt.Sprintf("write RowSpan(%d,%d,%d)", x2, x, y), func(r *rec) {
					for i, s := 0, a.RowSpan(x2, x, y); i < len(s); i++ {
						r.I(code(s[i]))
						s[i] = v2
					}
				})
				if x == 0 && x2 == w-1 {
					add(fmt.Sprintf("write Row(%d)", y), func(r *rec) {
						for i, s := 0, a.Row(y); i < len(s); i++ {
							r.I(code(s[i]))
							s[i] = v1
						}
					})
				}
				y2 := y
			down:
				for y2+1 < h {
					for i := x; i <= x2; i++ {
						if !mine(i, y2+1) {
							break down
						}
					}
					y2++
				}
				add(fmt.Sprintf("Fill(%d,%d,%d,%d)", x, y2, x2, y), func(r *rec) { a.Fill(x, y2, x2, y, v2) })
			}
		}
	}
	add("Get outside", func(r *rec) { r.S(fmt.Sprint(catch(func() { a.Get(w, h) }))) })
	add("Set outside", func(r *rec) { r.S(fmt.Sprint(catch(func() { a.Set(-1, 0, v1) }))) })
	return
}

// partArray makes the array and the operations of every goroutine.
func partArray[T comparable](w, h int, p partition, vals [3]T) func() (ops [][]cop, all func(k int, r *rec)) {
	code := func(v T) int {
		for i, x := range vals {
			if v == x {
				return i
			}
		}
		return -1
	}
	return func() (ops [][]cop, all func(k int, r *rec)) {
		a := array2d.NewFilled(w, h, vals[0])
		for k := 0; k < p.n; k++ {
			k := k
			h2 := a // the handle is a value, the cells are shared
			ops = append(ops, partOps(&h2, w, h, func(x, y int) bool { return p.owner(w, h, x, y) == k }, vals[1], vals[2], code))
		}
		return ops, func(k int, r *rec) {
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					if p.owner(w, h, x, y) == k {
						r.I(code(a.Get(x, y)))
					}
				}
			}
		}
	}
}

func k03(th bool) (js []mc.Job) {
	types := []struct {
		name string
		mk   func(w, h int, p partition) func() ([][]cop, func(k int, r *rec))
	}{
		{"int", func(w, h int, p partition) func() ([][]cop, func(k int, r *rec)) {
			return partArray(w, h, p, [3]int{0, 7, -1})
		}},
		{"bool", func(w, h int, p partition) func() ([][]cop, func(k int, r *rec)) {
			return partArray(w, h, p, [3]bool{false, true, true})
		}},
		{"string", func(w, h int, p partition) func() ([][]cop, func(k int, r *rec)) {
			return partArray(w, h, p, [3]string{"", "a", "bc"})
		}},
	}
	for _, p := range partitions {
		for _, ty := range types {
			p, ty := p, ty
			js = append(js, mc.NewConcs(1, fmt.Sprintf("cells of one array of %s: %s", ty.name, p.name), func(s *mc.Scenarios) {
				for _, sh := range pick(th, [][2]int{{2, 2}, {1, 4}, {4, 1}, {3, 3}, {40, 2}, {2, 40}}, [][2]int{{2, 2}, {1, 4}, {4, 1}, {3, 2}, {2, 3}, {3, 3}, {4, 4}, {100, 2}, {2, 100}, {20, 20}}) {
					w, h := sh[0], sh[1]
					mk := ty.mk(w, h, p)
					ops, _ := mk()
					big := w*h > 20
					scen := func(limits []int, idx ...[]int) {
						for k := range idx {
							for _, o := range idx[k] {
								if o >= len(ops[k]) {
									return
								}
							}
						}
						s.Do(mc.Scenario{
							Limits: limits,
							Name: func() string {
								nm := fmt.Sprintf("%s, %dx%d, %s", ty.name, w, h, p.name)
								for k, l := range idx {
									nm += cond(k == 0, ": ", " || ")
									for i, o := range l {
										nm += cond(i == 0, "", "; ") + ops[k][o].name
									}
								}
								return nm
							},
							Fresh: func() ([]func(), func(i int) []int64, func(i int) []int64) {
								ops, all := mk()
								recs := make([]*rec, len(idx))
								var threads []func()
								for k, l := range idx {
									recs[k] = &rec{}
									var cs []cop
									for _, o := range l {
										cs = append(cs, ops[k][o])
									}
									threads = append(threads, script(cs, recs[k]))
								}
								return threads, func(i int) []int64 { return recs[i].v }, func(i int) []int64 {
									var r rec
									all(i, &r)
									return r.v
								}
							},
						})
					}
					// which operations: of large arrays the first and last ones
					some := func(k int) (r []int) {
						for o := range ops[k] {
							if !big || o < 5 || o >= len(ops[k])-pick(th, 5, 9) {
								r = append(r, o)
							}
						}
						return
					}
					one := cond(big, []int{0}, pick(th, []int{anyLen, 30}, []int{anyLen, 150, 30}))
					for _, a := range some(0) {
						for _, b := range some(1) {
							scen(one, []int{a}, []int{b})
							if !big && (th || w*h < 6) {
								scen([]int{40}, []int{a, b % len(ops[0])}, []int{b, a % len(ops[1])})
							}
							if p.n > 2 {
								for _, c := range some(2) {
									if th || (a+b+c)%3 == 0 {
										scen([]int{cond(big, 0, 60)}, []int{a}, []int{b}, []int{c})
									}
								}
							}
						}
					}
				}
			})...)
		}
	}
	return
}

func init() {
	reg(&mc.Property{ID: "K03",
		Rule:        "for every listed shape, element type and partition of the cells among 2 or 3 goroutines: every pair (some triples, two-operation scripts) of operations on own cells: every schedule with at most 1 preemption, 2 where the unpreempted schedule has at most 30 scheduling decisions (large arrays: every order), at statement granularity, executed on the instrumented library under the race detector; each goroutine's observations and cells compared with running alone",
		Assumptions: []string{stdAssume, "interleavings are explored at statement granularity; finer ones only matter if two goroutines make conflicting unsynchronised accesses, which the race detector reports on any schedule that contains both"},
		Jobs:        k03})
}
