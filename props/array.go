package props

import (
	"fmt"
	"strings"

	"github.com/zyedidia/generic/array2d"
	"verif/mc"
)

// ---- 2-D arrays ----

// arr is an array under test with its model.
type arr struct {
	a    array2d.Array2D[int]
	w, h int
	m    []int
	next int
}

// fresh returns a w x h array holding distinct values 1..w*h.
func fresh(w, h int) *arr {
	r := &arr{a: array2d.New[int](w, h), w: w, h: h, m: make([]int, w*h)}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			r.next++
			r.a.Set(x, y, r.next)
			r.m[y*w+x] = r.next
		}
	}
	return r
}

func (r *arr) check(t *mc.T, what string) {
	if r.a.Width() != r.w || r.a.Height() != r.h {
		t.Failf("%s: size %dx%d, want %dx%d", what, r.a.Width(), r.a.Height(), r.w, r.h)
	}
	for y := 0; y < r.h; y++ {
		for x := 0; x < r.w; x++ {
			if v := r.a.Get(x, y); v != r.m[y*r.w+x] {
				t.Failf("%s: cell (%d,%d) = %d, want %d", what, x, y, v, r.m[y*r.w+x])
			}
		}
	}
}

func (r *arr) in(x, y int) bool { return x >= 0 && x < r.w && y >= 0 && y < r.h }

// coords: everything from below the range to above it, and extremes.
func coords(n int) []int {
	r := rangeInts(-2, n+2, 1)
	return append(r, n*n+1, -n*n-3, 1<<31, -1<<31, 1<<62, -1<<62, 1<<63-1, -1<<63)
}

func textOf(r *arr) string {
	var rows []string
	for y := 0; y < r.h; y++ {
		var cells []string
		for x := 0; x < r.w; x++ {
			cells = append(cells, fmt.Sprint(r.m[y*r.w+x]))
		}
		rows = append(rows, "["+strings.Join(cells, " ")+"]")
	}
	return "[" + strings.Join(rows, " ") + "]"
}

func arrayCells(th bool) []mc.Job {
	max := pick(th, 9, 16)
	return mc.Shard(8, "array2d/cells", func(cs *mc.Cases) {
		shape := func(w, h int) {
			cs.Do(name("%dx%d: construction and text", w, h), func(t *mc.T) {
				t.Step()
				r := &arr{a: array2d.New[int](w, h), w: w, h: h, m: make([]int, w*h)}
				r.check(t, "New")
				if s := r.a.String(); s != textOf(r) {
					t.Failf("String() = %q, want %q", s, textOf(r))
				}
				f := &arr{a: array2d.NewFilled(w, h, 7), w: w, h: h, m: make([]int, w*h)}
				for i := range f.m {
					f.m[i] = 7
				}
				f.check(t, "NewFilled")
				r = fresh(w, h)
				r.check(t, "distinct values")
				if s := r.a.String(); s != textOf(r) {
					t.Failf("String() = %q, want %q", s, textOf(r))
				}
				r.check(t, "after String")
				for i := 0; i < w*h; i++ { // arrays share nothing
					if v := f.a.Get(i%w, i/w); v != 7 {
						t.Failf("another array changed")
					}
				}
			})
			cs.Do(name("%dx%d: every coordinate", w, h), func(t *mc.T) {
				r := fresh(w, h)
				for _, y := range coords(h) {
					for _, x := range coords(w) {
						t.Step()
						ok := r.in(x, y)
						r.next++
						if p := catch(func() { r.a.Set(x, y, r.next) }); p == ok {
							t.Failf("Set(%d,%d): panic = %v", x, y, p)
						}
						if ok {
							r.m[y*w+x] = r.next
						}
						r.check(t, fmt.Sprintf("after Set(%d,%d)", x, y))
						var v int
						if p := catch(func() { v = r.a.Get(x, y) }); p == ok {
							t.Failf("Get(%d,%d): panic = %v", x, y, p)
						}
						if ok && v != r.next {
							t.Failf("Get(%d,%d) = %d, want %d", x, y, v, r.next)
						}
					}
				}
				r.check(t, "at the end")
				t.State(w, h)
			})
		}
		for w := 0; w <= max; w++ {
			for h := 0; h <= max; h++ {
				shape(w, h)
			}
		}
		for _, n := range pick(th, []int{17, 33}, []int{17, 32, 33, 50}) {
			for _, o := range []int{1, 2, 3} {
				shape(n, o)
				shape(o, n)
			}
		}
	})
}

// arrayHistories: all histories of writes on small shapes, with the array's
// views kept alive.
type arrsys struct {
	*arr
	views [][]int // rows taken at the start
	vals  int
}

func (s *arrsys) nops() int { return s.w*s.h*s.vals*2 + s.w*s.w*s.h*s.h }
func (s *arrsys) opName(op int) string {
	n := s.w * s.h * s.vals
	c := op % n
	switch {
	case op < n:
		return fmt.Sprintf("Set(%d,%d,%d)", c/s.vals%s.w, c/s.vals/s.w, c%s.vals)
	case op < 2*n:
		return fmt.Sprintf("view row %d [%d] = %d", c/s.vals/s.w, c/s.vals%s.w, c%s.vals)
	}
	x1, y1, x2, y2 := s.rect(op - 2*n)
	return fmt.Sprintf("Fill(%d,%d,%d,%d,1)", x1, y1, x2, y2)
}
func (s *arrsys) rect(i int) (x1, y1, x2, y2 int) {
	return i % s.w, i / s.w % s.h, i / s.w / s.h % s.w, i / s.w / s.h / s.w
}
func (s *arrsys) Apply(op int) (bool, error) {
	n := s.w * s.h * s.vals
	c := op % n
	switch {
	case op < n:
		s.a.Set(c/s.vals%s.w, c/s.vals/s.w, c%s.vals)
		s.m[c/s.vals] = c % s.vals
	case op < 2*n:
		s.views[c/s.vals/s.w][c/s.vals%s.w] = c % s.vals
		s.m[c/s.vals] = c % s.vals
	default:
		x1, y1, x2, y2 := s.rect(op - 2*n)
		s.a.Fill(x1, y1, x2, y2, 1)
		for y := min(y1, y2); y <= max(y1, y2); y++ {
			for x := min(x1, x2); x <= max(x1, x2); x++ {
				s.m[y*s.w+x] = 1
			}
		}
	}
	return true, nil
}
func (s *arrsys) Observe() error {
	for y := 0; y < s.h; y++ {
		for x := 0; x < s.w; x++ {
			want := s.m[y*s.w+x]
			if v := s.a.Get(x, y); v != want {
				return errf("Get(%d,%d) = %d, want %d", x, y, v, want)
			}
			if v := s.views[y][x]; v != want {
				return errf("row view %d shows %d at %d, want %d", y, v, x, want)
			}
			for x2 := 0; x2 < s.w; x2++ {
				sp := s.a.RowSpan(x, x2, y)
				lo, hi := min(x, x2), max(x, x2)
				if len(sp) != hi-lo+1 || !eqSlice(sp, s.m[y*s.w+lo:y*s.w+hi+1]) {
					return errf("RowSpan(%d,%d,%d) = %v, want %v", x, x2, y, sp, s.m[y*s.w+lo:y*s.w+hi+1])
				}
			}
		}
	}
	if got, want := s.a.String(), textOf(s.arr); got != want {
		return errf("String() = %q, want %q", got, want)
	}
	return nil
}
func (s *arrsys) Roots() []any {
	return []any{s.m[:len(s.m):len(s.m)], s.views[:len(s.views):len(s.views)], &s.a}
}

func arraySpaces(depth int, vals int, shapes ...[2]int) (js []mc.Job) {
	mk := func(w, h int) *arrsys {
		s := &arrsys{arr: &arr{a: array2d.New[int](w, h), w: w, h: h, m: make([]int, w*h)}, vals: vals}
		for y := 0; y < h; y++ {
			s.views = append(s.views, s.a.Row(y))
		}
		return s
	}
	for _, sh := range shapes {
		w, h := sh[0], sh[1]
		s := mk(w, h)
		js = append(js, &mc.Space{Name: fmt.Sprintf("array2d/%dx%d-values%d", w, h, vals), NOps: s.nops(), OpName: s.opName, Depth: depth,
			New: func() mc.Sys { return mk(w, h) }})
	}
	return
}

func arrayRegions(th bool) []mc.Job {
	rows := func(cs *mc.Cases, w, h int) {
		cs.Do(name("%dx%d: rows and spans", w, h), func(t *mc.T) {
			r := fresh(w, h)
			alias := func(what string, sp []int, x, y, n int) {
				t.Step()
				if len(sp) != n {
					t.Failf("%s has %d cells, want %d", what, len(sp), n)
				}
				for i := range sp {
					if sp[i] != r.m[y*w+x+i] {
						t.Failf("%s[%d] = %d, want %d", what, i, sp[i], r.m[y*w+x+i])
					}
				}
				for i := range sp {
					r.next++
					sp[i] = r.next // writing through the span
					r.m[y*w+x+i] = r.next
					if v := r.a.Get(x+i, y); v != r.next {
						t.Failf("write through %s[%d] is not seen by Get(%d,%d)", what, i, x+i, y)
					}
					r.next++
					r.a.Set(x+i, y, r.next) // writing through the array
					r.m[y*w+x+i] = r.next
					if sp[i] != r.next {
						t.Failf("Set(%d,%d) is not seen through %s[%d]", x+i, y, what, i)
					}
				}
				r.check(t, "after writing through "+what)
			}
			for _, y := range coords(h) {
				ok := y >= 0 && y < h
				var sp []int
				if p := catch(func() { sp = r.a.Row(y) }); p == ok {
					t.Failf("Row(%d): panic = %v", y, p)
				}
				if ok {
					alias(fmt.Sprintf("Row(%d)", y), sp, 0, y, w)
				}
				for _, x1 := range coords(w) {
					for _, x2 := range coords(w) {
						t.Step()
						ok := r.in(x1, y) && r.in(x2, y)
						var sp []int
						if p := catch(func() { sp = r.a.RowSpan(x1, x2, y) }); p == ok {
							t.Failf("RowSpan(%d,%d,%d): panic = %v", x1, x2, y, p)
						}
						if ok {
							alias(fmt.Sprintf("RowSpan(%d,%d,%d)", x1, x2, y), sp, min(x1, x2), y, max(x1, x2)-min(x1, x2)+1)
						}
					}
				}
			}
			r.check(t, "at the end")
			t.State(w, h)
		})
	}
	fill := func(t *mc.T, r *arr, x1, y1, x2, y2 int) {
		t.Step()
		ok := r.in(x1, y1) && r.in(x2, y2)
		r.next++
		if p := catch(func() { r.a.Fill(x1, y1, x2, y2, r.next) }); p == ok {
			t.Failf("Fill(%d,%d,%d,%d): panic = %v", x1, y1, x2, y2, p)
		}
		if ok {
			for y := min(y1, y2); y <= max(y1, y2); y++ {
				for x := min(x1, x2); x <= max(x1, x2); x++ {
					r.m[y*r.w+x] = r.next
				}
			}
		}
		r.check(t, fmt.Sprintf("after Fill(%d,%d,%d,%d)", x1, y1, x2, y2))
	}
	n := pick(th, 6, 8)
	js := mc.Shard(8, "array2d/rows", func(cs *mc.Cases) {
		for w := 0; w <= n; w++ {
			for h := 0; h <= n; h++ {
				rows(cs, w, h)
			}
		}
		rows(cs, 20, 2)
		rows(cs, 2, 20)
	})
	k := pick(th, 4, 6)
	fills := mc.Shard(8, "array2d/fills", func(cs *mc.Cases) {
		for w := 0; w <= k; w++ {
			for h := 0; h <= k; h++ {
				cs.Do(name("%dx%d: every fill, in and out of range", w, h), func(t *mc.T) {
					r := fresh(w, h)
					for _, x1 := range coords(w) {
						for _, y1 := range coords(h) {
							for _, x2 := range coords(w) {
								for _, y2 := range coords(h) {
									fill(t, r, x1, y1, x2, y2)
								}
							}
						}
					}
					t.State(w, h)
				})
			}
		}
		// every fill inside larger shapes
		for _, wh := range pick(th, [][2]int{{9, 3}, {3, 9}, {8, 8}, {17, 2}, {2, 17}, {40, 1}, {1, 40}}, [][2]int{{9, 3}, {3, 9}, {8, 8}, {12, 12}, {17, 3}, {3, 17}, {70, 1}, {1, 70}, {33, 2}}) {
			for x1 := 0; x1 < wh[0]; x1++ {
				cs.Do(name("%dx%d: every fill with x1=%d", wh[0], wh[1], x1), func(t *mc.T) {
					r := fresh(wh[0], wh[1])
					for y1 := 0; y1 < wh[1]; y1++ {
						for x2 := 0; x2 < wh[0]; x2++ {
							for y2 := 0; y2 < wh[1]; y2++ {
								fill(t, r, x1, y1, x2, y2)
							}
						}
					}
					t.State(wh, x1)
				})
			}
		}
		for _, n := range pick(th, []int{63, 64, 65, 100}, []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}) {
			cs.Do(name("NewFilled and whole fills of %d cells", n), func(t *mc.T) {
				for _, wh := range [][2]int{{n, 1}, {1, n}, {n, 2}, {2, n}} {
					r := &arr{a: array2d.NewFilled(wh[0], wh[1], 9), w: wh[0], h: wh[1], m: make([]int, wh[0]*wh[1]), next: 10}
					for i := range r.m {
						r.m[i] = 9
					}
					r.check(t, "NewFilled")
					fill(t, r, 0, 0, wh[0]-1, wh[1]-1)
					fill(t, r, wh[0]-1, 0, wh[0]/2, wh[1]/2)
				}
			})
		}
	})
	return jobs(js, fills)
}

func arrayJagged(th bool) []mc.Job {
	return mc.Shard(8, "array2d/jagged", func(cs *mc.Cases) {
		m := pick(th, 4, 5)
		for w := 0; w <= m; w++ {
			for h := 0; h <= m; h++ {
				for rows := 0; rows <= h+2 && rows <= 5; rows++ {
					tuples(rows, min(w+3, 6), func(ls []int) {
						if cs.Stopped() {
							return
						}
						lens := append([]int{}, ls...)
						cs.Do(name("OfJagged(%d, %d, rows of lengths %v)", w, h, lens), func(t *mc.T) {
							t.Step()
							r := &arr{w: w, h: h, m: make([]int, w*h)}
							var in, orig [][]int
							v := 0
							for y, n := range lens {
								row := make([]int, n, n+2)
								for x := range row {
									v++
									row[x] = v
									if x < w && y < h {
										r.m[y*w+x] = v
									}
								}
								if n == 0 && y%2 == 1 {
									row = nil
								}
								in = append(in, row)
								orig = append(orig, append([]int{}, row...))
							}
							r.a = array2d.OfJagged(w, h, in)
							r.check(t, "OfJagged")
							for y := range in { // copied, not aliased
								if !eqSlice(in[y], orig[y]) {
									t.Failf("OfJagged changed its argument")
								}
								for x := range in[y] {
									in[y][x] = -1
								}
							}
							r.check(t, "OfJagged, after changing the argument")
						})
					})
				}
			}
		}
	})
}

// big visits shapes with long sides and many cells; a full comparison of all
// cells is made a stated number of times only.
func big(th bool, f func(w, h int)) {
	for _, wh := range [][2]int{{300, 300}, {70000, 1}, {1, 70000}, {257, 256}, {256, 257}, {1000, 3}, {3, 1000}, {65536, 2}, {2, 65537}, {128, 129}, {1025, 64}} {
		f(wh[0], wh[1])
	}
	if th {
		for _, wh := range [][2]int{{2000, 2000}, {1 << 20, 1}, {1, 1 << 20}, {1 << 16, 17}, {17, 1 << 16}} {
			f(wh[0], wh[1])
		}
	}
}

// ends returns positions at the ends of 0..n-1 and near powers of two.
func ends(n int) (r []int) {
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			r = append(r, i)
		}
	}
	add(0)
	add(1)
	for p := 2; p <= n; p *= 4 {
		add(p - 1)
		add(p)
	}
	add(n / 2)
	add(n - 2)
	add(n - 1)
	return
}

func arrayBigCells(th bool) []mc.Job {
	return mc.Shard(8, "array2d/big-cells", func(cs *mc.Cases) {
		big(th, func(w, h int) {
			cs.Do(name("%dx%d: all cells, far coordinates", w, h), func(t *mc.T) {
				r := fresh(w, h)
				r.check(t, "distinct values")
				for _, y := range append(ends(h), -1, h, h+1, -h, 2*h, h*w, w) {
					for _, x := range append(ends(w), -1, w, w+1, -w, 2*w, h*w, h) {
						t.Step()
						ok := r.in(x, y)
						r.next++
						if p := catch(func() { r.a.Set(x, y, r.next) }); p == ok {
							t.Failf("Set(%d,%d): panic = %v", x, y, p)
						}
						if ok {
							r.m[y*w+x] = r.next
						}
						var v int
						if p := catch(func() { v = r.a.Get(x, y) }); p == ok {
							t.Failf("Get(%d,%d): panic = %v", x, y, p)
						}
						if ok && v != r.next {
							t.Failf("Get(%d,%d) = %d, want %d", x, y, v, r.next)
						}
					}
				}
				r.check(t, "after the writes")
				if s := r.a.String(); s != textOf(r) {
					t.Failf("String() of %d bytes is not the text of all cells (%d bytes)", len(s), len(textOf(r)))
				}
				f := &arr{a: array2d.NewFilled(w, h, 7), w: w, h: h, m: gen(w*h, func(int) int { return 7 })}
				f.check(t, "NewFilled")
				t.State(w, h)
			})
		})
	})
}

func arrayBigRegions(th bool) []mc.Job {
	return mc.Shard(8, "array2d/big-regions", func(cs *mc.Cases) {
		big(th, func(w, h int) {
			cs.Do(name("%dx%d: rows, spans, fills and jagged input", w, h), func(t *mc.T) {
				r := fresh(w, h)
				for _, y := range ends(h) {
					t.Step()
					if row := r.a.Row(y); !eqSlice(row, r.m[y*w:y*w+w]) {
						t.Failf("Row(%d) does not hold that row", y)
					}
					for _, x1 := range ends(w) {
						for _, x2 := range ends(w) {
							t.Step()
							sp, lo, hi := r.a.RowSpan(x1, x2, y), min(x1, x2), max(x1, x2)
							if !eqSlice(sp, r.m[y*w+lo:y*w+hi+1]) {
								t.Failf("RowSpan(%d,%d,%d) does not hold those cells", x1, x2, y)
							}
							r.next++
							sp[len(sp)/2] = r.next
							r.m[y*w+lo+len(sp)/2] = r.next
							if r.a.Get(lo+len(sp)/2, y) != r.next {
								t.Failf("a write through RowSpan(%d,%d,%d) is not seen", x1, x2, y)
							}
						}
					}
				}
				r.check(t, "after writing through spans")
				t.State(w, h)
				thin := func(l []int, n int) []int { // a few of l, with both ends
					if len(l) <= n {
						return l
					}
					return append(gen(n-1, func(i int) int { return l[i*len(l)/n] }), l[len(l)-1])
				}
				xs, ys := thin(ends(w), 4), thin(ends(h), 4)
				for _, x1 := range xs {
					for _, x2 := range xs {
						for _, y1 := range ys {
							for _, y2 := range ys {
								t.Step()
								r.next++
								r.a.Fill(x1, y1, x2, y2, r.next)
								for y := min(y1, y2); y <= max(y1, y2); y++ {
									for x := min(x1, x2); x <= max(x1, x2); x++ {
										r.m[y*w+x] = r.next
									}
								}
								r.check(t, fmt.Sprintf("after Fill(%d,%d,%d,%d)", x1, y1, x2, y2))
							}
						}
					}
				}
				for _, d := range [][2]int{{0, 0}, {-1, -1}, {1, 1}, {-w / 2, 1}, {1, -h / 2}} {
					j := &arr{w: w, h: h, m: make([]int, w*h)}
					in := make([][]int, max(h+d[1], 0))
					for y := range in {
						in[y] = gen(max(w+d[0]-y%2, 0), func(x int) int { return y*7 + x + 1 })
						for x, v := range in[y] {
							if x < w && y < h {
								j.m[y*w+x] = v
							}
						}
					}
					t.Step()
					j.a = array2d.OfJagged(w, h, in)
					for y := range in {
						if len(in[y]) > 0 {
							in[y][0], in[y][len(in[y])-1] = -1, -1
						}
					}
					j.check(t, fmt.Sprintf("OfJagged of %d rows of %d cells", len(in), w+d[0]))
				}
			})
		})
	})
}

// arrayElements: the same cell, span and fill guarantees for other element types.
func arrayElements[T comparable](nm string, vals ...T) []mc.Job {
	return mc.Shard(1, "array2d/elements-"+nm, func(cs *mc.Cases) {
		for _, wh := range [][2]int{{1, 1}, {3, 2}, {2, 5}, {9, 4}} {
			w, h := wh[0], wh[1]
			cs.Do(name("%dx%d of %s", w, h, nm), func(t *mc.T) {
				a, m := array2d.New[T](w, h), make([]T, w*h)
				check := func(a array2d.Array2D[T], what string) {
					t.Step()
					for i := range m {
						if v := a.Get(i%w, i/w); v != m[i] {
							t.Failf("%s: cell (%d,%d) = %v, want %v", what, i%w, i/w, v, m[i])
						}
						if v := a.Row(i / w)[i%w]; v != m[i] {
							t.Failf("%s: row cell (%d,%d) = %v, want %v", what, i%w, i/w, v, m[i])
						}
					}
					var rows []string
					for y := 0; y < h; y++ {
						rows = append(rows, fmt.Sprint(m[y*w:y*w+w]))
					}
					if got, want := a.String(), "["+strings.Join(rows, " ")+"]"; got != want {
						t.Failf("%s: String() = %q, want %q", what, got, want)
					}
				}
				check(a, "New")
				for i := range m {
					for _, v := range vals {
						a.Set(i%w, i/w, v)
						m[i] = v
						check(a, "after Set")
					}
					m[i] = vals[i%len(vals)]
					a.Set(i%w, i/w, m[i])
				}
				c := a.Copy()
				check(c, "Copy")
				in := make([][]T, h)
				for y := range in {
					in[y] = append([]T{}, m[y*w:y*w+w]...)
				}
				check(array2d.OfJagged(w, h, in), "OfJagged")
				for _, v := range vals {
					for i := range m {
						m[i] = v
					}
					check(array2d.NewFilled(w, h, v), "NewFilled")
					a.Fill(w-1, 0, 0, h-1, v)
					check(a, "after Fill")
				}
				t.State(w, h)
			})
		}
	})
}

func arrayElementTypes() []mc.Job {
	x, y := 1, 2
	return jobs(
		arrayElements("string", "a", "", "b c", "%d", "[", "\x00"),
		arrayElements("bool", true, false),
		arrayElements[float64]("float64", 1.5, 0, -2),
		arrayElements[byte]("byte", 1, 0, 255),
		arrayElements[struct{}]("empty struct", struct{}{}),
		arrayElements("struct", item{1, 2}, item{}, item{0, 3}),
		arrayElements("pointer", &x, nil, &y),
		arrayElements[any]("interface", 1, nil, "x", item{}))
}

func init() {
	reg(&mc.Property{ID: "A01",
		Rule:        "every shape up to the stated size, every coordinate from two below to two above the range (and integer extremes): write, compare all cells, read; and all histories (to fixpoint) of writes, writes through row views and fills on tiny shapes; a few large shapes (up to 70000 cells a side) with all cells compared; eight element types",
		Assumptions: []string{stdAssume},
		Jobs: func(th bool) []mc.Job {
			return jobs(arrayCells(th), arrayBigCells(th), arrayElementTypes(),
				arraySpaces(0, 2, [2]int{1, 1}, [2]int{2, 1}, [2]int{1, 2}, [2]int{2, 2}, [2]int{3, 2}, [2]int{2, 3}, [2]int{4, 2}),
				arraySpaces(pick(th, 4, 5), 3, [2]int{3, 2}, [2]int{2, 3}))
		}})
	reg(&mc.Property{ID: "A02",
		Rule:        "every shape up to the stated size: every row and span written in both directions, every fill rectangle with corners in every order, in and out of range, comparing all cells after each; every jagged input with row counts and row lengths below, at and above the size; all histories of writes, view writes and fills on tiny shapes; a few large shapes with positions at the ends and near powers of two",
		Assumptions: []string{stdAssume, "the capacity of rows and spans is unspecified"},
		Jobs: func(th bool) []mc.Job {
			return jobs(arrayRegions(th), arrayJagged(th), arrayBigRegions(th),
				arraySpaces(0, 2, [2]int{2, 2}, [2]int{3, 2}, [2]int{2, 3}, [2]int{3, 3}))
		}})
}
