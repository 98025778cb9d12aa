package props

import (
	"fmt"
	"strings"

	"verif/maporder"
	"verif/mc"
)

var all []*mc.Property

func reg(p *mc.Property) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	if strings.Contains(typedIDs, p.ID) {
		p.Rule += "; all short histories over elements of some twenty types (pointers, interfaces, functions, slices, uncomparable structs, empty structs, ...), the zero value always among them"
	}
	all = append(all, p)
}

// All returns every property of the framework.
func All() []*mc.Property { return all }

var errf = mc.Errf

const stdAssume = "Go toolchain, runtime and built-in maps are correct; 128-bit state hashes do not collide"

// pick returns q in the quick tier and t in the thorough tier.
func pick[T any](thorough bool, q, t T) T {
	if thorough {
		return t
	}
	return q
}

func cond[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// catch reports whether f panics.
func catch(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

// patterns are families of permutations of 0..n-1.
var patterns = []struct {
	name string
	perm func(n int) []int
}{
	{"asc", func(n int) []int { return gen(n, func(i int) int { return i }) }},
	{"desc", func(n int) []int { return gen(n, func(i int) int { return n - 1 - i }) }},
	{"outside-in", func(n int) []int {
		return gen(n, func(i int) int {
			if i%2 == 0 {
				return i / 2
			}
			return n - 1 - i/2
		})
	}},
	{"inside-out", func(n int) []int {
		p := gen(n, func(i int) int {
			if i%2 == 0 {
				return i / 2
			}
			return n - 1 - i/2
		})
		for l, r := 0, n-1; l < r; l, r = l+1, r-1 {
			p[l], p[r] = p[r], p[l]
		}
		return p
	}},
	{"bit-reversal", func(n int) []int {
		bits := 0
		for 1<<bits < n {
			bits++
		}
		var p []int
		for i := 0; i < 1<<bits; i++ {
			r := 0
			for b := 0; b < bits; b++ {
				if i>>b&1 == 1 {
					r |= 1 << (bits - 1 - b)
				}
			}
			if r < n {
				p = append(p, r)
			}
		}
		return p
	}},
	{"stride", func(n int) []int {
		s := n*61803/100000 + 1
		for gcd(s, n) != 1 {
			s++
		}
		return gen(n, func(i int) int { return i * s % n })
	}},
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func gen(n int, f func(i int) int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = f(i)
	}
	return p
}

// perms calls f with every permutation of 0..n-1.
func perms(n int, f func(p []int)) {
	p := gen(n, func(i int) int { return i })
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// tuples calls f with every tuple in {0..base-1}^n.
func tuples(n, base int, f func(t []int)) {
	t := make([]int, n)
	for {
		f(t)
		i := n - 1
		for i >= 0 {
			t[i]++
			if t[i] < base {
				break
			}
			t[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func name(format string, args ...any) func() string {
	return func() string { return fmt.Sprintf(format, args...) }
}

func eqSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func jobs(js ...[]mc.Job) (r []mc.Job) {
	for _, j := range js {
		r = append(r, j...)
	}
	return
}

// mapOrders: every order of loops over Go maps of up to three keys (thorough:
// four), and some of more, with and without visiting keys added meanwhile.
func mapOrders(th bool) []int {
	if th {
		return rangeInts(0, maporder.Policies-1, 1)
	}
	return []int{0, 1, 2, 3, 4, 5, 24, 25, 26, 27, 28, 29, 7, 14, 23, 47}
}

const mapOrderRule = "; and spaces and sweeps repeated with loops over Go maps running in every order of up to three keys (thorough: four), keys added meanwhile visited or not"

func one(s *mc.Space) []mc.Job { return []mc.Job{s} }
