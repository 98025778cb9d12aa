package props

import (
	"fmt"
	"math"
	"strings"

	g "github.com/zyedidia/generic"
	"golang.org/x/exp/constraints"
	"verif/mc"
)

// ordered checks the helpers on one triple.
func ordered[T constraints.Ordered](t *mc.T, a, b, x T) {
	if got, want := g.Less(a, b), a < b; got != want {
		t.Failf("Less(%v,%v) = %v", a, b, got)
	}
	if got, want := g.Equals(a, b), a == b; got != want {
		t.Failf("Equals(%v,%v) = %v", a, b, got)
	}
	if got, want := g.Compare(a, b, g.Less[T]), cond(a < b, -1, cond(b < a, 1, 0)); got != want {
		t.Failf("Compare(%v,%v) = %d, want %d", a, b, got, want)
	}
	if m := g.Max(a, b); m != a && m != b || m < a || m < b {
		t.Failf("Max(%v,%v) = %v", a, b, m)
	}
	if m := g.Min(a, b); m != a && m != b || m > a || m > b {
		t.Failf("Min(%v,%v) = %v", a, b, m)
	}
	if a <= b {
		want := cond(x < a, a, cond(x > b, b, x))
		if c := g.Clamp(x, a, b); c != want {
			t.Failf("Clamp(%v,%v,%v) = %v, want %v", x, a, b, c, want)
		}
	}
}

func orderedAll[T constraints.Ordered](shards int, nm string, vals []T) []mc.Job {
	return mc.Shard(shards, "order/"+nm, func(cs *mc.Cases) {
		for _, a := range vals {
			if cs.Stopped() {
				return
			}
			cs.Do(name("%s: all triples with first %v", nm, a), func(t *mc.T) {
				for _, b := range vals {
					t.Step()
					for _, x := range vals {
						ordered(t, a, b, x)
					}
				}
				t.Add("triples", int64(len(vals)*len(vals)))
			})
		}
	})
}

func allInts[T constraints.Integer](lo, hi int) (r []T) {
	for i := lo; i <= hi; i++ {
		r = append(r, T(i))
	}
	return
}

type item struct{ K, ID int }

// orderFuncs: the variants taking a comparison function, for every weak
// ordering of the stated number of keys, with distinguishable equivalents.
func orderFuncs(keys int) []mc.Job {
	return mc.Shard(4, fmt.Sprintf("order/weak-orders-of-%d", keys), func(cs *mc.Cases) {
		tuples(keys, keys, func(r []int) { // every weak ordering is given by ranks
			rank := append([]int{}, r...)
			cs.Do(name("ranks %v", rank), func(t *mc.T) {
				less := func(a, b item) bool { return rank[a.K] < rank[b.K] }
				t.Step()
				for a := 0; a < keys; a++ {
					for b := 0; b < keys; b++ {
						for x := 0; x < keys; x++ {
							for same := 0; same < 5; same++ {
								A, B, X := item{a, 1}, item{b, 2}, item{x, 3}
								switch same {
								case 1:
									B.ID = 1
								case 2:
									X.ID = 1
								case 3:
									X.ID = 2
								case 4:
									B.ID, X.ID = 1, 1
								}
								if got, want := g.Compare(A, B, less), cond(less(A, B), -1, cond(less(B, A), 1, 0)); got != want {
									t.Failf("Compare(%v,%v) = %d, want %d", A, B, got, want)
								}
								if m := g.MaxFunc(A, B, less); m != A && m != B || less(m, A) || less(m, B) {
									t.Failf("MaxFunc(%v,%v) = %v", A, B, m)
								}
								if m := g.MinFunc(A, B, less); m != A && m != B || less(A, m) || less(B, m) {
									t.Failf("MinFunc(%v,%v) = %v", A, B, m)
								}
								if !less(B, A) {
									want := cond(less(X, A), A, cond(less(B, X), B, X))
									if c := g.ClampFunc(X, A, B, less); c != want {
										t.Failf("ClampFunc(%v,%v,%v) = %v, want %v", X, A, B, c, want)
									}
								}
								t.Add("triples", 1)
							}
						}
					}
				}
			})
		})
	})
}

// hashers by name
type hasher struct {
	name string
	n    int
	f    func(i int) uint64 // hash of the i-th value
}

func intHasher[T constraints.Integer](nm string, h func(T) uint64, vals []T) hasher {
	return hasher{nm, len(vals), func(i int) uint64 { return h(vals[i]) }}
}

func edge64() (r []int64) {
	for _, b := range []int64{0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536,
		math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MaxUint32, 1 << 33, 1 << 53, math.MaxInt64, math.MinInt64, 0x0123456789abcdef} {
		r = append(r, b)
	}
	return
}

func conv[T constraints.Integer](in []int64) (r []T) {
	seen := map[T]bool{}
	for _, v := range in {
		if !seen[T(v)] {
			seen[T(v)] = true
			r = append(r, T(v))
		}
	}
	return
}

func hashStrings() []string {
	r := []string{strings.Repeat("a", 7), strings.Repeat("a", 8), strings.Repeat("a", 9), strings.Repeat("xyz", 30), strings.Repeat("\x00", 16), strings.Repeat("q", 300), strings.Repeat("long", 2000)}
	return append(r, allStrings("\x00a\xff", 2, true)...)
}

func hashers() []hasher {
	e := edge64()
	strs := hashStrings()
	return []hasher{
		intHasher("HashUint64", g.HashUint64, conv[uint64](e)),
		intHasher("HashUint32", g.HashUint32, conv[uint32](e)),
		intHasher("HashUint16", g.HashUint16, conv[uint16](e)),
		intHasher("HashUint8", g.HashUint8, conv[uint8](e)),
		intHasher("HashInt64", g.HashInt64, e),
		intHasher("HashInt32", g.HashInt32, conv[int32](e)),
		intHasher("HashInt16", g.HashInt16, conv[int16](e)),
		intHasher("HashInt8", g.HashInt8, conv[int8](e)),
		intHasher("HashInt", g.HashInt, conv[int](e)),
		intHasher("HashUint", g.HashUint, conv[uint](e)),
		{"HashString", len(strs), func(i int) uint64 { return g.HashString(strs[i]) }},
		{"HashBytes", len(strs), func(i int) uint64 { return g.HashBytes([]byte(strs[i])) }},
	}
}

func injective[T constraints.Integer](cs *mc.Cases, nm string, h func(T) uint64, lo, hi int) {
	cs.Do(name("%s: all %d values", nm, hi-lo+1), func(t *mc.T) {
		seen := make(map[uint64]T, hi-lo+1)
		for i := lo; i <= hi; i++ {
			t.Step()
			v := h(T(i))
			if o, ok := seen[v]; ok {
				t.Failf("%s(%d) = %s(%d) = %#x", nm, o, nm, i, v)
			}
			seen[v] = T(i)
			if h(T(i)) != v {
				t.Failf("%s(%d) differs from one call to the next", nm, i)
			}
		}
		for i := hi; i >= lo; i-- {
			if o, ok := seen[h(T(i))]; !ok || o != T(i) {
				t.Failf("%s(%d) changes with what was hashed before", nm, i)
			}
		}
		t.Add("values", int64(hi-lo+1))
	})
}

func hashJobs(th bool) []mc.Job {
	small := mc.Shard(4, "hash/all-small-integers", func(cs *mc.Cases) {
		injective(cs, "HashUint8", g.HashUint8, 0, 255)
		injective(cs, "HashInt8", g.HashInt8, -128, 127)
		injective(cs, "HashUint16", g.HashUint16, 0, 65535)
		injective(cs, "HashInt16", g.HashInt16, -32768, 32767)
	})
	// sequences of calls: the last result must be the one obtained first
	seqs := mc.Shard(8, "hash/sequences", func(cs *mc.Cases) {
		hs := hashers()
		type call struct{ h, i int }
		var calls []call
		base := map[call]uint64{}
		for h := range hs {
			for i := 0; i < hs[h].n; i++ {
				calls = append(calls, call{h, i})
			}
		}
		for _, c := range calls {
			base[c] = hs[c.h].f(c.i)
		}
		for _, a := range calls {
			cs.Do(name("%s of value %d, then every pair of calls", hs[a.h].name, a.i), func(t *mc.T) {
				for _, b := range calls {
					t.Step()
					step := pick(th, 9, 1)
					for k := (b.i + b.h) % step; k < len(calls); k += step {
						c := calls[k]
						hs[a.h].f(a.i)
						if hs[b.h].f(b.i) != base[b] || hs[c.h].f(c.i) != base[c] {
							t.Failf("%s(%d), %s(%d), %s(%d): not the result of a first call", hs[a.h].name, a.i, hs[b.h].name, b.i, hs[c.h].name, c.i)
						}
						t.Add("sequences", 1)
					}
				}
			})
		}
	})
	text := mc.Shard(8, "hash/text", func(cs *mc.Cases) {
		check := func(t *mc.T, content string) {
			t.Step()
			hs, hb := g.HashString(content), g.HashBytes([]byte(content))
			n := len(content)
			for cut := 0; cut <= n; cut += max(1, n/7) {
				if h := g.HashString(strings.Clone(content[:cut]) + content[cut:]); h != hs {
					t.Failf("HashString(%q) depends on how the string was built", content)
				}
			}
			for off := 0; off < 9; off++ {
				for _, spare := range []int{0, 1, 9} {
					for _, pad := range []byte{0, 0xA5} {
						buf := make([]byte, off+n+spare)
						for i := range buf {
							buf[i] = pad
						}
						copy(buf[off:], content)
						b := buf[off : off+n]
						if h := g.HashBytes(b); h != hb {
							t.Failf("HashBytes(%q) depends on how the slice was built (offset %d, spare %d)", content, off, spare)
						}
						if h := g.HashBytes(b[:n:n]); h != hb {
							t.Failf("HashBytes(%q) depends on the capacity", content)
						}
						if h := g.HashString(string(buf)[off : off+n]); h != hs {
							t.Failf("HashString(%q) depends on how the string was built (offset %d)", content, off)
						}
						for i := range buf {
							want := pad
							if i >= off && i < off+n {
								want = content[i-off]
							}
							if buf[i] != want {
								t.Failf("HashBytes(%q) changed its input", content)
							}
						}
					}
				}
			}
			if n == 0 && g.HashBytes(nil) != hb {
				t.Failf("HashBytes(nil) differs from HashBytes of an empty slice")
			}
		}
		for _, s := range allStrings("\x00ab\x7f\x80\xff", pick(th, 4, 6), true) {
			cs.Do(name("%q", s), func(t *mc.T) { check(t, s) })
		}
		lens := rangeInts(0, pick(th, 130, 1100), 1)
		for _, p := range []int{256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
			lens = append(lens, p-1, p, p+1)
		}
		if th {
			lens = append(lens, 1<<20-1, 1<<20, 1<<20+1)
		}
		for _, n := range lens {
			for _, unit := range []string{"a", "ab", "\x00", "\xff\x00z"} {
				cs.Do(name("%d bytes of %q", n, unit), func(t *mc.T) { check(t, strings.Repeat(unit, n/len(unit)+1)[:n]) })
			}
		}
	})
	// one buffer used again and again: its bytes, length and start change between calls
	reused := mc.Shard(8, "hash/reused-buffer", func(cs *mc.Cases) {
		type view struct{ from, to int }
		for _, n := range []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 1000, 4096, 66000} {
			for _, unit := range []string{"\x00", "ab", "\xff\x00z"} {
				cs.Do(name("buffer of %d bytes of %q", n, unit), func(t *mc.T) {
					content := strings.Repeat(unit, n/len(unit)+1)[:n]
					buf := []byte(content)
					fresh := func(what string, v view) {
						t.Step()
						want := g.HashBytes(append([]byte(nil), buf[v.from:v.to]...))
						if h := g.HashBytes(buf[v.from:v.to]); h != want {
							t.Failf("%s: HashBytes(bytes %d to %d) = %#x, want %#x, the hash of equal bytes", what, v.from, v.to, h, want)
						}
						ws := g.HashString(string(buf[v.from:v.to]))
						if h := g.HashString(strings.Clone(string(buf[v.from:v.to]))); h != ws {
							t.Failf("%s: HashString(bytes %d to %d) = %#x, want %#x, the hash of an equal string", what, v.from, v.to, h, ws)
						}
						t.Add("sequences", 1)
					}
					views := []view{{0, n}, {0, n - 1}, {1, n}, {0, (n + 1) / 2}, {n / 2, n}}
					step := max(1, n/pick(th, 70, 700))
					for _, v := range views {
						for _, w := range views {
							for p := 0; p < n; p += step {
								// a first call on the one view, which must not be
								// what decides the call after the change
								first := g.HashBytes(buf[v.from:v.to])
								for _, d := range []byte{1, 0x80} {
									buf[p] ^= d
									fresh(fmt.Sprintf("byte %d changed", p), w)
									buf[p] ^= d
								}
								if h := g.HashBytes(buf[v.from:v.to]); h != first {
									t.Failf("byte %d changed and changed back: HashBytes(bytes %d to %d) = %#x, was %#x", p, v.from, v.to, h, first)
								}
								if p+1 < n && buf[p] != buf[p+1] {
									buf[p], buf[p+1] = buf[p+1], buf[p]
									fresh(fmt.Sprintf("bytes %d and %d swapped", p, p+1), w)
									buf[p], buf[p+1] = buf[p+1], buf[p]
								}
							}
						}
					}
					if string(buf) != content {
						t.Failf("HashBytes changed its input")
					}
				})
			}
		}
	})
	return jobs(small, seqs, text, reused)
}

func init() {
	reg(&mc.Property{ID: "G01",
		Rule:        "all triples of int8 and of uint8; all triples of edge values of the other ordered types (integers, floats without NaN, strings); the variants taking a comparison function for every weak ordering of up to 5 keys with distinguishable equivalent values",
		Assumptions: []string{stdAssume, "no NaN; low bound not above high bound"},
		Jobs: func(th bool) []mc.Job {
			inf := math.Inf(1)
			return jobs(
				orderedAll(8, "int8", allInts[int8](-128, 127)),
				orderedAll(8, "uint8", allInts[uint8](0, 255)),
				orderedAll(1, "int16", append(allInts[int16](-20, 20), -32768, -32767, 32766, 32767, 127, 128, -128, -129)),
				orderedAll(1, "int64", edge64()),
				orderedAll(1, "int32", conv[int32](edge64())),
				orderedAll(1, "uint64", conv[uint64](edge64())),
				orderedAll(1, "uint32", conv[uint32](edge64())),
				orderedAll(1, "int", conv[int](edge64())),
				orderedAll(1, "float64", []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, math.Pi, 1e300, -1e300, inf, -inf, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64, 1 + 1e-16, math.Nextafter(1, 2), 9007199254740993}),
				orderedAll(1, "float32", []float32{0, 1, -1, 0.1, -0.1, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, float32(inf), float32(-inf), 16777217}),
				orderedAll(1, "string", append(allStrings("\x00ab\xff", 3, true), "A", "ab", "é", "日本", strings.Repeat("a", 100), strings.Repeat("a", 100)+"b", strings.Repeat("a", 5000)+"b", strings.Repeat("a", 5000)+"c")),
				orderFuncs(3), orderFuncs(4), orderFuncs(5))
		}})
	reg(&mc.Property{ID: "G02",
		Rule:        "all values of the 8- and 16-bit types for collisions, both directions; sequences of up to three calls over all helpers and edge values; all strings of the stated length over 6 bytes and long ones, built in many ways (offset, spare capacity, surroundings, concatenation), inputs compared afterwards; one buffer hashed again and again with bytes changed in between",
		Assumptions: []string{stdAssume},
		Jobs:        hashJobs})
}
