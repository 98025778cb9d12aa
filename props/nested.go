package props

import (
	"fmt"

	g "github.com/zyedidia/generic"

	"verif/mc"
)

// onHook, if set, runs at every call the library makes to a function of the
// caller, and at every step of a loop over an iterator. The properties about
// goroutines leave it unset.
var onHook func()

func hook() {
	if onHook != nil {
		onHook()
	}
}

func hookLess(a, b int) bool { hook(); return a < b }
func hookEq(a, b int) bool   { hook(); return a == b }
func hookHash(i int) uint64  { hook(); return g.HashInt(i) }
func hookOf(f func(int) uint64) func(int) uint64 {
	return func(i int) uint64 { hook(); return f(i) }
}

// runHooked runs the operation, and at the k-th call (from 0) of a function of
// the caller also runs `in`. It returns the number of calls.
func runHooked(o cop, r *rec, k int, in func()) (calls int) {
	before := onHook
	onHook = func() {
		calls++
		if calls-1 == k {
			mine := onHook
			onHook = nil
			in()
			onHook = mine
		}
	}
	defer func() { onHook = before }()
	script([]cop{o}, r)()
	return
}

type abandoned struct{}

// positions at which something is nested into an operation with n calls.
func positions(n int, thorough bool) (ks []int) {
	for k := 0; k < n; k++ {
		if thorough || n <= 64 || k < 24 || k >= n-24 || k%8 == 0 {
			ks = append(ks, k)
		}
	}
	return
}

func n01(thorough bool) (js []mc.Job) {
	for _, fam := range concFams() {
		fam := fam
		js = append(js, mc.Shard(4, "nested calls: "+fam.name, func(cs *mc.Cases) {
			for v := range fam.variants {
				if cs.Stopped() {
					return
				}
				nestedCases(cs, thorough, fam, v)
				writes := len(fam.mk(v, 1)[0].writes)
				for w := 0; w < writes && !fam.big[v]; w++ {
					f := afterEdit(fam, v, w)
					nestedCases(cs, thorough, f, v)
					for w2 := 0; w2 < writes && thorough; w2++ {
						nestedCases(cs, thorough, afterEdit(f, v, w2), v)
					}
				}
			}
		})...)
	}
	return mc.WithOrders([]int{0}, js)
}

// afterEdit is the family with an edit done on the first container.
func afterEdit(fam cfam, v, w int) cfam {
	f := fam
	f.name += " after " + fam.mk(v, 1)[0].writes[w].name
	f.mk = func(v, n int) []*cobj {
		objs := fam.mk(v, n)
		script([]cop{objs[0].writes[w]}, &rec{})()
		return objs
	}
	return f
}

func nestedCases(cs *mc.Cases, thorough bool, fam cfam, v int) {
	contents := func(o *cobj) []int64 {
		var r rec
		o.all(&r)
		return r.v
	}
	const made = 2
	// what each operation yields on its own, and what it leaves
	type outcome struct {
		rec, after []int64
		calls      int
	}
	var alone [made][]outcome
	var untouched [made][]int64
	var nr, na [made]int
	for w := 0; w < made; w++ {
		objs := fam.mk(v, made)
		nr[w], na[w] = len(objs[w].reads), len(objs[w].reads)+len(objs[w].writes)
		untouched[w] = contents(objs[w])
		for b := 0; b < na[w]; b++ {
			o := fam.mk(v, made)[w]
			var r rec
			calls := runHooked(o.op(b), &r, -1, nil)
			alone[w] = append(alone[w], outcome{r.v, contents(o), calls})
		}
	}
	names := fam.mk(v, made)
	where := func(w int) string { return cond(w == 0, "the same container", "the other container") }
	diff := func(t *mc.T, what string, got, want []int64) {
		if !eqSlice(got, want) {
			t.Failf("%s: got %v, want %v", what, got, want)
		}
	}
	for a := 0; a < na[0]; a++ {
		ks := positions(alone[0][a].calls, thorough)
		if len(ks) == 0 {
			continue
		}
		nameA := names[0].op(a).name
		for w := 0; w < made; w++ {
			if w == 0 && a >= nr[0] {
				continue
			}
			for b := 0; b < cond(w == 0, nr[0], na[w]); b++ {
				nameB := names[w].op(b).name
				cs.Do(func() string {
					return fmt.Sprintf("%s (%s): %s, calling back %s on %s", fam.name, fam.variants[v], nameA, nameB, where(w))
				}, func(t *mc.T) {
					for _, k := range ks {
						t.Step()
						objs := fam.mk(v, made)
						var ra, rb rec
						ran := false
						runHooked(objs[0].op(a), &ra, k, func() {
							ran = true
							script([]cop{objs[w].op(b)}, &rb)()
						})
						diff(t, fmt.Sprintf("%s with %s at callback %d", nameA, nameB, k), ra.v, alone[0][a].rec)
						diff(t, fmt.Sprintf("contents after %s with %s at callback %d", nameA, nameB, k), contents(objs[0]), alone[0][a].after)
						if !ran {
							t.Add("callback_not_reached", 1)
							continue
						}
						diff(t, fmt.Sprintf("%s inside %s at callback %d", nameB, nameA, k), rb.v, alone[w][b].rec)
						if w > 0 {
							diff(t, fmt.Sprintf("contents of the other container after %s inside %s at callback %d", nameB, nameA, k), contents(objs[w]), alone[w][b].after)
						}
						t.State(fam.name, v, a, w, b, k)
					}
				})
			}
		}
		// copies taken by the function
		if a < nr[0] && names[0].clone != nil {
			cs.Do(func() string {
				return fmt.Sprintf("%s (%s): %s, copying the container from within", fam.name, fam.variants[v], nameA)
			}, func(t *mc.T) {
				for _, k := range ks {
					for b := 0; b < 2*na[0]; b++ {
						t.Step()
						objs := fam.mk(v, made)
						var ra, rb rec
						var c *cobj
						runHooked(objs[0].op(a), &ra, k, func() { c = objs[0].clone() })
						if c == nil {
							continue
						}
						diff(t, fmt.Sprintf("%s copying at callback %d", nameA, k), ra.v, alone[0][a].rec)
						edited, other := objs[0], c
						if b >= na[0] {
							edited, other = c, objs[0]
						}
						what := fmt.Sprintf("%s on the %s after %s copied at callback %d", names[0].op(b%na[0]).name, cond(b < na[0], "original", "copy"), nameA, k)
						script([]cop{edited.op(b % na[0])}, &rb)()
						if b < na[0] {
							diff(t, what, rb.v, alone[0][b].rec)
							diff(t, what+": contents", contents(edited), alone[0][b].after)
						}
						diff(t, what+": contents of the other", contents(other), untouched[0])
						t.State(fam.name, v, a, b, k, "copy")
					}
				}
			})
		}
		// a read inside a read inside a read
		for b := 0; b < nr[0] && a < nr[0] && !fam.big[v]; b++ {
			nb := alone[0][b].calls
			if nb == 0 || !thorough && nb*len(ks) > 150 {
				continue
			}
			for c := 0; c < nr[0]; c++ {
				inner := []int{a, b, c}
				cs.Do(func() string {
					return fmt.Sprintf("%s (%s): %s, calling back %s, calling back %s", fam.name, fam.variants[v], nameA, names[0].op(b).name, names[0].op(c).name)
				}, func(t *mc.T) {
					for _, k := range ks {
						for k2 := 0; k2 < nb; k2++ {
							t.Step()
							o := fam.mk(v, made)[0]
							var r [3]rec
							var ran [3]bool
							runHooked(o.op(a), &r[0], k, func() {
								ran[1] = true
								runHooked(o.op(b), &r[1], k2, func() {
									ran[2] = true
									script([]cop{o.op(c)}, &r[2])()
								})
							})
							ran[0] = true
							for i, x := range inner {
								if ran[i] {
									diff(t, fmt.Sprintf("%s at nesting depth %d, callbacks %d and %d", names[0].op(x).name, i, k, k2), r[i].v, alone[0][x].rec)
								}
							}
							diff(t, fmt.Sprintf("contents afterwards, callbacks %d and %d", k, k2), contents(o), untouched[0])
						}
					}
					t.State(fam.name, v, a, b, c)
				})
			}
		}
		// the function panics
		cs.Do(func() string {
			return fmt.Sprintf("%s (%s): %s, abandoned by a panic", fam.name, fam.variants[v], nameA)
		}, func(t *mc.T) {
			for _, k := range ks {
				abandon := func() []*cobj {
					objs := fam.mk(v, made)
					var ra rec
					runHooked(objs[0].op(a), &ra, k, func() { panic(abandoned{}) })
					return objs
				}
				t.Step()
				objs := abandon()
				if a < nr[0] {
					diff(t, fmt.Sprintf("contents after %s panicked at callback %d", nameA, k), contents(objs[0]), untouched[0])
				}
				diff(t, fmt.Sprintf("contents of the other container after %s panicked at callback %d", nameA, k), contents(objs[1]), untouched[1])
				// An edit that panicked leaves its own container in whatever
				// state it likes, but the other one must not notice, whatever is
				// done with the first.
				for b := 0; b < na[0] && a >= nr[0]; b++ {
					t.Step()
					objs := abandon()
					catch(script([]cop{objs[0].op(b)}, &rec{}))
					diff(t, fmt.Sprintf("contents of the other container when %s on the same container followed %s panicking at callback %d", names[0].op(b).name, nameA, k), contents(objs[1]), untouched[1])
				}
				for w := cond(a < nr[0], 0, 1); w < made; w++ {
					for b := 0; b < na[w]; b++ {
						t.Step()
						objs := abandon()
						var rb rec
						script([]cop{objs[w].op(b)}, &rb)()
						diff(t, fmt.Sprintf("%s on %s after %s panicked at callback %d", names[w].op(b).name, where(w), nameA, k), rb.v, alone[w][b].rec)
						diff(t, fmt.Sprintf("contents of %s when %s followed %s panicking at callback %d", where(w), names[w].op(b).name, nameA, k), contents(objs[w]), alone[w][b].after)
					}
				}
				t.State(fam.name, v, a, k, "panic")
			}
		})
	}
}

func init() {
	reg(&mc.Property{ID: "N01", Rule: "for every container family, size and relation of two containers, as built and after every edit of the first (thorough: every two edits): every operation, at every one of its calls to a function of the caller (iteration function, ordering, equality, hash, eviction callback) and every step of an iterator loop, with every read of the same container (into reads) or every operation on the other container nested there; reads nested three deep; the container copied there, then the original or the copy edited; the function panicking at every one of these points, followed by every operation (an edit that panicked leaves its own container unspecified, but not the other, whatever is done with the first afterwards); each operation's results and the containers' contents compared with the operations running alone (containers of 90 elements: the first and last 24 callbacks and every 8th)",
		Assumptions: []string{stdAssume}, Jobs: n01})
}
