package mc

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// A space that is finite on the unchanged tree stays unfinished when the code
// gains a counter (a generation, a clock, a cached statistic): every repetition
// of the same few operations then leads to a new state. Breadth first search
// cannot reach the histories on which such a counter wraps or saturates, so an
// unfinished space is explored once more along its loops: every word of one or
// two operations is repeated until the state repeats or the number of
// repetitions passes the sizes of the usual counters, and followed by every
// single operation.

//
// Every other space has its words of one operation (thorough: of two as well)
// repeated likewise, as far as a number of operations per space allows:
// counters that are no part of the state (package variables), and those that
// the depth bound hides.

// lassoWindows are the numbers of repetitions around which every continuation
// is tried: 8 and 16 bit counters, signed and unsigned.
var lassoWindows = [][2]int{{124, 130}, {252, 259}}

// lassoLarge: 16 bit counters advanced once or twice per repetition; each
// followed by up to lassoExtra further repetitions
var lassoLarge = []int{32762, 65530}

const lassoExtra = 9

// Before that, words of one and two operations are repeated lassoMedium times
// with the observers around round and binary counts, and every operation is
// applied lassoTurns times, each time followed by one or two others in turn: what is
// due every so many operations (cleaning up, sampling) happens there.
const (
	lassoMedium = 1100
	lassoTurns  = 2500
	lassoPairs  = 12
	observeCost = 8
)

// nearRound tells the counts around which medium observes.
func nearRound(n int) bool {
	for d := -1; d <= 1; d++ {
		if m := n + d; m%50 == 0 || m&(m-1) == 0 {
			return true
		}
	}
	return false
}

func compress(names []string) (r []string) {
	for i := 0; i < len(names); {
		best, reps := 1, 1
		for l := 1; l <= 2; l++ {
			n := 1
			for i+(n+1)*l <= len(names) && strings.Join(names[i+n*l:i+(n+1)*l], ";") == strings.Join(names[i:i+l], ";") {
				n++
			}
			if n*l > best*reps && n > 3 {
				best, reps = l, n
			}
		}
		if reps > 3 {
			r = append(r, fmt.Sprintf("%d times: %s", reps, strings.Join(names[i:i+best], "; ")))
			i += best * reps
		} else {
			r = append(r, names[i])
			i++
		}
	}
	return
}

type lasso struct {
	s     *Space
	c     *Ctx
	until time.Time
	max   int64 // operations, 0 = any number

	observed int64 // the observers, in operations
	hist     []int
	sys      Sys
}

func (l *lasso) stop() bool {
	if l.max > 0 {
		return l.c.Stats.Steps+l.observed > l.max || l.c.stop() != ""
	}
	return time.Now().After(l.until) || l.c.stop() != ""
}

func (l *lasso) fail(err error) *Failure {
	h := append([]int(nil), l.hist...)
	return l.s.fail(h, err)
}

// start makes a fresh system in the given base state.
func (l *lasso) start(base []int) *Failure {
	l.hist = l.hist[:0]
	if err := guard("new", func() error { l.sys = l.s.New(); return nil }); err != nil {
		return l.fail(err)
	}
	for _, op := range base {
		if _, f := l.apply(op, false); f != nil {
			return f
		}
	}
	return nil
}

func (l *lasso) apply(op int, observe bool) (bool, *Failure) {
	l.hist = append(l.hist, op)
	l.c.Journal.Push(op, len(l.hist))
	if observe {
		l.observed += observeCost
	}
	enabled, err := l.s.step(l.c, l.sys, op, observe)
	if err != nil {
		return false, l.fail(err)
	}
	if !enabled {
		l.hist = l.hist[:len(l.hist)-1]
	}
	return enabled, nil
}

// word applies the operations of w; it reports whether all were enabled.
func (l *lasso) word(w []int) (bool, *Failure) {
	all := true
	for _, op := range w {
		en, f := l.apply(op, false)
		if f != nil {
			return false, f
		}
		all = all && en
	}
	return all, nil
}

// suffixes applies every operation in turn, starting with the given one, with
// one repetition of w between them.
func (l *lasso) suffixes(w []int, first int) *Failure {
	n := l.s.NOps - l.s.Init
	for i := 0; i < n; i++ {
		if _, f := l.apply(l.s.Init+(first+i)%n, true); f != nil {
			return f
		}
		if _, f := l.word(w); f != nil {
			return f
		}
	}
	return nil
}

// loops reports whether repeating w from base leads to a state twice within a
// few repetitions (then the loop was explored completely by that), or cannot
// be continued.
func (l *lasso) loops(base, w []int) (bool, *Failure) {
	if f := l.start(base); f != nil {
		return false, f
	}
	seen := map[Key]bool{}
	for i := 0; i < 12; i++ {
		k := l.c.canon.Key(l.sys.Roots()...)
		if seen[k] {
			return true, nil
		}
		seen[k] = true
		all, f := l.word(w)
		if f != nil || !all {
			return true, f
		}
	}
	return false, nil
}

// small tries every continuation by one operation (of few operations: by every
// two) after every number of repetitions in the windows.
func (l *lasso) small(base, w []int, windows [][2]int) *Failure {
	n := l.s.NOps - l.s.Init
	for _, win := range windows {
		for reps := win[0]; reps <= win[1]; reps++ {
			for s := 0; s < n; s++ {
				seconds := 1
				if n <= lassoPairs {
					seconds = n
				}
				for s2 := 0; s2 < seconds; s2++ {
					if f := l.start(base); f != nil {
						return f
					}
					for i := 0; i < reps; i++ {
						if _, f := l.word(w); f != nil {
							return f
						}
					}
					if err := guard("observe", l.sys.Observe); err != nil {
						return l.fail(err)
					}
					en, f := l.apply(l.s.Init+s, true)
					if f != nil {
						return f
					}
					if !en {
						break
					}
					if seconds > 1 {
						if _, f := l.apply(l.s.Init+s2, true); f != nil {
							return f
						}
					}
				}
			}
			if l.stop() {
				return nil
			}
		}
	}
	return nil
}

func (l *lasso) large(base, w []int, first int) *Failure {
	for _, from := range lassoLarge {
		if f := l.start(base); f != nil {
			return f
		}
		for i := 0; i < from+lassoExtra; i++ {
			if _, f := l.word(w); f != nil {
				return f
			}
			if i >= from {
				if err := guard("observe", l.sys.Observe); err != nil {
					return l.fail(err)
				}
			}
		}
		if f := l.suffixes(w, first); f != nil {
			return f
		}
	}
	return nil
}

// medium repeats w; it stops early where w can do nothing.
func (l *lasso) medium(base, w []int) *Failure {
	if f := l.start(base); f != nil {
		return f
	}
	for n := 1; n <= lassoMedium; n++ {
		obs, any := nearRound(n), false
		for _, op := range w {
			en, f := l.apply(op, obs)
			if f != nil {
				return f
			}
			any = any || en
		}
		if !any {
			return nil
		}
	}
	return nil
}

// turns applies op again and again, and between that one (pairs: two) of the
// other operations in turn.
func (l *lasso) turns(base []int, op int, pairs bool) *Failure {
	if f := l.start(base); f != nil {
		return f
	}
	n := l.s.NOps - l.s.Init
	turns := lassoTurns
	if pairs && n <= lassoPairs {
		turns = 64 * n * n
	}
	for i := 0; i < turns; i++ {
		o := []int{op, l.s.Init + i%n}
		if pairs {
			o = append(o, l.s.Init+(5*i+i/n)%n)
		}
		for k, o := range o {
			if l.s.noLoop(o) {
				continue
			}
			if _, f := l.apply(o, k > 0); f != nil {
				return f
			}
		}
	}
	return nil
}

func (s *Space) noLoop(op int) bool { return s.NoLoop != nil && s.NoLoop(op-s.Init) }

// counts runs turns and medium for all words, from the last base on.
func (l *lasso) counts(bases [][]int) *Failure {
	s := l.s
	n := s.NOps - s.Init
	shift := 0
	for _, b := range []byte(s.Name) {
		shift = (shift*31 + int(b)) % n
	}
	for two := -1; two < n; two++ {
		for bi := len(bases) - 1; bi >= 0; bi-- {
			for i := 0; i < n; i++ {
				if l.stop() {
					return nil
				}
				// two-operation words in the order of their distance
				w := []int{s.Init + (i+shift)%n}
				if two == 0 {
					continue
				}
				if two > 0 {
					w = append(w, s.Init+(i+shift+two)%n)
				}
				if s.noLoop(w[0]) || s.noLoop(w[len(w)-1]) {
					continue
				}
				if two < 0 {
					for _, pairs := range []bool{false, true} {
						if f := l.turns(bases[bi], w[0], pairs); f != nil {
							return f
						}
					}
				}
				if f := l.medium(bases[bi], w); f != nil {
					return f
				}
				l.c.Stats.Add("loops_counted", 1)
			}
		}
	}
	return nil
}

// exact tries every operation after exactly so many repetitions.
func (l *lasso) exact(base, w []int) *Failure {
	for i := 0; i < len(lassoLarge)*lassoExtra; i++ {
		n := lassoLarge[1-i%2] + i/2
		for s := l.s.Init; s < l.s.NOps; s++ {
			if l.stop() {
				return nil
			}
			if f := l.start(base); f != nil {
				return f
			}
			for i := 0; i < n; i++ {
				if _, f := l.word(w); f != nil {
					return f
				}
			}
			en, f := l.apply(s, true)
			if f != nil {
				return f
			}
			if !en {
				continue
			}
			// what the operation left behind shows at the next one
			if _, f := l.word(w); f != nil {
				return f
			}
			if err := guard("observe", l.sys.Observe); err != nil {
				return l.fail(err)
			}
		}
	}
	return nil
}

// lasso explores the loops of an unfinished space from the given base states.
func (s *Space) lasso(c *Ctx, bases [][]int, budget time.Duration) *Failure {
	l := &lasso{s: s, c: c, until: time.Now().Add(budget / 3)}
	if f := l.counts(bases); f != nil || s.NoLoop != nil {
		return f
	}
	l.until = time.Now().Add(budget)
	var ones, twos [][2]int // index of base, index of word
	var words [][]int
	for a := s.Init; a < s.NOps; a++ {
		words = append(words, []int{a})
	}
	nones := len(words)
	for a := s.Init; a < s.NOps; a++ {
		for b := s.Init; b < s.NOps; b++ {
			if a != b {
				words = append(words, []int{a, b})
			}
		}
	}
	collect := func(lo, hi int) (r [][2]int, f *Failure) {
		for wi := lo; wi < hi; wi++ {
			for bi := range bases {
				if l.stop() {
					return
				}
				done, f := l.loops(bases[bi], words[wi])
				if f != nil {
					return r, f
				}
				if !done {
					r = append(r, [2]int{bi, wi})
				}
			}
		}
		return
	}
	each := func(ps [][2]int, what string, f func(base, w []int) *Failure) *Failure {
		for _, p := range ps {
			if l.stop() {
				return nil
			}
			if fl := f(bases[p[0]], words[p[1]]); fl != nil {
				return fl
			}
			c.Stats.Histories++
			c.Stats.Add(what, 1)
		}
		return nil
	}
	small := func(b, w []int) *Failure { return l.small(b, w, lassoWindows) }
	var f *Failure
	if ones, f = collect(0, nones); f != nil {
		return f
	}
	if f = each(ones, "loops_short", small); f != nil {
		return f
	}
	large := func(first int) func(b, w []int) *Failure {
		return func(b, w []int) *Failure { return l.large(b, w, first) }
	}
	if f = each(ones, "loops_long", large(0)); f != nil {
		return f
	}
	// The rest shares the remaining time: half of it for the exact counts.
	end := l.until
	l.until = time.Now().Add(time.Until(end) / 2)
	sort.SliceStable(ones, func(i, j int) bool { return len(bases[ones[i][0]]) > len(bases[ones[j][0]]) })
	if f = each(ones, "loops_exact", l.exact); f != nil {
		return f
	}
	l.until = end
	if twos, f = collect(nones, len(words)); f != nil {
		return f
	}
	if f = each(twos, "loops_short", small); f != nil {
		return f
	}
	if f = each(twos, "loops_long", large(0)); f != nil {
		return f
	}
	for first := 1; first < s.NOps-s.Init; first++ {
		if f = each(ones, "loops_long", large(first)); f != nil {
			return f
		}
	}
	return nil
}

// repeat is for the spaces that were finished.
func (s *Space) repeat(c *Ctx, bases [][]int, steps int64) *Failure {
	n := s.NOps - s.Init
	if n == 0 || len(bases) == 0 {
		return nil
	}
	l := &lasso{s: s, c: c, max: c.Stats.Steps + 4*steps}
	if s.NoLoop != nil { // nothing else follows
		l.max += 8 * steps
	}
	if f := l.counts(bases); f != nil || s.NoLoop != nil {
		return f
	}
	l.max, l.observed = c.Stats.Steps+steps, 0
	// spaces of a family begin with different words
	shift := 0
	for _, b := range []byte(s.Name) {
		shift = (shift*31 + int(b)) % n
	}
	for two := -1; two < n; two++ {
		for bi := len(bases) - 1; bi >= 0; bi-- {
			for i := 0; i < n; i++ {
				if l.stop() {
					return nil
				}
				w := []int{s.Init + (i+shift)%n}
				if two >= 0 {
					if i == two {
						continue
					}
					w = append(w, s.Init+two)
				}
				if f := l.small(bases[bi], w, [][2]int{{254, 257}}); f != nil {
					return f
				}
				if f := l.large(bases[bi], w, i); f != nil {
					return f
				}
				c.Stats.Add("loops", 1)
			}
		}
	}
	return nil
}
