package props

import (
	"fmt"

	"github.com/zyedidia/generic/cache"
	"verif/mc"
)

type ckv struct {
	K int
	V L
}

const (
	cbNone = iota
	cbA
	cbB
	cbRead      // lists and measures the cache
	cbGetVictim // looks the victim up
	cbGetOther  // looks the next victim up, which spares it
	cbGetAll    // looks everything up
	cbN
)

var cbNames = []string{"nil", "record A", "record B", "Each+Size+Capacity", "Get(victim)", "Get(second oldest)", "Get(all)"}

type csys struct {
	c     *cache.Cache[int, L]
	keys  int
	caps  int // capacities 0..caps-1
	cbs   []int
	cap   int
	m     []ckv // most recently used first
	cb    int
	next  L
	calls []string // of the running operation
	err   error
	cur   int // key being put, -1
}

func newCsys(capacity, keys, caps int, cbs []int) *csys {
	s := &csys{c: cache.New[int, L](capacity), keys: keys, caps: caps, cbs: cbs, cap: capacity, cur: -1}
	return s
}

// Put k | Get k | Remove k | Resize c | SetEvictCallback x
func (s *csys) nops() int { return 3*s.keys + s.caps + len(s.cbs) }
func (s *csys) opName(op int) string {
	if op < 3*s.keys {
		return fmt.Sprintf("%s(%d)", []string{"Put", "Get", "Remove"}[op/s.keys], op%s.keys)
	}
	if op -= 3 * s.keys; op < s.caps {
		return fmt.Sprintf("Resize(%d)", op)
	}
	return "SetEvictCallback(" + cbNames[s.cbs[op-s.caps]] + ")"
}

func (s *csys) find(k int) int {
	for i, e := range s.m {
		if e.K == k {
			return i
		}
	}
	return -1
}

func (s *csys) touch(k int) {
	i := s.find(k)
	if i < 0 {
		return
	}
	n := []ckv{s.m[i]}
	for j, e := range s.m {
		if j != i {
			n = append(n, e)
		}
	}
	s.m = n
}

func (s *csys) remove(k int) {
	if i := s.find(k); i >= 0 {
		n := []ckv{}
		for j, e := range s.m {
			if j != i {
				n = append(n, e)
			}
		}
		s.m = n
	}
}

func (s *csys) fail(format string, args ...any) {
	if s.err == nil {
		s.err = errf(format, args...)
	}
}

// callback returns a function with its own code pointer for each kind: that is
// what the canonical form of a state sees of a function.
func (s *csys) callback(kind int) func(k int, v L) {
	switch kind {
	case cbA:
		return func(k int, v L) { s.called(cbA, k, v) }
	case cbB:
		return func(k int, v L) { s.called(cbB, k, v) }
	case cbRead:
		return func(k int, v L) { s.called(cbRead, k, v) }
	case cbGetVictim:
		return func(k int, v L) { s.called(cbGetVictim, k, v) }
	case cbGetOther:
		return func(k int, v L) { s.called(cbGetOther, k, v) }
	case cbGetAll:
		return func(k int, v L) { s.called(cbGetAll, k, v) }
	}
	return nil
}

// called is run by the cache under test: it runs the model along.
func (s *csys) called(kind int, k int, v L) {
	s.calls = append(s.calls, fmt.Sprint(k))
	if kind != s.cb {
		s.fail("a replaced callback was called")
		return
	}
	if len(s.m) == 0 {
		s.fail("callback(%d) with an empty cache", k)
		return
	}
	if len(s.calls) > 50 {
		panic("endless callbacks")
	}
	victim := s.m[len(s.m)-1]
	if k != victim.K {
		s.fail("callback for key %d, but the least recently used key is %d (%v)", k, victim.K, s.m)
		return
	}
	if v != victim.V {
		s.fail("callback for key %d has a stale value", k)
		return
	}
	get := func(k int) {
		v, ok := s.c.Get(k)
		i := s.find(k)
		if ok != (i >= 0) || ok && v != s.m[i].V {
			s.fail("in callback: Get(%d) = %v,%v, want %v", k, v, ok, s.m)
		}
		s.touch(k)
	}
	switch kind {
	case cbRead, cbA:
		// All entries not yet evicted are there, the victim included.
		var got []ckv
		n := 0
		s.c.Each(func(k int, v L) {
			n++
			if k != s.cur {
				got = append(got, ckv{k, v})
			}
		})
		if !eqSlice(got, s.m) {
			s.fail("in callback: Each visits %v, want %v", got, s.m)
		}
		if s.c.Size() != n {
			s.fail("in callback: Size() = %d, but Each visits %d", s.c.Size(), n)
		}
		if s.c.Capacity() != s.cap {
			s.fail("in callback: Capacity() = %d, want %d", s.c.Capacity(), s.cap)
		}
	case cbGetVictim:
		get(victim.K)
	case cbGetOther:
		if len(s.m) > 1 {
			get(s.m[len(s.m)-2].K)
		}
	case cbGetAll:
		for k := 0; k < s.keys; k++ {
			if k != s.cur {
				get(k)
			}
		}
	}
	s.remove(victim.K)
}

func (s *csys) Apply(op int) (bool, error) {
	s.calls, s.err, s.cur = nil, nil, -1
	before := len(s.m)
	shouldEvict := 0
	switch {
	case op < s.keys:
		k := op
		s.next++
		v := s.next
		if i := s.find(k); i >= 0 {
			s.c.Put(k, v)
			s.m[i].V = v
			s.touch(k)
			break
		}
		if s.cap == 0 {
			s.c.Put(k, v)
			break
		}
		if before >= s.cap {
			shouldEvict = before - s.cap + 1
		}
		s.cur = k
		if s.cb == cbNone {
			for len(s.m) >= s.cap {
				s.m = s.m[:len(s.m)-1]
			}
			s.c.Put(k, v)
			s.m = append([]ckv{{k, v}}, s.m...)
			break
		}
		s.c.Put(k, v)
		s.m = append([]ckv{{k, v}}, s.m...)
		if len(s.calls) > 0 && (s.cb == cbGetOther || s.cb == cbGetAll) {
			// A lookup made by the callback may count before or after the put.
			var got []int
			s.c.Each(func(k int, v L) { got = append(got, k) })
			if len(got) > 0 && len(got) == len(s.m) && got[0] != k {
				for i, x := range got {
					if x == k && s.lookedUp(got[:i]) {
						n := append([]ckv{}, s.m[1:i+1]...)
						s.m = append(append(n, s.m[0]), s.m[i+1:]...)
					}
				}
			}
		}
	case op < 2*s.keys:
		k := op - s.keys
		v, ok := s.c.Get(k)
		i := s.find(k)
		if ok != (i >= 0) || ok && v != s.m[i].V || !ok && v != 0 {
			return true, errf("Get(%d) = %v,%v, want %v", k, v, ok, s.m)
		}
		s.touch(k)
	case op < 3*s.keys:
		s.c.Remove(op - 2*s.keys)
		s.remove(op - 2*s.keys)
	case op < 3*s.keys+s.caps:
		c := op - 3*s.keys
		s.cap = c
		if before > c {
			shouldEvict = before - c
		}
		s.c.Resize(c)
		if s.cb == cbNone {
			for len(s.m) > c {
				s.m = s.m[:len(s.m)-1]
			}
		}
	default:
		kind := s.cbs[op-3*s.keys-s.caps]
		s.cb = kind
		if kind == cbNone {
			s.c.SetEvictCallback(nil)
		} else {
			s.c.SetEvictCallback(s.callback(kind))
		}
	}
	if s.err != nil {
		return true, s.err
	}
	if s.cb == cbNone {
		shouldEvict = 0
	}
	if len(s.calls) != shouldEvict {
		return true, errf("%d callbacks %v, want %d", len(s.calls), s.calls, shouldEvict)
	}
	return true, nil
}

// lookedUp: the callbacks of the running operation looked all these keys up.
func (s *csys) lookedUp(ks []int) bool { return s.cb == cbGetAll || len(ks) == 1 }

func (s *csys) Observe() error {
	var got []ckv
	s.c.Each(func(k int, v L) {
		got = append(got, ckv{k, v})
		guardLen(len(got), 3*len(s.m)+10)
	})
	if !eqSlice(got, s.m) {
		return errf("Each visits %v, want %v", got, s.m)
	}
	if n := s.c.Size(); n != len(s.m) {
		return errf("Size() = %d, want %d", n, len(s.m))
	}
	if n := s.c.Capacity(); n != s.cap {
		return errf("Capacity() = %d, want %d", n, s.cap)
	}
	return nil
}

func (s *csys) Roots() []any {
	return []any{s.cap, s.cb, s.m[:len(s.m):len(s.m)], s.c}
}

func cacheSpaces(nm string, keys, caps int, cbs []int, depth int) []mc.Job {
	s := newCsys(0, keys, caps, cbs)
	var cfgs []string
	for i := 0; i < caps; i++ {
		cfgs = append(cfgs, fmt.Sprintf("New(%d)", i))
	}
	return mc.Configs(caps, nm, cfgs, s.nops(), s.opName, depth, func(i int) mc.Sys {
		return newCsys(i, keys, caps, cbs)
	})
}

// cacheSweep: long scripts over large capacities, with the LRU model.
func cacheSweep(shards int, cbs []int, th bool) []mc.Job {
	return mc.Shard(shards, "cache/sweep", func(cs *mc.Cases) {
		for _, c := range append(rangeInts(0, 20, 1), pick(th, []int{31, 32, 33, 64, 100}, []int{31, 32, 33, 64, 65, 100, 128, 129, 300})...) {
			for _, over := range []int{0, 1, c / 2, c} {
				for _, script := range []string{"p", "pg", "pgr", "ppr", "ppggz", "pzr"} {
					for _, cb := range cbs {
						cs.Do(name("capacity %d, %d keys, script %s, callback %s", c, c+over, script, cbNames[cb]), func(t *mc.T) {
							keys := c + over + 1
							s := newCsys(c, keys, 2*c+2, []int{cb})
							do := func(op int) {
								t.Step()
								_, err := s.Apply(op)
								t.Check(err)
							}
							do(3*keys + s.caps)
							for i := 0; i < 4*keys+10; i++ {
								j := i / len(script)
								switch script[i%len(script)] {
								case 'p':
									do((i * 7) % keys)
								case 'g':
									do(keys + (j*3)%keys)
								case 'r':
									do(2*keys + (j*5)%keys)
								case 'z':
									do(3*keys + (c+j*11)%s.caps)
								}
								if c < 20 || i%16 == 0 {
									t.Check(s.Observe())
								}
							}
							do(3*keys + c/2)
							t.Check(s.Observe())
							do(3 * keys)
							t.Check(s.Observe())
							do(3*keys + c)
							do(0)
							t.Check(s.Observe())
							t.State(c, over, script, cb)
						})
					}
				}
			}
		}
	})
}

func init() {
	reg(&mc.Property{ID: "C01",
		Rule:        "for every initial capacity: all histories (to fixpoint) of puts (fresh values), lookups, removals and resizes over n keys, compared with a sequence model of least-recently-used replacement, iteration/size/capacity in every state; plus long scripts over larger capacities; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders; capacities up to the largest int",
		Assumptions: []string{stdAssume, "values are data-independent", "capacities are not negative"},
		Jobs: func(th bool) []mc.Job {
			return jobs(
				cacheSpaces("cache/keys4", 4, 6, nil, 0),
				cacheSpaces("cache/keys5", 5, pick(th, 6, 7), nil, pick(th, 0, 0)),
				cacheSpaces("cache/keys6", 6, pick(th, 4, 8), nil, 0),
				cacheSpaces("cache/keys4-callback", 4, 5, []int{cbNone, cbA}, 0),
				typedKeyed(th, "cache-keys", "cache-values", "cache-keys-full", "cache-values-full"),
				largeCache(pick(th, []int{1000, 4097, 70000}, []int{1000, 4097, 40000, 70000, 200000}), false),
				hugeCapacity(),
				cacheSweep(8, []int{cbNone}, th))
		}})
	reg(&mc.Property{ID: "C02",
		Rule:        "for every initial capacity: all histories (to fixpoint) of puts, lookups, removals, resizes and callback registrations (none, two recording ones, one that lists and measures the cache, three that look entries up), the callback itself running the model and checking its arguments, order and surroundings; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "values are data-independent", "callbacks do not add or remove entries, resize, or register callbacks", "a lookup made by the callback of a put may count as older or younger than that put"},
		Jobs: func(th bool) []mc.Job {
			all := []int{cbNone, cbA, cbB, cbRead, cbGetVictim, cbGetOther, cbGetAll}
			return jobs(
				cacheSpaces("cache/keys3", 3, 5, all, 0),
				cacheSpaces("cache/keys4", 4, 5, all, 0),
				cacheSpaces("cache/keys5", 5, pick(th, 6, 7), all, 0),
				typedKeyed(th, "cache-keys-full", "cache-values-full"),
				largeCache(pick(th, []int{1000, 4097, 70000}, []int{1000, 4097, 40000, 70000, 200000}), true),
				cacheSweep(8, all[1:], th))
		}})
}
