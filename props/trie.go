package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/zyedidia/generic/trie"
	"verif/mc"
)

// ---- tries ----

// tspec: keys are put and removed, extra keys only removed; probes are looked
// up as well.
type tspec struct {
	keys  []string
	extra []string
	probe []string
}

type tsys struct {
	sp   *tspec
	list bool // check listings and prefix queries instead of lookups
	t    *trie.Trie[mc.Label]
	val  []mc.Label
	next mc.Label
}

func newTsys(sp *tspec, list bool) *tsys {
	return &tsys{sp: sp, list: list, t: trie.New[mc.Label](), val: make([]mc.Label, len(sp.keys))}
}

func (sp *tspec) nops() int { return 2*len(sp.keys) + len(sp.extra) }

func (sp *tspec) opName(op int) string {
	n := len(sp.keys)
	switch {
	case op < n:
		return fmt.Sprintf("Put(%q)", sp.keys[op])
	case op < 2*n:
		return fmt.Sprintf("Remove(%q)", sp.keys[op-n])
	}
	return fmt.Sprintf("Remove(%q)", sp.extra[op-2*n])
}

func (s *tsys) Apply(op int) (bool, error) {
	n := len(s.sp.keys)
	switch {
	case op < n:
		s.next++
		s.t.Put(s.sp.keys[op], s.next)
		if s.sp.keys[op] != "" {
			s.val[op] = s.next
		}
	case op < 2*n:
		s.t.Remove(s.sp.keys[op-n])
		s.val[op-n] = 0
	default:
		s.t.Remove(s.sp.extra[op-2*n])
	}
	return true, nil
}

func (s *tsys) value(k string) mc.Label {
	for i, q := range s.sp.keys {
		if q == k {
			return s.val[i]
		}
	}
	return 0
}

// stored returns the present keys in ascending order.
func (s *tsys) stored() (r []string) {
	for i, k := range s.sp.keys {
		if s.val[i] != 0 {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return
}

func (s *tsys) Observe() error {
	stored := s.stored()
	return checkTrie(s.t, stored, s.value, s.list, s.sp.keys, s.sp.extra, s.sp.probe)
}

func checkTrie(t *trie.Trie[mc.Label], stored []string, value func(k string) mc.Label, list bool, probes ...[]string) error {
	if !list {
		if n := t.Size(); n != len(stored) {
			return errf("Size() = %d, want %d", n, len(stored))
		}
		for _, ps := range probes {
			for _, k := range ps {
				w := value(k)
				if v, ok := t.Get(k); v != w || ok != (w != 0) {
					return errf("Get(%q) = %d,%v, want %d,%v", k, v, ok, w, w != 0)
				}
				if ok := t.Contains(k); ok != (w != 0) {
					return errf("Contains(%q) = %v, want %v", k, ok, w != 0)
				}
			}
		}
		return nil
	}
	if got := t.Keys(); !eqSlice(got, stored) {
		return errf("Keys() = %q, want %q", got, stored)
	}
	var want []string
	for _, ps := range probes {
		for _, k := range ps {
			want = want[:0]
			longest := ""
			for _, q := range stored {
				if strings.HasPrefix(q, k) {
					want = append(want, q)
				}
				if strings.HasPrefix(k, q) && len(q) > len(longest) {
					longest = q
				}
			}
			if got := t.KeysWithPrefix(k); !eqSlice(got, want) {
				return errf("KeysWithPrefix(%q) = %q, want %q", k, got, want)
			}
			if got := t.LongestPrefix(k); got != longest {
				return errf("LongestPrefix(%q) = %q, want %q", k, got, longest)
			}
		}
	}
	return nil
}

func (s *tsys) Roots() []any { return []any{s.val, s.t} }

// allStrings lists the strings over alphabet with length 1..n (0..n if empty).
func allStrings(alphabet string, n int, empty bool) (r []string) {
	if empty {
		r = append(r, "")
	}
	for l := 1; l <= n; l++ {
		tuples(l, len(alphabet), func(t []int) {
			b := make([]byte, l)
			for i, x := range t {
				b[i] = alphabet[x]
			}
			r = append(r, string(b))
		})
	}
	return
}

// subsets calls f with every k-subset of 0..n-1.
func subsets(n, k int, f func(s []int)) {
	s := gen(k, func(i int) int { return i })
	for {
		f(s)
		i := k - 1
		for i >= 0 && s[i] == n-k+i {
			i--
		}
		if i < 0 {
			return
		}
		s[i]++
		for j := i + 1; j < k; j++ {
			s[j] = s[j-1] + 1
		}
	}
}

// tsubsets explores, for every k-subset of universe, all put/remove histories
// over that subset (to fixpoint).
func tsubsets(nm string, shards int, universe []string, k int, probe []string, list bool) []mc.Job {
	var specs []*tspec
	var names []string
	subsets(len(universe), k, func(s []int) {
		sp := &tspec{probe: probe}
		for _, i := range s {
			sp.keys = append(sp.keys, universe[i])
		}
		// absent keys to remove: proper prefixes and an extension
		seen := map[string]bool{}
		for _, q := range sp.keys {
			seen[q] = true
		}
		for _, q := range sp.keys {
			for l := 1; l < len(q); l++ {
				if p := q[:l]; !seen[p] && len(sp.extra) < 3 {
					seen[p] = true
					sp.extra = append(sp.extra, p)
				}
			}
		}
		if e := sp.keys[k-1] + sp.keys[0]; !seen[e] {
			sp.extra = append(sp.extra, e)
		}
		specs = append(specs, sp)
		names = append(names, fmt.Sprintf("%q", sp.keys))
	})
	if shards > len(specs) {
		shards = len(specs)
	}
	// each specification has its own number of operations
	var js []mc.Job
	for sh := 0; sh < shards; sh++ {
		var sub []*tspec
		var subn []string
		nops := 0
		for i := sh; i < len(specs); i += shards {
			sub = append(sub, specs[i])
			subn = append(subn, names[i])
			if n := specs[i].nops(); n > nops {
				nops = n
			}
		}
		cur := sub
		j := mc.Configs(1, fmt.Sprintf("%s#%d/%d", nm, sh, shards), subn, nops, func(op int) string { return fmt.Sprintf("op%d", op) }, 0,
			func(i int) mc.Sys { return &tguard{newTsys(cur[i], list)} })
		sp := j[0].(*mc.Space)
		base := sp.OpName
		sp.OpName = base
		sp.HistName = func(h []int) []string {
			r := make([]string, len(h))
			for i, o := range h {
				if i == 0 || h[0] < 0 || o < 0 {
					r[i] = "observe"
					if o >= 0 {
						r[i] = base(o)
					}
					continue
				}
				r[i] = cur[h[0]].opName(o - len(cur))
			}
			return r
		}
		js = append(js, j...)
	}
	return js
}

// tguard disables operations beyond those of its specification.
type tguard struct{ *tsys }

func (g *tguard) Apply(op int) (bool, error) {
	if op >= g.sp.nops() {
		return false, nil
	}
	return g.tsys.Apply(op)
}

func tspace(nm string, keys, extra, probe []string, list bool) []mc.Job {
	sp := &tspec{keys: keys, extra: extra, probe: probe}
	return one(&mc.Space{Name: "trie/" + nm, NOps: sp.nops(), OpName: sp.opName, New: func() mc.Sys { return newTsys(sp, list) }})
}

// tsweep: larger key sets.
func tsweep(shards int, th, list bool) []mc.Job {
	type fam struct {
		name string
		keys []string
	}
	var fams []fam
	fams = append(fams,
		fam{"len<=3 over 4", allStrings("abcd", 3, false)},
		fam{"all bytes", func() (r []string) {
			for i := 0; i < 256; i++ {
				r = append(r, string([]byte{byte(i)}))
			}
			return
		}()},
		fam{"chain", func() (r []string) {
			s := strings.Repeat("ab\x00\xff", 20)
			for i := 1; i <= len(s); i++ {
				r = append(r, s[:i])
			}
			return
		}()},
		fam{"long shared prefix", func() (r []string) {
			p := strings.Repeat("x", 300)
			for _, s := range allStrings("abc", 3, true) {
				r = append(r, p+s)
			}
			return
		}()},
		fam{"numbers", func() (r []string) {
			for i := 0; i < 300; i++ {
				r = append(r, fmt.Sprint(i*7))
			}
			return
		}()},
		fam{"suffix-sharing", func() (r []string) {
			for i := 0; i < 60; i++ {
				r = append(r, string([]byte{byte(i * 4), 'a', byte(255 - i)}), string([]byte{byte(i * 4), 'a'}))
			}
			return
		}()},
	)
	if th {
		fams = append(fams, fam{"len<=5 over 3", allStrings("a\x80\xff", 5, false)}, fam{"len<=2 over 16", allStrings("0123456789abcdef", 2, false)})
	}
	return mc.Shard(shards, "trie/sweep", func(cs *mc.Cases) {
		for _, f := range fams {
			for _, ins := range patterns {
				for _, del := range patterns {
					f := f
					cs.Do(name("%s (%d keys) insert %s, overwrite, remove %s, put back", f.name, len(f.keys), ins.name, del.name), func(t *mc.T) {
						tr := trie.New[mc.Label]()
						m := map[string]mc.Label{}
						n := len(f.keys)
						sorted := append([]string{}, f.keys...)
						sort.Strings(sorted)
						var probe []string
						for i := 0; i < n; i += 1 + n/40 {
							k := f.keys[i]
							probe = append(probe, k, k+"a", k+"\x00", k[:len(k)-1], k[:len(k)/2])
						}
						check := func() {
							var stored []string
							for _, k := range sorted {
								if m[k] != 0 {
									stored = append(stored, k)
								}
							}
							t.Check(checkTrie(tr, stored, func(k string) mc.Label { return m[k] }, list, probe))
						}
						c := 0
						next := mc.Label(0)
						step := func(k string, put bool) {
							t.Step()
							if put {
								next++
								tr.Put(k, next)
								m[k] = next
							} else {
								tr.Remove(k)
								delete(m, k)
							}
							if c++; c%(1+n/6) == 0 {
								check()
							}
						}
						for _, i := range ins.perm(n) {
							step(f.keys[i], true)
						}
						check()
						for j, i := range del.perm(n) {
							if j%3 == 0 {
								step(f.keys[i], true)
							}
							step(f.keys[i], false)
							step(f.keys[i], false)
							if j%4 == 0 {
								step(f.keys[ins.perm(n)[j]], true)
							}
						}
						check()
						for _, i := range del.perm(n) {
							step(f.keys[i], true)
						}
						check()
						t.State(f.name, ins.name, del.name)
					})
				}
			}
		}
	})
}

// tlong: keys longer than any counter of 8 or 16 bits. Listing is only asked
// of the shorter ones, since it may well take quadratic space.
func tlong(th, list bool) []mc.Job {
	text := strings.Repeat("0123456789", 7001)
	key := func(n int, tail string) string { return text[:n] + tail }
	type fam struct {
		name string
		list bool
		keys []string
	}
	fams := []fam{
		{"lengths up to 70000", false, []string{key(70000, ""), key(65536, ""), key(65535, ""), key(65537, "x"), key(255, ""), key(256, ""), "0", key(69999, "\x00"), key(1000, "x")}},
		{"lengths up to 33000", true, []string{key(33000, ""), key(32768, ""), key(32767, "x"), key(256, ""), "0"}},
		{"lengths up to 1030", true, []string{key(1030, ""), key(1024, ""), key(1023, "x"), key(513, ""), key(512, "\xff"), key(256, ""), key(255, ""), key(128, ""), key(127, "\x00"), "0"}},
	}
	return mc.Shard(3, "trie/long-keys", func(cs *mc.Cases) {
		for _, f := range fams {
			f := f
			n := len(f.keys)
			for _, ins := range patterns[:pick(th, 2, 4)] {
				cs.Do(name("%s, insert %s, overwrite, remove", f.name, ins.name), func(t *mc.T) {
					tr := trie.New[mc.Label]()
					m := map[string]mc.Label{}
					cut := func(l []string) string {
						var r []string
						for _, k := range l {
							r = append(r, fmt.Sprintf("%d bytes ending in %q", len(k), k[max(0, len(k)-3):]))
						}
						return strings.Join(r, ", ")
					}
					check := func() {
						var stored []string
						for k := range m {
							stored = append(stored, k)
						}
						sort.Strings(stored)
						if tr.Size() != len(stored) {
							t.Failf("Size() = %d, stored: %s", tr.Size(), cut(stored))
						}
						for _, k := range f.keys {
							for _, q := range []string{k, k + "a", k[:len(k)-1], k[:len(k)/2]} {
								t.Step()
								w, held := m[q]
								if v, ok := tr.Get(q); v != w || ok != held || tr.Contains(q) != held {
									t.Failf("Get or Contains of %s is wrong, stored: %s", cut([]string{q}), cut(stored))
								}
								if list {
									longest := ""
									for _, s := range stored {
										if strings.HasPrefix(q, s) {
											longest = s
										}
									}
									if got := tr.LongestPrefix(q); got != longest {
										t.Failf("LongestPrefix(%s) = %s, stored: %s", cut([]string{q}), cut([]string{got}), cut(stored))
									}
								}
							}
						}
						if list && f.list {
							t.Step()
							if got := tr.Keys(); !eqSlice(got, stored) {
								t.Failf("Keys() = %s, stored: %s", cut(got), cut(stored))
							}
							for _, p := range []string{f.keys[0][:len(f.keys[0])-1], f.keys[1], f.keys[0][:200], "1"} {
								t.Step()
								var want []string
								for _, s := range stored {
									if strings.HasPrefix(s, p) {
										want = append(want, s)
									}
								}
								if got := tr.KeysWithPrefix(p); !eqSlice(got, want) {
									t.Failf("KeysWithPrefix(%s) = %s, stored: %s", cut([]string{p}), cut(got), cut(stored))
								}
							}
						}
					}
					check()
					next := mc.Label(0)
					for i, k := range ins.perm(n) {
						t.Step()
						next++
						tr.Put(f.keys[k], next)
						m[f.keys[k]] = next
						if i%4 == 1 {
							next++
							tr.Put(f.keys[k], next)
							m[f.keys[k]] = next
						}
						if i == n/2 {
							check()
						}
					}
					check()
					t.State(f.name, ins.name)
					for i, k := range f.keys {
						t.Step()
						tr.Remove(k + "0")
						tr.Remove(k)
						delete(m, k+"0")
						delete(m, k)
						if i == n/2 || i == 0 || i == n-2 {
							check()
						}
					}
					check()
				})
			}
		}
	})
}

func trieJobs(th, list bool) []mc.Job {
	ab := allStrings("ab", 3, false)                // 14
	abc := allStrings("abc", 2, false)              // 12
	ext := allStrings("\x00\x7f\x80\xff", 2, false) // 20
	return jobs(
		tlong(th, list),
		typedKeyed(th, "trie"),
		largeKeyed("trie", largeSizes(th), lTrie(list)),
		tsweep(8, th, list),
		tsubsets("trie/ab3", 8, ab, pick(th, 5, 6), allStrings("ab", 4, true), list),
		tsubsets("trie/abc2", 8, abc, pick(th, 5, 6), allStrings("abc", 3, true), list),
		tsubsets("trie/bytes2", 8, ext, pick(th, 3, 4), append(allStrings("\x00\x7f\x80\xff", 2, true), "\x00\x00\x00", "\xff\xff\xff", "\x01", "\xfe"), list),
		tspace("siblings", strings.Split("a b c d e f"+cond(th, " g", ""), " "), []string{"aa", "ca", "A", "z"}, []string{"", "aa", "ab", "bb", "cb", "A", "z"}, list),
		tspace("siblings-below", strings.Split("xa xb xc xd xe", " "), []string{"x", "xaa", "y"}, append(allStrings("xae", 3, true), "xb", "xc", "xd"), list),
		tspace("prefix-chain", []string{"a", "ab", "abc", "abcd", "abd", "b", ""}, []string{"abcde", "ac"}, append(allStrings("abcd", 3, true), "abcd", "abcde", "abdd"), list),
	)
}

func init() {
	const asm = "at most k distinct keys for arbitrary histories, larger key sets only through the enumerated families"
	reg(&mc.Property{ID: "T01",
		Rule:        "for every k-subset of the listed universes of byte strings (all strings up to a length over small alphabets incl. bytes 0x00/0x7f/0x80/0xff): all put/remove histories to fixpoint, including removals of absent prefixes and extensions and of the empty key; every string up to one byte longer is looked up in every state; plus large families in all insertion/removal patterns; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "values are data-independent", asm},
		Jobs:        func(th bool) []mc.Job { return trieJobs(th, false) }})
	reg(&mc.Property{ID: "T02",
		Rule:        "as T01; in every state Keys, KeysWithPrefix and LongestPrefix are compared for every string up to one byte longer than the keys; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "values are data-independent", asm},
		Jobs:        func(th bool) []mc.Job { return trieJobs(th, true) }})
}
