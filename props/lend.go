package props

import (
	"fmt"
	"sort"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/trie"
	"verif/mc"
)

// N02: slices and maps that containers hand out, and slices given to
// constructors. The oracle for the container is a twin put through the same
// edits whose listings are never kept or written to; a kept listing is compared
// with a private copy of it.

// held is a listing somebody has kept.
type held struct {
	nm    string
	same  func() bool
	spoil func()
	root  any
}

func holdSlice[T comparable](nm string, v []T, junk T) *held {
	want := append([]T{}, v...)
	return &held{nm, func() bool { return eqSlice(v, want) }, func() {
		for i := range v[:cap(v)] {
			v[:cap(v)][i] = junk
		}
		for i := range want {
			want[i] = junk
		}
	}, &v}
}

func holdMap[K comparable](nm string, v map[K]struct{}, junk K) *held {
	want := map[K]struct{}{}
	for k := range v {
		want[k] = struct{}{}
	}
	return &held{nm, func() bool {
		if len(v) != len(want) {
			return false
		}
		for k := range want {
			if _, ok := v[k]; !ok {
				return false
			}
		}
		return true
	}, func() {
		for k := range v {
			delete(v, k)
		}
		v[junk] = struct{}{}
		want = map[K]struct{}{junk: {}}
	}, &v}
}

// lender is a container with listings.
type lender struct {
	obs   func() []any // everything it holds
	edits []func(i int)
	lists []func() *held
	input *held // what it was made from
	root  any
}

type lendKind struct {
	name  string
	edits []string
	lists []string
	input bool
	sizes []int
	mk    func(n int) *lender
}

type lendSys struct {
	k     *lendKind
	ops   []string
	c     []*lender // two of them: an edit changes the first, ...
	twin  []*lender
	slot  [2]*held
	count int
}

func lendOps(k *lendKind) (r []string) {
	for _, e := range k.edits {
		r = append(r, e)
	}
	r = append(r, "other "+k.edits[0])
	for _, l := range k.lists {
		r = append(r, "x = "+l, "y = "+l)
	}
	if len(k.lists) > 0 {
		r = append(r, "overwrite x", "overwrite y", "x = other "+k.lists[0])
	}
	if k.input {
		r = append(r, "overwrite the slice it was made from")
	}
	return
}

func (s *lendSys) Apply(op int) (bool, error) {
	s.count++
	if op < len(s.k.edits) {
		s.c[0].edits[op](s.count)
		s.twin[0].edits[op](s.count)
		return true, nil
	}
	if op -= len(s.k.edits); op == 0 {
		s.c[1].edits[0](s.count)
		s.twin[1].edits[0](s.count)
		return true, nil
	}
	if op--; op < 2*len(s.k.lists) {
		s.slot[op%2] = s.c[0].lists[op/2]()
		return true, nil
	}
	op -= 2 * len(s.k.lists)
	if len(s.k.lists) > 0 {
		if op == 2 {
			s.slot[0] = s.c[1].lists[0]()
			return true, nil
		}
		if op < 2 {
			if s.slot[op] == nil {
				return false, nil
			}
			s.slot[op].spoil()
			return true, nil
		}
	}
	s.c[0].input.spoil()
	return true, nil
}

func (s *lendSys) Observe() error {
	for i := range s.c {
		if got, want := s.c[i].obs(), s.twin[i].obs(); !eqSlice(got, want) {
			return errf("%s holds %v, want %v", cond(i == 0, "the container", "the other container"), got, want)
		}
		if h := s.c[i].input; h != nil && !h.same() {
			return errf("the slice the container was made from changed: %v", h.root)
		}
	}
	for i, h := range s.slot {
		if h != nil && !h.same() {
			return errf("%s, the result of %s, changed: %v", cond(i == 0, "x", "y"), h.nm, h.root)
		}
	}
	return nil
}

func (s *lendSys) Roots() []any {
	var r []any
	for i := range s.c {
		r = append(r, s.c[i].root, s.twin[i].root)
		if s.c[i].input != nil {
			r = append(r, s.c[i].input.root)
		}
	}
	for _, h := range s.slot {
		if h != nil {
			r = append(r, h.nm, h.root)
		} else {
			r = append(r, "none")
		}
	}
	return r
}

func anys[T any](v []T) (r []any) {
	for _, x := range v {
		r = append(r, x)
	}
	return
}

func lendKinds() (ks []lendKind) {
	small, some := []int{0, 1, 2, 3, 5}, []int{9, 17, 40, 70, 300, 1100}
	add := func(name string, edits, lists []string, input bool, mk func(n int) *lender) {
		ks = append(ks, lendKind{name, edits, lists, input, append(small[:5:5], some...), mk})
	}
	upto := func(n int) []int { return gen(n, func(i int) int { return 10 + i }) }

	newQueue := func(q *queue.Queue[int], in *held) *lender {
		return &lender{input: in, root: q,
			obs: func() []any { return append(anys(q.PeekAll()), q.Len()) },
			edits: []func(int){
				func(i int) { q.Enqueue(500 + i) },
				func(i int) { q.TryDequeue() },
				func(i int) { q.Clear() },
			},
			lists: []func() *held{
				func() *held { return holdSlice("PeekAll", q.PeekAll(), -1) },
			}}
	}
	add("queue", []string{"Enqueue", "TryDequeue", "Clear"}, []string{"PeekAll()"}, false, func(n int) *lender {
		q := queue.New[int]()
		for _, v := range upto(n) {
			q.Enqueue(v)
		}
		return newQueue(q, nil)
	})
	add("queue/Of", []string{"Enqueue", "TryDequeue", "Clear"}, []string{"PeekAll()"}, true, func(n int) *lender {
		in := append(make([]int, 0, n+4), upto(n)...)
		return newQueue(queue.Of(in), holdSlice("given", in, -1))
	})

	add("trie", []string{"Put", "Remove(first)", "Remove(another)"}, []string{"Keys()", `KeysWithPrefix("b")`, `KeysWithPrefix("a")`}, false, func(n int) *lender {
		t := trie.New[int]()
		for i := 0; i < n; i++ {
			t.Put(string([]byte{byte('a' + i%3), byte('a' + i/3)}), i)
		}
		return &lender{root: t,
			obs: func() []any {
				r := append(anys(t.Keys()), t.Size())
				return append(r, anys(t.KeysWithPrefix("b"))...)
			},
			edits: []func(int){
				func(i int) { t.Put(fmt.Sprint("b", i%3), i) },
				func(i int) { t.Remove("aa") },
				func(i int) { t.Remove("ba") },
			},
			lists: []func() *held{
				func() *held { return holdSlice("Keys", t.Keys(), "!") },
				func() *held { return holdSlice("KeysWithPrefix", t.KeysWithPrefix("b"), "!") },
				func() *held { return holdSlice("KeysWithPrefix", t.KeysWithPrefix("a"), "!") },
			}}
	})

	add("interval", []string{"Put", "Remove(first)", "Put(long)"}, []string{"Overlaps(all)", "Overlaps(begin)", "Overlaps(end)"}, false, func(n int) *lender {
		t := interval.New[int, int]()
		for i := 0; i < n; i++ {
			t.Put(3*i, 3*i+4, i)
		}
		over := func(l, h int) func() *held {
			return func() *held {
				return holdSlice("Overlaps", t.Overlaps(l, h), interval.KV[int, int]{Low: -1, High: -1, Val: -1})
			}
		}
		return &lender{root: t,
			obs: func() []any {
				var r []any
				t.Each(func(l, h, v int) { r = append(r, l, h, v) })
				return append(r, append(anys(t.Overlaps(-1, 1000)), t.Size())...)
			},
			edits: []func(int){
				func(i int) { t.Put(1, 7, i) },
				func(i int) { t.Remove(0) },
				func(i int) { t.Put(3, 200, i) },
			},
			lists: []func() *held{over(-1, 1000), over(0, 5), over(3*n-4, 3*n+1)}}
	})

	sets := []struct {
		name string
		mk   func(in []int) set.SetOf[int]
	}{
		{"mapset", func(in []int) set.SetOf[int] { s := mapset.Of(in...); return &s }},
		{"hashset", func(in []int) set.SetOf[int] {
			return hashset.Of(4, g.Equals[int], g.HashInt, in...)
		}},
		{"set over mapset", func(in []int) set.SetOf[int] { return set.NewMapset(in...) }},
		{"set over hashset", func(in []int) set.SetOf[int] {
			return set.NewHashset(4, g.Equals[int], g.HashInt, in...)
		}},
	}
	for _, sk := range sets {
		sk := sk
		lists := []string{"Keys()", "Map()"}
		if sk.name == "mapset" || sk.name == "hashset" {
			lists = nil // nothing to hand out
		}
		add(sk.name, []string{"Put", "Remove(first)", "Clear"}, lists, true, func(n int) *lender {
			in := append(make([]int, 0, n+4), upto(n)...)
			s := sk.mk(in)
			l := &lender{root: s, input: holdSlice("given", in, -1),
				obs: func() []any {
					var r []int
					s.Each(func(k int) { r = append(r, k) })
					sort.Ints(r)
					return append(anys(r), s.Size())
				},
				edits: []func(int){
					func(i int) { s.Put(500 + i%3) },
					func(i int) { s.Remove(10) },
					func(i int) { s.Clear() },
				}}
			if lists != nil {
				x := s.(set.Set[int])
				l.lists = []func() *held{
					func() *held { return holdSlice("Keys", x.Keys(), -1) },
					func() *held { return holdMap("Map", x.Map(), -1) },
				}
			}
			return l
		})
	}

	mms := []struct {
		name string
		mk   func() multimap.MultiMap[int, int]
	}{
		{"multimap.NewMapSet", func() multimap.MultiMap[int, int] { return multimap.NewMapSet[int, int](g.Less[int]) }},
		{"multimap.NewAvlSet", func() multimap.MultiMap[int, int] { return multimap.NewAvlSet[int, int](g.Less[int], g.Less[int]) }},
	}
	for _, mk := range mms {
		mk := mk
		add(mk.name, []string{"Put", "Remove(1, first)", "RemoveAll(1)"}, []string{"Get(1)", "Get(2)", "list from EachAssociation"}, false, func(n int) *lender {
			m := mk.mk()
			for _, v := range upto(n) {
				m.Put(1+v%2, v)
			}
			return &lender{root: m,
				obs: func() []any {
					var r []any
					for k := 0; k < 4; k++ {
						r = append(r, append(anys(m.Get(k)), m.Count(k))...)
					}
					return append(r, m.Size(), m.Dimension())
				},
				edits: []func(int){
					func(i int) { m.Put(1, 500+i%3) },
					func(i int) { m.Remove(1, 10) },
					func(i int) { m.RemoveAll(1) },
				},
				lists: []func() *held{
					func() *held { return holdSlice("Get", m.Get(1), -1) },
					func() *held { return holdSlice("Get", m.Get(2), -1) },
					func() *held {
						var l []int
						m.EachAssociation(func(k int, v []int) {
							if k == 2 || l == nil {
								l = v
							}
						})
						return holdSlice("EachAssociation", l, -1)
					},
				}}
		})
	}

	add("prope", []string{"Insert", "Remove", "Join with itself"}, []string{"Value()", "Slice(begin)", "Slice(end)"}, false, func(n int) *lender {
		r := prope.New(upto(n))
		l := &lender{root: &r,
			obs: func() []any { return append(anys(r.Value()), r.Len()) },
			edits: []func(int){
				func(i int) { r = r.Insert(r.Len()/2, []int{500 + i}) },
				func(i int) { r = r.Remove(r.Len()/3, r.Len()/2) },
				func(i int) {
					if r.Len() < 300 {
						r = prope.Join(r, r)
					}
				},
			}}
		l.lists = []func() *held{
			func() *held { return holdSlice("Value", r.Value(), -1) },
			func() *held { return holdSlice("Slice", r.Slice(0, r.Len()/2), -1) },
			func() *held { return holdSlice("Slice", r.Slice(r.Len()/3, r.Len()), -1) },
		}
		return l
	})

	// input only
	add("array2d.OfJagged", []string{"Set", "Fill", "Row"}, nil, true, func(n int) *lender {
		w, h := n%4+1, n/4+1
		cells := upto(w*h + 4)
		var rows [][]int
		for y := 0; y < h; y++ {
			rows = append(rows, cells[y*w:y*w+w])
		}
		a := array2d.OfJagged(w, h, rows)
		return &lender{root: &a, input: holdSlice("given", cells, -1),
			obs: func() []any {
				var r []any
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						r = append(r, a.Get(x, y))
					}
				}
				return r
			},
			edits: []func(int){
				func(i int) { a.Set(w-1, h-1, i) },
				func(i int) { a.Fill(0, 0, w-1, 0, i) },
				func(i int) { a.Row(h / 2)[0] = i },
			}}
	})
	return
}

func lendSpaces(th bool) (js []mc.Job) {
	for _, k := range lendKinds() {
		for _, n := range k.sizes {
			k, n := k, n
			ops := lendOps(&k)
			js = append(js, &mc.Space{Name: fmt.Sprintf("lend/%s, %d elements", k.name, n), NOps: len(ops), NoRepeat: true,
				OpName: func(o int) string { return ops[o] },
				Depth:  pick(th, cond(n < 9, 5, cond(n < 100, 4, 3)), cond(n < 9, 7, cond(n < 100, 5, 4))),
				New: func() mc.Sys {
					s := &lendSys{k: &k, ops: ops}
					for i := 0; i < 2; i++ {
						s.c = append(s.c, k.mk(n))
						s.twin = append(s.twin, k.mk(n))
					}
					return s
				}})
		}
	}
	return
}

func init() {
	reg(&mc.Property{ID: "N02",
		Rule:        "all histories to the stated depth of edits, taking listings (two are kept at a time, of two containers), overwriting kept listings and constructor arguments (up to their capacity), from several sizes on; containers compared with twins whose listings nobody keeps, kept listings with private copies",
		Assumptions: []string{stdAssume},
		Jobs:        func(th bool) []mc.Job { return lendSpaces(th) }})
}
