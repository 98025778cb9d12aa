package props

import (
	"fmt"

	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/ulist"
	"verif/mc"
)

// ---- doubly linked list ----

// lsys: nlists lists sharing a pool of nodes; a node is in at most one list.
type lsys struct {
	n     int
	lists []*list.List[int]
	node  []*list.Node[int]
	model [][]int // per list: node indexes in order
}

type lop struct {
	kind    string
	l, i, j int
}

// values adds PushBack and PushFront, which make a fresh node each time: with
// them the space is infinite, because removed nodes keep their stale links.
func lops(nl, n int, values bool) (r []lop) {
	for l := 0; l < nl; l++ {
		for i := 0; i < n; i++ {
			for _, k := range []string{"PushBackNode", "PushFrontNode", "Remove", "PushBack", "PushFront"} {
				if k == "PushBack" && !values {
					break
				}
				r = append(r, lop{k, l, i, -1})
			}
			for j := 0; j < n; j++ {
				if i != j {
					r = append(r, lop{"InsertAfter", l, i, j}, lop{"InsertBefore", l, i, j})
				}
			}
		}
	}
	return
}

func (o lop) String() string {
	if o.j < 0 {
		return fmt.Sprintf("%s(l%d,n%d)", o.kind, o.l, o.i)
	}
	return fmt.Sprintf("%s(l%d,n%d,n%d)", o.kind, o.l, o.i, o.j)
}

func newLsys(nl, n int) *lsys {
	s := &lsys{n: n, model: make([][]int, nl)}
	for i := 0; i < nl; i++ {
		s.lists = append(s.lists, list.New[int]())
		s.model[i] = []int{}
	}
	for i := 0; i < n; i++ {
		s.node = append(s.node, &list.Node[int]{Value: 100 + i})
	}
	return s
}

func (s *lsys) find(i int) (l, p int) {
	for l, m := range s.model {
		for p, x := range m {
			if x == i {
				return l, p
			}
		}
	}
	return -1, -1
}

func insertInt(s []int, p, v int) []int {
	r := make([]int, 0, len(s)+1)
	return append(append(append(r, s[:p]...), v), s[p:]...)
}
func removeInt(s []int, p int) []int {
	r := make([]int, 0, len(s))
	return append(append(r, s[:p]...), s[p+1:]...)
}

func (s *lsys) apply(o lop) (bool, error) {
	l := s.lists[o.l]
	at, p := s.find(o.i)
	switch o.kind {
	case "PushBackNode", "PushFrontNode", "PushBack", "PushFront":
		if at >= 0 {
			return false, nil
		}
		switch o.kind {
		case "PushBackNode":
			l.PushBackNode(s.node[o.i])
		case "PushFrontNode":
			l.PushFrontNode(s.node[o.i])
		case "PushBack":
			l.PushBack(100 + o.i)
			s.node[o.i] = l.Back
		case "PushFront":
			l.PushFront(100 + o.i)
			s.node[o.i] = l.Front
		}
		if o.kind == "PushBackNode" || o.kind == "PushBack" {
			s.model[o.l] = insertInt(s.model[o.l], len(s.model[o.l]), o.i)
		} else {
			s.model[o.l] = insertInt(s.model[o.l], 0, o.i)
		}
	case "Remove":
		if at != o.l {
			return false, nil
		}
		l.Remove(s.node[o.i])
		s.model[o.l] = removeInt(s.model[o.l], p)
	default:
		if b, _ := s.find(o.j); at != o.l || b >= 0 {
			return false, nil
		}
		var r *list.Node[int]
		if o.kind == "InsertAfter" {
			r = l.InsertAfter(s.node[o.i], s.node[o.j])
			p++
		} else {
			r = l.InsertBefore(s.node[o.i], s.node[o.j])
		}
		if r != s.node[o.j] {
			return true, errf("returned another node than the one added")
		}
		s.model[o.l] = insertInt(s.model[o.l], p, o.j)
	}
	return true, nil
}

func (s *lsys) Observe() error {
	for li, l := range s.lists {
		m := s.model[li]
		if (l.Front == nil) != (len(m) == 0) || (l.Back == nil) != (len(m) == 0) {
			return errf("l%d: Front nil: %v, Back nil: %v with %d nodes", li, l.Front == nil, l.Back == nil, len(m))
		}
		// n == nil walks an empty list
		check := func(from int) error {
			var n *list.Node[int]
			if from >= 0 {
				n = s.node[m[from]]
			}
			var fwd, back []int
			if from >= 0 {
				fwd = m[from:]
				for i := from; i >= 0; i-- {
					back = append(back, m[i])
				}
			}
			var got []int
			lim := 3*s.n + 3
			vals := func(v int) { got = append(got, v-100); guardLen(len(got), lim) }
			nodes := func(n *list.Node[int]) { got = append(got, n.Value-100); guardLen(len(got), lim) }
			for _, w := range []struct {
				nm   string
				f    func()
				want []int
			}{
				{"Each", func() { n.Each(vals) }, fwd},
				{"EachNode", func() { n.EachNode(nodes) }, fwd},
				{"EachReverse", func() { n.EachReverse(vals) }, back},
				{"EachReverseNode", func() { n.EachReverseNode(nodes) }, back},
				{"Next links", func() {
					for x := n; x != nil; x = x.Next {
						nodes(x)
					}
				}, fwd},
				{"Prev links", func() {
					for x := n; x != nil; x = x.Prev {
						nodes(x)
					}
				}, back},
			} {
				got = got[:0]
				w.f()
				if !eqSlice(got, w.want) {
					return errf("l%d: %s from position %d visits %v, want %v", li, w.nm, from, got, w.want)
				}
			}
			return nil
		}
		if len(m) == 0 {
			if err := check(-1); err != nil {
				return err
			}
			continue
		}
		if l.Front != s.node[m[0]] || l.Back != s.node[m[len(m)-1]] {
			return errf("l%d: Front or Back is the wrong node, want %v", li, m)
		}
		for i := range m {
			if err := check(i); err != nil {
				return err
			}
		}
	}
	return nil
}

func guardLen(n, lim int) {
	if n > lim {
		panic("iteration does not end (cyclic links)")
	}
}

type lspace struct {
	*lsys
	ops []lop
}

func (s *lspace) Apply(op int) (bool, error) { return s.apply(s.ops[op]) }
func (s *lspace) Roots() []any               { return []any{s.model, s.lists, s.node} }

func listSpace(nl, n, depth int, values bool) []mc.Job {
	ops := lops(nl, n, values)
	return one(&mc.Space{Name: fmt.Sprintf("list/%dlists-%dnodes%s", nl, n, cond(values, "-values", "")), NOps: len(ops), Depth: depth,
		OpName: func(o int) string { return ops[o].String() },
		New:    func() mc.Sys { return &lspace{newLsys(nl, n), ops} }})
}

// ---- unrolled list ----

type usys struct {
	iters bool // the iterator is part of the state and of the alphabet
	max   int
	ul    *ulist.UList[L]
	it    *ulist.UListIter[L]
	m     []L
	pos   int // iterator position in m; -1 before, len(m) after; -2 none
	next  L
	// a second iterator, which an edit invalidates
	it2  *ulist.UListIter[L]
	pos2 int
}

var uopsIter = []string{"PushBack", "PushFront", "Begin", "End", "Next", "Prev", "AddAfter", "AddBefore", "Remove"}
var uopsTwo = append(uopsIter[:9:9], "second Begin", "second End", "second Next", "second Prev", "exchange iterators")

// without a live iterator: edits at every position through a fresh iterator
// walked from the front or from the back
func uopNames(iters bool, max int) []string {
	if iters {
		return uopsIter
	}
	r := []string{"PushBack", "PushFront"}
	for _, k := range []string{"AddAfter", "AddBefore", "Remove"} {
		for p := 0; p < max; p++ {
			r = append(r, fmt.Sprintf("%s(begin+%d)", k, p), fmt.Sprintf("%s(end-%d)", k, p))
		}
	}
	return r
}

func (s *usys) Apply(op int) (bool, error) {
	if !s.iters && op >= 2 {
		kind, p, fromEnd := (op-2)/2/s.max, (op-2)/2%s.max, op%2 == 1
		if p >= len(s.m) || kind < 2 && len(s.m) >= s.max {
			return false, nil
		}
		if fromEnd {
			s.it, s.pos = s.ul.End(), len(s.m)-1
			for i := 0; i < p; i++ {
				s.it.Prev()
				s.pos--
			}
		} else {
			s.it, s.pos = s.ul.Begin(), 0
			for i := 0; i < p; i++ {
				s.it.Next()
				s.pos++
			}
		}
		ok, err := s.applyIter(6 + kind)
		s.it, s.pos = nil, -2
		return ok, err
	}
	return s.applyIter(op)
}

func (s *usys) applyIter(op int) (bool, error) {
	if op == 13 {
		if s.it2 == nil {
			return false, nil
		}
		s.it, s.pos, s.it2, s.pos2 = s.it2, s.pos2, s.it, s.pos
		if s.it2 == nil {
			s.pos2 = -2
		}
		return true, nil
	}
	if op > 8 {
		// the same with the iterators exchanged
		it, pos := s.it, s.pos
		if s.it, s.pos = s.it2, s.pos2; s.it == nil {
			s.pos = -2
		}
		en, err := s.applyIter(op - 7)
		s.it2, s.pos2 = s.it, s.pos
		s.it, s.pos = it, pos
		return en, err
	}
	if op < 2 || op > 5 {
		defer func() { s.it2, s.pos2 = nil, -2 }()
	}
	valid := s.pos >= 0 && s.pos < len(s.m)
	switch op {
	case 0, 1:
		if len(s.m) >= s.max {
			return false, nil
		}
		s.next++
		if op == 0 {
			s.ul.PushBack(s.next)
			s.m = insertAt(s.m, len(s.m), []L{s.next})
		} else {
			s.ul.PushFront(s.next)
			s.m = insertAt(s.m, 0, []L{s.next})
		}
		s.it, s.pos = nil, -2 // iterators do not survive other modifications
	case 2, 3:
		if len(s.m) == 0 {
			it := cond(op == 2, s.ul.Begin, s.ul.End)()
			if it.IsValid() {
				return true, errf("iterator of an empty list is valid")
			}
			return true, nil
		}
		if op == 2 {
			s.it, s.pos = s.ul.Begin(), 0
		} else {
			s.it, s.pos = s.ul.End(), len(s.m)-1
		}
	case 4, 5:
		if s.pos == -2 {
			return false, nil
		}
		var r bool
		if op == 4 {
			r = s.it.Next()
			s.pos = min(s.pos+1, len(s.m))
		} else {
			r = s.it.Prev()
			s.pos = max(s.pos-1, -1)
		}
		if want := s.pos >= 0 && s.pos < len(s.m); r != want {
			return true, errf("returned %v, want %v (position %d of %d)", r, want, s.pos, len(s.m))
		}
	case 6, 7:
		if !valid || len(s.m) >= s.max {
			return false, nil
		}
		s.next++
		if op == 6 {
			s.ul.AddAfter(s.it, s.next)
			s.pos++
		} else {
			s.ul.AddBefore(s.it, s.next)
		}
		s.m = insertAt(s.m, s.pos, []L{s.next})
	case 8:
		if !valid {
			return false, nil
		}
		s.ul.Remove(s.it)
		s.m = removeAt(s.m, s.pos, s.pos+1)
		if len(s.m) == 0 {
			if s.it.IsValid() {
				return true, errf("iterator is valid after removing the only element")
			}
			s.it, s.pos = nil, -2
		}
	}
	return true, nil
}

func (s *usys) Observe() error {
	if n := s.ul.Size(); n != len(s.m) {
		return errf("Size() = %d, want %d", n, len(s.m))
	}
	if !s.iters {
		return observeUlist(s.ul, s.m)
	}
	if s.it2 != nil && s.pos2 != -2 {
		valid := s.pos2 >= 0 && s.pos2 < len(s.m)
		if v := s.it2.IsValid(); v != valid {
			return errf("second iterator: IsValid() = %v, want %v (position %d of %d)", v, valid, s.pos2, len(s.m))
		}
		if valid && s.it2.Get() != s.m[s.pos2] {
			return errf("second iterator: Get() = %v, want %v (position %d of %v)", s.it2.Get(), s.m[s.pos2], s.pos2, s.m)
		}
	}
	if s.pos == -2 {
		return nil
	}
	it := *s.it
	valid := s.pos >= 0 && s.pos < len(s.m)
	if v := it.IsValid(); v != valid {
		return errf("IsValid() = %v, want %v (position %d of %d)", v, valid, s.pos, len(s.m))
	}
	if valid && it.Get() != s.m[s.pos] {
		return errf("Get() = %v, want %v (position %d of %v)", it.Get(), s.m[s.pos], s.pos, s.m)
	}
	// walk copies of the iterator off both ends and one step back
	for p := s.pos + 1; p <= len(s.m); p++ {
		ok := it.Next()
		if ok != (p < len(s.m)) || it.IsValid() != ok {
			return errf("walking forward from %d: Next to %d of %d returns %v", s.pos, p, len(s.m), ok)
		}
		if ok && it.Get() != s.m[p] {
			return errf("walking forward from %d: element %d is %v, want %v", s.pos, p, it.Get(), s.m[p])
		}
	}
	if !it.Prev() || it.Get() != s.m[len(s.m)-1] {
		return errf("walking forward from %d: one step back does not return to the last element", s.pos)
	}
	it = *s.it
	for p := s.pos - 1; p >= -1; p-- {
		ok := it.Prev()
		if ok != (p >= 0) || it.IsValid() != ok {
			return errf("walking backward from %d: Prev to %d of %d returns %v", s.pos, p, len(s.m), ok)
		}
		if ok && it.Get() != s.m[p] {
			return errf("walking backward from %d: element %d is %v, want %v", s.pos, p, it.Get(), s.m[p])
		}
	}
	if !it.Next() || it.Get() != s.m[0] {
		return errf("walking backward from %d: one step forward does not return to the first element", s.pos)
	}
	return nil
}

func observeUlist(ul *ulist.UList[L], m []L) error {
	if len(m) == 0 {
		if ul.Begin().IsValid() || ul.End().IsValid() {
			return errf("iterator of an empty list is valid")
		}
		return nil
	}
	i := 0
	for it := ul.Begin(); it.IsValid(); it.Next() {
		if i >= len(m) || it.Get() != m[i] {
			return errf("forward: element %d is %v, want %v", i, it.Get(), m)
		}
		i++
	}
	if i != len(m) {
		return errf("forward iteration visits %d elements, want %d", i, len(m))
	}
	for it := ul.End(); it.IsValid(); it.Prev() {
		i--
		if i < 0 || it.Get() != m[i] {
			return errf("backward: element %d is %v, want %v", i, it.Get(), m)
		}
	}
	if i != 0 {
		return errf("backward iteration visits %d elements too few", i)
	}
	return nil
}

func (s *usys) Roots() []any {
	return []any{s.m[:len(s.m):len(s.m)], s.pos, s.ul, s.it, s.it2, s.pos2}
}

// two iterators of one list
func ulistTwo(blocks []int, max, depth int) (js []mc.Job) {
	for _, b := range blocks {
		b := b
		js = append(js, &mc.Space{Name: fmt.Sprintf("ulist/two iterators, block%d-max%d", b, max), NOps: len(uopsTwo), Depth: depth,
			OpName: func(o int) string { return uopsTwo[o] },
			New:    func() mc.Sys { return &usys{iters: true, max: max, ul: ulist.New[L](b), pos: -2, pos2: -2} }})
	}
	return
}

func ulistSpaces(iters bool, blocks []int, max func(b int) int, depth int) (js []mc.Job) {
	for _, b := range blocks {
		b := b
		mx := max(b)
		ops := uopNames(iters, mx)
		js = append(js, &mc.Space{Name: fmt.Sprintf("ulist/block%d-max%d", b, mx), NOps: len(ops), Depth: depth,
			OpName: func(o int) string { return ops[o] },
			New:    func() mc.Sys { return &usys{iters: iters, max: mx, ul: ulist.New[L](b), pos: -2} }})
	}
	return
}

// ulistSweep: long scripts of edits through one iterator.
func ulistSweep(shards int, iters, th bool) []mc.Job {
	moves := []struct {
		name string
		dir  func(i int) int
	}{
		{"forward", func(i int) int { return 1 }},
		{"backward", func(i int) int { return -1 }},
		{"zigzag", func(i int) int { return cond(i%5 < 3, 1, -1) }},
		{"stay", func(i int) int { return 0 }},
	}
	scripts := []string{"a", "b", "r", "ab", "aab", "bba", "ar", "aar", "rb", "rrb", "abr", "rra"}
	return mc.Shard(shards, "ulist/scripts", func(cs *mc.Cases) {
		for _, bs := range pick(th, []int{1, 2, 3, 5, 8, 64}, []int{1, 2, 3, 4, 5, 7, 8, 16, 64, 100}) {
			for _, n := range []int{1, bs, bs + 1, 3 * bs, 100} {
				for _, mv := range moves {
					for _, sc := range scripts {
						cs.Do(name("block %d, %d elements, repeat %q moving %s", bs, n, sc, mv.name), func(t *mc.T) {
							s := &usys{iters: iters, max: 1 << 30, ul: ulist.New[L](bs), pos: -2}
							for i := 0; i < n; i++ {
								s.applyIter(i % 2)
							}
							s.applyIter(2 + len(sc)%2)
							for i := 0; i < 150; i++ {
								t.Step()
								var op int
								switch sc[i%len(sc)] {
								case 'a':
									op = 6
								case 'b':
									op = 7
								case 'r':
									op = 8
								}
								_, err := s.applyIter(op)
								t.Check(err)
								if len(s.m) == 0 {
									break
								}
								if d := mv.dir(i); d != 0 {
									_, err = s.applyIter(cond(d > 0, 4, 5))
									t.Check(err)
								}
								if s.pos < 0 || s.pos >= len(s.m) {
									t.Check(s.Observe())
									_, err = s.applyIter(cond(i%2 == 0, 3, 2))
									t.Check(err)
								}
								if i%4 == 0 || len(s.m) < 10 {
									t.Check(s.Observe())
								}
							}
							t.Check(s.Observe())
							t.State(bs, n, mv.name, sc)
						})
					}
				}
			}
		}
	})
}

// ---- objects that can be copied (V01) and explored alone ----

type object interface {
	apply(op int) (bool, error)
	observe() error
	copy() object
	model() any
	impl() any
	opName(op int) string
	nops() int
}

// family: slots of objects, related by copying.
type family struct {
	slot []object
}

func (f *family) nops() int { return 0 }

func (f *family) Apply(op int) (bool, error) {
	n := f.slot[0].nops()
	per := n + len(f.slot) - 1
	s, o := op/per, op%per
	if f.slot[s] == nil {
		return false, nil
	}
	if o < n {
		return f.slot[s].apply(o)
	}
	d := o - n
	if d >= s {
		d++
	}
	if d > 0 && f.slot[d-1] == nil {
		return false, nil
	}
	f.slot[d] = f.slot[s].copy()
	return true, nil
}

func (f *family) Observe() error {
	for i, o := range f.slot {
		if o == nil {
			continue
		}
		if err := o.observe(); err != nil {
			return errf("container %d: %w", i, err)
		}
	}
	return nil
}

func (f *family) Roots() (r []any) {
	for _, o := range f.slot {
		if o == nil {
			r = append(r, nil)
		} else {
			r = append(r, o.model())
		}
	}
	for _, o := range f.slot {
		if o == nil {
			r = append(r, nil)
		} else {
			r = append(r, o.impl())
		}
	}
	return
}

// objSpaces explores slots copies of an object for every configuration.
func objSpaces(nm string, shards int, cfgs []string, slots, depth int, mk func(i int) object) []mc.Job {
	o := mk(0)
	n := o.nops()
	per := n + slots - 1
	return mc.Configs(shards, nm, cfgs, slots*per, func(op int) string {
		s, k := op/per, op%per
		if k < n {
			if slots == 1 {
				return o.opName(k)
			}
			return fmt.Sprintf("%s on c%d", o.opName(k), s)
		}
		d := k - n
		if d >= s {
			d++
		}
		return fmt.Sprintf("Copy(c%d->c%d)", s, d)
	}, depth, func(i int) mc.Sys {
		f := &family{slot: make([]object, slots)}
		f.slot[0] = mk(i)
		return f
	})
}

// ---- queue ----

type qobj struct {
	q    *queue.Queue[L]
	m    []L
	max  int
	next *L
}

func newQobj(n, max int) *qobj {
	o := &qobj{max: max, next: new(L)}
	if n == 0 {
		o.q = queue.New[L]()
		return o
	}
	n--
	in := make([]L, n)
	for i := range in {
		*o.next++
		in[i] = *o.next
	}
	o.m = append([]L{}, in...)
	o.q = queue.Of(in)
	if !eqSlice(in, o.m) {
		panic("queue.Of changed its argument")
	}
	for i := range in { // must have been copied element by element
		in[i] = -1
	}
	return o
}

var qops = []string{"Enqueue", "Dequeue", "TryDequeue", "DequeueAll", "Clear"}

func (o *qobj) nops() int            { return len(qops) }
func (o *qobj) opName(op int) string { return qops[op] }
func (o *qobj) model() any           { return o.m[:len(o.m):len(o.m)] }
func (o *qobj) impl() any            { return o.q }
func (o *qobj) copy() object {
	return &qobj{q: o.q.Copy(), m: append([]L{}, o.m...), max: o.max, next: o.next}
}

func (o *qobj) apply(op int) (bool, error) {
	switch op {
	case 0:
		if len(o.m) >= o.max {
			return false, nil
		}
		*o.next++
		o.q.Enqueue(*o.next)
		o.m = insertAt(o.m, len(o.m), []L{*o.next})
	case 1:
		if len(o.m) == 0 {
			if !catch(func() { o.q.Dequeue() }) {
				return true, errf("Dequeue of an empty queue did not panic")
			}
			return true, nil
		}
		if v := o.q.Dequeue(); v != o.m[0] {
			return true, errf("Dequeue() = %v, want %v", v, o.m[0])
		}
		o.m = removeAt(o.m, 0, 1)
	case 2:
		v, ok := o.q.TryDequeue()
		if len(o.m) == 0 {
			if ok || v != 0 {
				return true, errf("TryDequeue() of an empty queue = %v,%v", v, ok)
			}
			return true, nil
		}
		if !ok || v != o.m[0] {
			return true, errf("TryDequeue() = %v,%v, want %v", v, ok, o.m[0])
		}
		o.m = removeAt(o.m, 0, 1)
	case 3:
		v := o.q.DequeueAll()
		if !eqSlice(v, o.m) {
			return true, errf("DequeueAll() = %v, want %v", v, o.m)
		}
		for i := range v {
			v[i] = -3
		}
		o.m = nil
	case 4:
		o.q.Clear()
		o.m = nil
	}
	return true, nil
}

func (o *qobj) observe() error {
	if n := o.q.Len(); n != len(o.m) {
		return errf("Len() = %d, want %d", n, len(o.m))
	}
	if e := o.q.Empty(); e != (len(o.m) == 0) {
		return errf("Empty() = %v with %d items", e, len(o.m))
	}
	v, ok := o.q.TryPeek()
	if len(o.m) == 0 {
		if ok || v != 0 {
			return errf("TryPeek() of an empty queue = %v,%v", v, ok)
		}
		if !catch(func() { o.q.Peek() }) {
			return errf("Peek of an empty queue did not panic")
		}
	} else {
		if !ok || v != o.m[0] {
			return errf("TryPeek() = %v,%v, want %v", v, ok, o.m[0])
		}
		if v := o.q.Peek(); v != o.m[0] {
			return errf("Peek() = %v, want %v", v, o.m[0])
		}
	}
	all := o.q.PeekAll()
	if !eqSlice(all, o.m) {
		return errf("PeekAll() = %v, want %v", all, o.m)
	}
	for i := range all {
		all[i] = -4
	}
	i := 0
	var err error
	o.q.Each(func(v L) {
		if err == nil && (i >= len(o.m) || v != o.m[i]) {
			err = errf("Each visits %v at %d, want %v", v, i, o.m)
		}
		i++
	})
	if err == nil && i != len(o.m) {
		err = errf("Each visits %d items, want %d", i, len(o.m))
	}
	return err
}

// ---- stack ----

type sobj struct {
	s    *stack.Stack[L]
	m    []L
	max  int
	next *L
}

func (o *sobj) nops() int            { return 2 }
func (o *sobj) opName(op int) string { return []string{"Push", "Pop"}[op] }
func (o *sobj) model() any           { return o.m[:len(o.m):len(o.m)] }
func (o *sobj) impl() any            { return o.s }
func (o *sobj) copy() object {
	return &sobj{s: o.s.Copy(), m: append([]L{}, o.m...), max: o.max, next: o.next}
}

func (o *sobj) apply(op int) (bool, error) {
	if op == 0 {
		if len(o.m) >= o.max {
			return false, nil
		}
		*o.next++
		o.s.Push(*o.next)
		o.m = insertAt(o.m, len(o.m), []L{*o.next})
		return true, nil
	}
	v := o.s.Pop()
	var w L
	if n := len(o.m); n > 0 {
		w = o.m[n-1]
		o.m = o.m[:n-1]
	}
	if v != w {
		return true, errf("Pop() = %v, want %v", v, w)
	}
	return true, nil
}

func (o *sobj) observe() error {
	if n := o.s.Size(); n != len(o.m) {
		return errf("Size() = %d, want %d", n, len(o.m))
	}
	var w L
	if n := len(o.m); n > 0 {
		w = o.m[n-1]
	}
	if v := o.s.Peek(); v != w {
		return errf("Peek() = %v, want %v", v, w)
	}
	return nil
}

func newSobj(n, max int) *sobj {
	o := &sobj{s: stack.New[L](), max: max, next: new(L)}
	for i := 0; i < n; i++ {
		o.apply(0)
	}
	return o
}

// objSweep: grow to n, shrink to n/k, grow again, drain (queues and stacks).
func objSweep(nm string, shards int, th bool, mk func() object, push, pop int) []mc.Job {
	return mc.Shard(shards, nm, func(cs *mc.Cases) {
		for _, n := range append(rangeInts(1, pick(th, 70, 300), 1), pick(th, []int{1000}, []int{1000, 5000})...) {
			for _, up := range []int{1, 2, 3, 7} {
				for _, down := range []int{0, 1, 2, 5} {
					cs.Do(name("%d rounds of %d pushes and %d pops, then drain", n, up, down), func(t *mc.T) {
						o := mk()
						ev := 1 + n/20
						for i := 0; i < n; i++ {
							t.Step()
							for j := 0; j < up; j++ {
								_, err := o.apply(push)
								t.Check(err)
							}
							for j := 0; j < down; j++ {
								if j == down-1 && i%11 == 5 {
									o = o.copy()
								}
								if up > down || j < up {
									_, err := o.apply(pop)
									t.Check(err)
								}
							}
							if i%ev == 0 {
								t.Check(o.observe())
							}
							if n > 500 && i > 500 {
								break
							}
						}
						t.Check(o.observe())
						for i := 0; i < n*up+2; i++ {
							_, err := o.apply(pop)
							t.Check(err)
							if i%ev == 0 {
								t.Check(o.observe())
							}
						}
						t.State(n, up, down)
					})
				}
			}
		}
	})
}

func itoaList(n int) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprint(i))
	}
	return
}

func init() {
	reg(&mc.Property{ID: "L01",
		Rule:        "all histories (to fixpoint unless a depth is stated) of pushes, insertions before/after any node, removals and re-insertions over a pool of k nodes in one or two lists; in every state all iterators from every node in both directions; longer lists of every listed size: every pair of edits at every position; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "nodes are only inserted while in no list and removed from the list they are in"},
		Jobs: func(th bool) []mc.Job {
			return jobs(typedSeq(th, "list"), largeList(largeSizes(th)), listSpace(1, 3, 0, false), listSpace(1, 4, pick(th, 0, 0), false), listSpace(2, 3, pick(th, 9, 0), false),
				listSpace(2, 4, pick(th, 6, 8), false), listSpace(1, 5, pick(th, 7, 9), false), listSpace(1, 6, pick(th, 5, 7), false),
				listSpace(1, 3, pick(th, 12, 14), true), listSpace(1, 4, pick(th, 8, 9), true), listSpace(2, 3, pick(th, 7, 9), true), listSpace(1, 5, pick(th, 6, 7), true),
				listSweep(append(rangeInts(1, pick(th, 8, 14), 1), pick(th, []int{12, 17, 33}, []int{17, 32, 33, 64, 65})...)))
		}})
	reg(&mc.Property{ID: "U01",
		Rule:        "for every listed block size: all histories (to fixpoint) of pushes and of insertions/removals at every position reached from either end, up to the stated list length; in every state both directions of iteration; every block size x length x position x pair of edits; scripts on longer lists; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "elements are data-independent", "lists up to the stated length, longer ones through scripts"},
		Jobs: func(th bool) []mc.Job {
			return jobs(typedSeq(th, "ulist-1", "ulist-2"), ulistSweep(8, false, th), largeUlist(pick(th, []int{1025, 5000, 66000}, []int{1025, 5000, 66000, 140000}), false),
				ulistPositions(false, rangeInts(1, pick(th, 9, 14), 1), func(b int) int { return pick(th, 3*b+2, 4*b+3) }),
				ulistSpaces(false, []int{1, 2, 3}, func(b int) int { return pick(th, 5, 6) }, 0),
				ulistSpaces(false, []int{1, 2, 3, 4, 8}, func(b int) int { return pick(th, 8, 11) }, pick(th, 8, 10)))
		}})
	reg(&mc.Property{ID: "U02",
		Rule:        "for every listed block size: all histories (to fixpoint) of pushes, iterator creation, steps and edits through the iterator, up to the stated list length; in every state the iterator is checked and copies of it are walked off both ends and back; every block size x length x position x pair of edits; scripts on longer lists; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "elements are data-independent", "an iterator does not survive modifications made other than through itself; stepping an iterator of an empty list is undefined"},
		Jobs: func(th bool) []mc.Job {
			return jobs(ulistSweep(8, true, th), largeUlist(pick(th, []int{1025, 5000, 66000}, []int{1025, 5000, 66000, 200000}), true),
				ulistPositions(true, rangeInts(1, pick(th, 9, 14), 1), func(b int) int { return pick(th, 3*b+2, 4*b+3) }),
				ulistSpaces(true, []int{1, 2, 3}, func(b int) int { return pick(th, 5, 6) }, 0),
				ulistTwo([]int{1, 2, 3}, pick(th, 4, 5), 0),
				ulistSpaces(true, []int{1, 2, 3, 4, 8}, func(b int) int { return pick(th, 9, 11) }, pick(th, 10, 14)))
		}})
	reg(&mc.Property{ID: "Q01",
		Rule:        "all histories (to fixpoint) of enqueue, dequeue, try-dequeue, dequeue-all, clear from queues built by New or Of with every initial length, up to the stated length, with all observers in every state; plus long grow/shrink families; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "items are data-independent"},
		Jobs: func(th bool) []mc.Job {
			n := pick(th, 8, 40)
			return jobs(typedSeq(th, "queue", "queue-dequeue"), largeQueue(append(largeSizes(th), 270000)), objSpaces("queue", 4, itoaList(n), 1, 0, func(i int) object { return newQobj(i, n) }),
				objSweep("queue/sweep", 4, th, func() object { return newQobj(0, 1<<30) }, 0, 1))
		}})
	reg(&mc.Property{ID: "Q02",
		Rule:        "all histories (to fixpoint) of push and pop from every initial length up to the stated length, with peek and size in every state; plus long grow/shrink families; plus containers of tens of thousands of elements, filled, overwritten, thinned out and refilled in structured orders",
		Assumptions: []string{stdAssume, "elements are data-independent"},
		Jobs: func(th bool) []mc.Job {
			n := pick(th, 7, 12)
			return jobs(typedSeq(th, "stack"), largeStack(append(largeSizes(th), 270000)), objSpaces("stack", 4, itoaList(n), 1, pick(th, 16, 20), func(i int) object { return newSobj(i, n) }),
				objSweep("stack/sweep", 4, th, func() object { return newSobj(0, 1<<30) }, 0, 1))
		}})
}
