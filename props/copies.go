package props

import (
	"fmt"
	"sort"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"

	"verif/mc"
)

// Copies of larger containers. The oracle is a container that never had a
// copy: after any step of the script, every member of a family of copies must
// look like a container built separately and put through the same steps.

type copyable interface {
	copy() copyable
	mut(i, salt int) // mutation i
	obs() []int      // everything visible
	drain() []int    // everything visible, destructively
}

type copyKind struct {
	name string
	muts []string
	mk   func(n, how int) copyable // how: 0 grown to n, 1 grown beyond and shrunk to n
}

type cpQueue struct{ *queue.Queue[int] }

func (q cpQueue) copy() copyable { return cpQueue{q.Copy()} }
func (q cpQueue) obs() []int {
	r := append([]int{q.Len()}, q.PeekAll()...)
	q.Each(func(v int) { r = append(r, v) })
	return r
}
func (q cpQueue) drain() []int {
	var r []int
	for !q.Empty() {
		r = append(r, q.Dequeue())
	}
	return append(r, q.Len())
}
func (q cpQueue) mut(i, salt int) {
	switch i {
	case 0:
		q.Enqueue(salt)
	case 1:
		for j := 0; j < 70; j++ {
			q.Enqueue(salt + j)
		}
	case 2:
		q.TryDequeue()
	case 3:
		for j := q.Len() / 2; j > 0; j-- {
			q.Dequeue()
			if j%3 == 0 {
				q.Enqueue(salt + j)
			}
		}
	case 4:
		q.DequeueAll()
	case 5:
		q.Clear()
		q.Enqueue(salt)
	}
}

type cpStack struct{ *stack.Stack[int] }

func (s cpStack) copy() copyable { return cpStack{s.Copy()} }
func (s cpStack) obs() []int     { return []int{s.Size(), s.Peek()} }
func (s cpStack) drain() []int {
	var r []int
	for s.Size() > 0 {
		r = append(r, s.Pop())
	}
	return r
}
func (s cpStack) mut(i, salt int) {
	switch i {
	case 0:
		s.Push(salt)
	case 1:
		for j := 0; j < 70; j++ {
			s.Push(salt + j)
		}
	case 2:
		s.Pop()
	case 3:
		for j := s.Size() / 2; j > 0; j-- {
			s.Pop()
		}
		s.Push(salt)
	case 4:
		n := s.Size()
		for s.Size() > 0 {
			s.Pop()
		}
		for j := 0; j < n; j++ {
			s.Push(salt + j)
		}
	}
}

type cpArray struct{ a *array2d.Array2D[int] }

func (c cpArray) copy() copyable { a := c.a.Copy(); return cpArray{&a} }
func (c cpArray) obs() []int {
	r := []int{c.a.Width(), c.a.Height()}
	for y := 0; y < c.a.Height(); y++ {
		for x := 0; x < c.a.Width(); x++ {
			r = append(r, c.a.Get(x, y))
		}
	}
	return r
}
func (c cpArray) drain() []int { return c.obs() }
func (c cpArray) mut(i, salt int) {
	w, h := c.a.Width(), c.a.Height()
	if w == 0 || h == 0 {
		return
	}
	switch i {
	case 0:
		c.a.Set(0, 0, salt)
	case 1:
		c.a.Set(w-1, h-1, salt)
	case 2:
		c.a.Fill(0, 0, w-1, h-1, salt)
	case 3:
		for x, r := 0, c.a.Row(h-1); x < w; x++ {
			r[x] = salt + x
		}
	case 4:
		r := c.a.RowSpan(0, w-1, h/2)
		r[0] = salt
	}
}

type cpBimap struct{ b *bimap.Bimap[int, int] }

func (c cpBimap) copy() copyable { b := c.b.Copy(); return cpBimap{&b} }
func (c cpBimap) obs() []int {
	var p [][2]int
	c.b.Each(func(k, v int) { p = append(p, [2]int{k, v}) })
	sort.Slice(p, func(i, j int) bool { return p[i][0] < p[j][0] })
	r := []int{c.b.Len()}
	for _, x := range p {
		v, ok := c.b.GetForward(x[0])
		k, ok2 := c.b.GetReverse(x[1])
		r = append(r, x[0], x[1], v, k, cond(ok && ok2, 1, 0))
	}
	for k := -3; k < 3; k++ {
		v, ok := c.b.GetForward(k)
		w, ok2 := c.b.GetReverse(1000 + k)
		r = append(r, v, w, cond(ok, 1, 0), cond(ok2, 1, 0))
	}
	return r
}
func (c cpBimap) drain() []int { return c.obs() }
func (c cpBimap) mut(i, salt int) {
	switch i {
	case 0:
		c.b.Add(salt, salt)
	case 1:
		c.b.Add(0, 1001)
	case 2:
		c.b.RemoveForward(0)
	case 3:
		c.b.RemoveReverse(1001)
	case 4:
		c.b.Clear()
		c.b.Add(salt, 1000)
	case 5:
		for j := 0; j < 40; j++ {
			c.b.Add(salt+j, 1000+j)
		}
	}
}

type cpSet struct{ s set.Set[int] }

func (c cpSet) copy() copyable { return cpSet{c.s.Clone()} }
func (c cpSet) obs() []int {
	k := c.s.Keys()
	sort.Ints(k)
	r := append([]int{c.s.Size()}, k...)
	for i := -1; i < 4; i++ {
		r = append(r, cond(c.s.Has(i), 1, 0))
	}
	return r
}
func (c cpSet) drain() []int { return c.obs() }
func (c cpSet) mut(i, salt int) {
	switch i {
	case 0:
		c.s.Put(salt)
	case 1:
		for j := 0; j < 40; j++ {
			c.s.Put(salt + j)
		}
	case 2:
		c.s.Remove(0)
	case 3:
		for j, n := 0, c.s.Size(); j < n; j += 2 {
			c.s.Remove(j)
		}
	case 4:
		c.s.Clear()
		c.s.Put(salt)
	case 5:
		c.s.InPlaceUnion(set.NewMapset(salt, salt+1))
	case 6:
		c.s.InPlaceIntersection(set.NewMapset(1, 2, 3))
	case 7:
		c.s.InPlaceDifference(set.NewMapset(1, 2, 3))
	}
}

func copyKinds() (r []copyKind) {
	r = append(r, copyKind{"queue", []string{"Enqueue", "Enqueue x70", "TryDequeue", "Dequeue half", "DequeueAll", "Clear; Enqueue"}, func(n, how int) copyable {
		q := queue.New[int]()
		for i := 0; i < n+how*(n/2+3); i++ {
			q.Enqueue(i)
		}
		for q.Len() > n {
			q.Dequeue()
		}
		return cpQueue{q}
	}}, copyKind{"stack", []string{"Push", "Push x70", "Pop", "Pop half; Push", "refill"}, func(n, how int) copyable {
		s := stack.New[int]()
		for i := 0; i < n+how*(n/2+3); i++ {
			s.Push(i)
		}
		for s.Size() > n {
			s.Pop()
		}
		return cpStack{s}
	}})
	for _, wh := range []string{"n x 1", "1 x n", "n x 3", "3 x n"} {
		wh := wh
		r = append(r, copyKind{"array2d " + wh, []string{"Set first", "Set last", "Fill", "write Row", "write RowSpan"}, func(n, how int) copyable {
			w, h := n, 1
			switch wh {
			case "1 x n":
				w, h = 1, n
			case "n x 3":
				w, h = n, 3
			case "3 x n":
				w, h = 3, n
			}
			a := array2d.NewFilled(w, h, -7)
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					if how == 0 || x%2 == 0 {
						a.Set(x, y, y*w+x)
					}
				}
			}
			return cpArray{&a}
		}})
	}
	r = append(r, copyKind{"bimap", []string{"Add new", "Add over two", "RemoveForward", "RemoveReverse", "Clear; Add", "Add x40"}, func(n, how int) copyable {
		var b bimap.Bimap[int, int]
		if how == 1 {
			m := map[int]int{}
			for i := 0; i < n; i++ {
				m[i] = 1000 + i
			}
			b = bimap.Of(m)
		}
		for i := 0; i < n; i++ {
			b.Add(i, 1000+i)
		}
		return cpBimap{&b}
	}})
	sets := []string{"Put", "Put x40", "Remove", "Remove half", "Clear; Put", "InPlaceUnion", "InPlaceIntersection", "InPlaceDifference"}
	fill := func(s set.Set[int], n, how int) copyable {
		for i := 0; i < n+how*(n/2+3); i++ {
			s.Put(i)
		}
		for i := n; how == 1 && i < n+n/2+3; i++ {
			s.Remove(i)
		}
		return cpSet{s}
	}
	r = append(r, copyKind{"mapset", sets, func(n, how int) copyable { return fill(set.NewMapset[int](), n, how) }})
	for _, h := range []string{"mix", "two"} {
		h := h
		r = append(r, copyKind{"hashset " + h, sets, func(n, how int) copyable {
			return fill(set.NewHashset(uint64(how*4), g.Equals[int], ihash(h)), n, how)
		}})
	}
	return
}

// copySweep: x, y = x.copy(), z = y.copy(); every pair of mutations on every
// pair of members.
func copySweep(sizes []int) []mc.Job {
	return mc.Shard(8, "copies/sweep", func(cs *mc.Cases) {
		for _, kd := range copyKinds() {
			kd := kd
			for _, n := range sizes {
				if cs.Stopped() {
					return
				}
				n := n
				for how := 0; how < 2; how++ {
					how := how
					for m1 := range kd.muts {
						m1 := m1
						cs.Do(name("%s of size %d (%d), %s then any", kd.name, n, how, kd.muts[m1]), func(t *mc.T) {
							for m2 := range kd.muts {
								for w1 := 0; w1 < 3; w1++ {
									for w2 := 0; w2 < 3; w2++ {
										if n > 40 && (m1+m2+w1+w2)%2 == 1 {
											continue
										}
										x := kd.mk(n, how)
										y := x.copy()
										fam := [3]copyable{x, y, y.copy()}
										solo := [3]copyable{kd.mk(n, how), kd.mk(n, how), kd.mk(n, how)}
										check := func(what string) {
											t.Step()
											for i := range fam {
												a, b := fam[i].obs(), solo[i].obs()
												if !eqSlice(a, b) {
													t.Failf("%s: member %d of the family shows %s; a container without copies %s", what, i, short(a), short(b))
												}
											}
										}
										check("copying")
										for s, mw := range [2][2]int{{m1, w1}, {m2, w2}} {
											fam[mw[1]].mut(mw[0], 5000+100*s)
											solo[mw[1]].mut(mw[0], 5000+100*s)
											check(fmt.Sprintf("%s on member %d", kd.muts[mw[0]], mw[1]))
										}
										for i := range fam {
											k := (i + w1) % 3
											if a, b := fam[k].drain(), solo[k].drain(); !eqSlice(a, b) {
												t.Failf("%s on member %d, %s on member %d: draining member %d gives %s; a container without copies %s", kd.muts[m1], w1, kd.muts[m2], w2, k, short(a), short(b))
											}
										}
										t.State(kd.name, n, how, m1, m2, w1, w2)
									}
								}
							}
						})
					}
				}
			}
		}
	})
}

func short(a []int) string {
	if len(a) > 24 {
		return fmt.Sprintf("%v... (%d)", a[:24], len(a))
	}
	return fmt.Sprint(a)
}
