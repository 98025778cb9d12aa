package props

import (
	"github.com/zyedidia/generic/ulist"

	"verif/mc"
)

// listSweep: longer lists; every removal, insertion and move at every
// position, then a second one next to it.
func listSweep(sizes []int) []mc.Job {
	return mc.Shard(4, "list/positions", func(cs *mc.Cases) {
		for _, n := range sizes {
			n := n
			for build := 0; build < 3; build++ {
				build := build
				for p := 0; p < n; p++ {
					if cs.Stopped() {
						return
					}
					p := p
					cs.Do(name("%d nodes (built %s), every edit at %d", n, []string{"from the back", "from the front", "outwards"}[build], p), func(t *mc.T) {
						edits := []string{"Remove", "InsertAfter", "InsertBefore", "Remove+PushBackNode", "Remove+PushFrontNode", "Remove+InsertAfter"}
						for e1 := range edits {
							for e2 := range edits {
								s := newLsys(1, n+3)
								do := func(o lop) {
									t.Step()
									ok, err := s.apply(o)
									t.Check(err)
									if !ok {
										t.Failf("harness: %v is not possible", o)
									}
								}
								for i := 0; i < n; i++ {
									front := build == 1 || build == 2 && i%2 == 1
									node := (i+n)%2 == 0
									switch {
									case front && node:
										do(lop{"PushFrontNode", 0, i, -1})
									case front:
										do(lop{"PushFront", 0, i, -1})
									case node:
										do(lop{"PushBackNode", 0, i, -1})
									default:
										do(lop{"PushBack", 0, i, -1})
									}
								}
								spare := n
								edit := func(e, at int) {
									if len(s.model[0]) == 0 {
										return
									}
									at = min(max(at, 0), len(s.model[0])-1)
									x := s.model[0][at]
									switch e {
									case 1, 2:
										do(lop{edits[e], 0, x, spare})
										spare++
										return
									}
									do(lop{"Remove", 0, x, -1})
									switch e {
									case 3:
										do(lop{"PushBackNode", 0, x, -1})
									case 4:
										do(lop{"PushFrontNode", 0, x, -1})
									case 5:
										if m := s.model[0]; len(m) > 0 {
											do(lop{"InsertAfter", 0, m[(at+len(m)/2)%len(m)], x})
										}
									}
								}
								edit(e1, p)
								edit(e2, p+(e1+e2)%3-1)
								t.Check(s.Observe())
								t.State(n, build, p, e1, e2)
							}
						}
					})
				}
			}
		}
	})
}

// ulistPositions: every block size, every length, every position, every pair
// of edits there, through one iterator.
func ulistPositions(iters bool, blocks []int, maxLen func(b int) int) []mc.Job {
	return mc.Shard(8, "ulist/positions", func(cs *mc.Cases) {
		for _, b := range blocks {
			b := b
			for n := 1; n <= maxLen(b); n++ {
				n := n
				for build := 0; build < 4; build++ {
					if cs.Stopped() {
						return
					}
					build := build
					cs.Do(name("block %d, %d elements (built %s), every pair of edits", b, n, []string{"from the back", "from the front", "outwards", "by halves"}[build]), func(t *mc.T) {
						for p := 0; p < n; p++ {
							for e := 0; e < 9; e++ {
								for gap := -1; gap <= 1; gap++ {
									s := &usys{iters: iters, max: 1 << 30, ul: ulist.New[L](b), pos: -2}
									do := func(op int) {
										_, err := s.applyIter(op)
										t.Check(err)
									}
									for i := 0; i < n; i++ {
										do([]int{0, 1, i % 2, cond(i < n/2, 0, 1)}[build])
									}
									if 2*p < n {
										do(2)
										for i := 0; i < p; i++ {
											do(4)
										}
									} else {
										do(3)
										for i := n - 1; i > p; i-- {
											do(5)
										}
									}
									t.Step()
									do(6 + e%3)
									if gap != 0 && s.pos != -2 {
										do(cond(gap > 0, 4, 5))
									}
									t.Step()
									do(6 + e/3)
									if !iters {
										s.it, s.pos = nil, -2
									}
									t.Check(s.Observe())
								}
							}
							t.State(b, n, build, p)
						}
					})
				}
			}
		}
	})
}
