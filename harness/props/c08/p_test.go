package c08

import (
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"verif/harness/hp"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C08", "seeded operation histories for arities 2..40 against a multiset model, drained at the end; non-trivial = at least two elements left to drain", func(m *mon.M) {
		m.Cases("arity", m.N(9000), func(c *mon.C) {
			n := 2 + c.Idx%11
			if c.IntN(10) == 0 {
				n = mon.Pick(c.Rand, 2+c.IntN(39), 2+c.IntN(39), 2+c.IntN(39), 1000, 1<<16, 1<<31)
			}
			hp.Drive(c, "n-ary heap", func(in []*hp.Item, less func(a, b *hp.Item) bool) hp.Heap {
				c.Log("arity %d", n)
				return heap.NewN(n, less)
			}, false)
		})
		m.Cases("large", m.N(150), func(c *mon.C) {
			n := 2 + c.Idx%15
			size := 200 + c.IntN(4000)
			if c.IntN(4) == 0 { // as many children as elements, nearly
				n = mon.Pick(c.Rand, size/2, size-2, size, 1+size/3, 1<<20)
			}
			h := heap.NewN(n, func(a, b int) bool { return a < b })
			for i := 0; i < size; i++ {
				h.Push(c.IntN(3000))
			}
			c.Log("arity %d size %d", n, size)
			c.Nontrivial()
			prev := -1
			for i := 0; i < size; i++ {
				x := h.Pop()
				c.Check(x >= prev, "%d-ary heap of %d: popped %d after %d", n, size, x, prev)
				prev = x
			}
			c.Check(h.Empty(), "not empty after draining")
		})
		m.Cases("badarity", 5, func(c *mon.C) {
			n := 1 - c.Idx
			p, _ := mon.Panics(func() { heap.NewN(n, func(a, b int) bool { return a < b }) })
			c.Log("NewN(%d) panics=%v", n, p)
			c.Nontrivial()
			c.Check(p, "NewN accepted arity %d", n)
		})
		// more elements than 16 bits count, held by value
		m.Cases("deep", m.N(2), func(c *mon.C) {
			n := mon.Pick(c.Rand, 2, 2, 3)
			hp.Deep(c, "n-ary heap", func(_ []hp.El, less func(a, b hp.El) bool) hp.Values { return heap.NewN(n, less) })
		})
		m.Cases("huge", m.N(10), func(c *mon.C) {
			n := mon.Pick(c.Rand, 2, 3, 4, 5, 8, 16, 100)
			c.Log("arity %d", n)
			hp.Huge(c, "n-ary heap", false, func(_ []hp.El, less func(a, b hp.El) bool) hp.Values { return heap.NewN(n, less) })
		})
	})
}
