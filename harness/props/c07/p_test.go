package c07

import (
	"slices"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	"verif/harness/hp"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C07", "seeded operation histories against a multiset model, drained at the end; non-trivial = at least two elements left to drain", func(m *mon.M) {
		m.Cases("heap", m.N(6000), func(c *mon.C) {
			hp.Drive(c, "heap", func(in []*hp.Item, less func(a, b *hp.Item) bool) hp.Heap { return heap.New(in, less) }, true)
		})
		m.Cases("pqueue", m.N(2500), func(c *mon.C) {
			hp.Drive(c, "priority queue", func(in []*hp.Item, less func(a, b *hp.Item) bool) hp.Heap { return pqueue.New(in, less) }, true)
		})
		// value elements, so that a heap may not rely on pointers; and big inits
		m.Cases("sort", m.N(400), func(c *mon.C) {
			n := mon.Pick(c.Rand, c.IntN(5000), c.IntN(64), 255, 256, 257, 1023, 1024, 1025, 4096)
			in := make([]uint8, n)
			left := map[uint8]int{}
			for i := range in {
				in[i] = uint8(c.IntN(256))
			}
			if k := c.IntN(n + 1); c.IntN(2) == 0 { // in order for a while
				slices.Sort(in[:k])
				if c.IntN(2) == 0 {
					slices.Reverse(in[:k])
				}
			}
			for i := range in {
				left[in[i]]++
			}
			h := heap.New(in, func(a, b uint8) bool { return a > b })
			c.Log("sort %d bytes", n)
			if n > 1 {
				c.Nontrivial()
			}
			prev := 256
			for i := 0; i < n; i++ {
				x := h.Pop()
				c.Check(left[x] > 0 && int(x) <= prev, "heap of %d bytes: pop %d gave %d after %d (%d of it left)", n, i, x, prev, left[x])
				left[x]--
				prev = int(x)
			}
			c.Check(h.Empty(), "heap of %d bytes: not empty after %d pops", n, n)
		})
		// more elements than 16 bits count, held by value
		m.Cases("huge heap", m.N(8), func(c *mon.C) {
			hp.Huge(c, "heap", true, func(in []hp.El, less func(a, b hp.El) bool) hp.Values { return heap.New(in, less) })
		})
		m.Cases("deep heap", m.N(2), func(c *mon.C) {
			hp.Deep(c, "heap", func(in []hp.El, less func(a, b hp.El) bool) hp.Values { return heap.New(in, less) })
		})
		m.Cases("huge pqueue", m.N(6), func(c *mon.C) {
			hp.Huge(c, "priority queue", true, func(in []hp.El, less func(a, b hp.El) bool) hp.Values { return pqueue.New(in, less) })
		})
	})
}
