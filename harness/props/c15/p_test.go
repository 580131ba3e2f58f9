package c15

import (
	"fmt"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"verif/harness/mon"
	"verif/harness/rg"
)

func drive[T comparable](c *mon.C, val func(i int) T) {
	n := uint64(mon.Pick(c.Rand, 0, 0, 1, 2, 3, 4, 7, 8, 9, c.IntN(70)))
	if c.IntN(50) == 0 {
		n = mon.Pick[uint64](c.Rand, 256, 1000, 65535, 65536)
	}
	c.Log("unbounded.New(%d)", n)
	rg.Drive[T](c, unbounded.New[T](n), 0, mon.Pick(c.Rand, 20, 100, 400), val)
}

func TestProp(t *testing.T) {
	mon.Run(t, "C15", "seeded operation histories against a slice model, from capacity 0 up, growing while wrapped; non-trivial = grew at least twice and went round at least twice", func(m *mon.M) {
		m.Cases("int", m.N(5000), func(c *mon.C) { drive(c, func(i int) int { return i }) })
		m.Cases("string", m.N(1000), func(c *mon.C) { drive(c, func(i int) string { return fmt.Sprint(i) }) })
		m.Cases("wide", m.N(1000), func(c *mon.C) { drive(c, func(i int) [5]int { return [5]int{i, i, i, i, -i} }) })
		affordable := rg.Affordable(func(n uint64) rg.Ring[struct{}] { return unbounded.New[struct{}](n) })
		m.Cases("huge", m.N(400), func(c *mon.C) {
			n := mon.Pick[uint64](c.Rand, 0, 1, 5, 1<<31, 1<<32-1, 1<<32, 1<<33+1)
			if !affordable {
				return
			}
			c.Log("size %d", n)
			rg.Huge(c, unbounded.New[struct{}](n))
		})
		// more than 32 bits count, bytes that can be told apart
		m.Cases("long", m.N(2), func(c *mon.C) {
			n := uint64(3<<20 + c.IntN(1<<16))
			c.Log("size %d", n)
			rg.Long(c, unbounded.New[byte](n))
		})
		m.Cases("reset often", m.N(12), func(c *mon.C) { rg.Reused(c, unbounded.New[int](c.Uint64N(9))) })
		m.Cases("sizes", m.N(500), func(c *mon.C) {
			n := mon.Pick(c.Rand, 0, 1, 1<<31, 1<<62, unbounded.MaxSize, unbounded.MaxSize+1, ^uint64(0))
			g := mon.Pick(c.Rand, 0, 1, 1<<31, 1<<62, unbounded.MaxSize, unbounded.MaxSize+1, ^uint64(0))
			if !affordable && n <= unbounded.MaxSize {
				n &= 1<<22 - 1
			}
			if !affordable && g <= unbounded.MaxSize {
				g &= 1<<22 - 1
			}
			c.Log("New(%d) Grow(%d)", n, g)
			c.Nontrivial()
			var r *unbounded.Ring[struct{}]
			p, _ := mon.Panics(func() { r = unbounded.New[struct{}](n) })
			c.Check(p == (n > unbounded.MaxSize), "New(%d) panics=%v", n, p)
			if p {
				return
			}
			c.Check(r.Cap() == n && r.Empty() && r.Full() == (n == 0), "New(%d): Cap=%d", n, r.Cap())
			r.Push(struct{}{})
			before := r.Cap()
			p, _ = mon.Panics(func() { r.Grow(g) })
			if g > unbounded.MaxSize {
				c.Check(p && r.Cap() == before, "Grow(%d) panics=%v, Cap %d -> %d", g, p, before, r.Cap())
			} else if !p {
				c.Check(r.Cap() >= g && r.Cap() >= before, "Grow(%d): Cap %d -> %d", g, before, r.Cap())
			}
			c.Check(r.Len() == 1, "Len=%d after Grow", r.Len())
		})
	})
}
