package c13

import (
	"fmt"
	"math/bits"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"verif/harness/mon"
	"verif/harness/rg"
)

func pow2(n uint64) uint64 { return 1 << bits.Len64(n-1) }

func drive[T comparable](c *mon.C, val func(i int) T) {
	n := mon.Pick(c.Rand, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 1+c.IntN(70), 1+c.IntN(70))
	steps := mon.Pick(c.Rand, 20, 100, 400)
	if c.IntN(40) == 0 {
		n, steps = mon.Pick(c.Rand, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537), 60
	}
	size := uint64(n)
	if c.Idx%2 == 0 {
		c.Log("fix.New(%d)", n)
		rg.Drive[T](c, fix.New[T](size), size, steps, val)
	} else {
		c.Log("round.New(%d)", n)
		rg.Drive[T](c, round.New[T](size), pow2(size), steps, val)
	}
}

func TestProp(t *testing.T) {
	mon.Run(t, "C13", "seeded operation histories against a slice model, sizes around powers of two, histories biased to empty, balanced and full; non-trivial = went round at least twice and was full", func(m *mon.M) {
		m.Cases("int", m.N(5000), func(c *mon.C) { drive(c, func(i int) int { return i }) })
		m.Cases("string", m.N(1000), func(c *mon.C) { drive(c, func(i int) string { return fmt.Sprint(i) }) })
		m.Cases("wide", m.N(1000), func(c *mon.C) { drive(c, func(i int) [5]int { return [5]int{i, i, i, i, -i} }) })
		fixed := rg.Affordable(func(n uint64) rg.Ring[struct{}] { return fix.New[struct{}](n) })
		rounded := rg.Affordable(func(n uint64) rg.Ring[struct{}] { return round.New[struct{}](n) })
		m.Cases("huge", m.N(400), func(c *mon.C) {
			n := mon.Pick[uint64](c.Rand, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 1<<40+7, 1<<61+5, 1<<62)
			c.Log("size %d", n)
			if c.Idx%2 == 0 && !fixed || c.Idx%2 == 1 && !rounded {
				return
			}
			if c.Idx%2 == 0 {
				if c.IntN(4) == 0 {
					n = fix.MaxSize
				}
				rg.Huge(c, fix.New[struct{}](n))
			} else {
				rg.Huge(c, round.New[struct{}](n))
			}
		})
		// more than 32 bits count, bytes that can be told apart
		m.Cases("long", m.N(2), func(c *mon.C) {
			n := uint64(3<<20 + c.IntN(1<<16))
			c.Log("size %d", n)
			if c.Idx%2 == 0 {
				rg.Long(c, fix.New[byte](n))
			} else {
				rg.Long(c, round.New[byte](n))
			}
		})
		m.Cases("reset often", m.N(12), func(c *mon.C) {
			n := 1 + c.Uint64N(9)
			if c.Idx%2 == 0 {
				rg.Reused(c, fix.New[int](n))
			} else {
				rg.Reused(c, round.New[int](n))
			}
		})
		m.Cases("sizes", m.N(2000), func(c *mon.C) {
			// zero-sized elements make every capacity affordable
			e := c.IntN(65)
			n := uint64(0)
			if e > 0 {
				n = 1<<(e-1) + mon.Pick(c.Rand, 0, 1, ^uint64(0), c.Uint64()>>1>>(64-e), c.Uint64()>>1>>(64-e))
			}
			if c.IntN(30) == 0 {
				n = ^uint64(0)
			}
			if (!fixed || !rounded) && n <= fix.MaxSize {
				n &= 1<<22 - 1
			}
			c.Log("size %d", n)
			c.Nontrivial()
			p, _ := mon.Panics(func() {
				r := fix.New[struct{}](n)
				c.Check(r.Cap() == n && r.Len() == 0 && r.Avail() == n && r.Empty() && !r.Full(), "fix.New(%d): Cap=%d Len=%d Avail=%d", n, r.Cap(), r.Len(), r.Avail())
			})
			c.Check(p == (n == 0 || n > fix.MaxSize), "fix.New(%d) panics=%v", n, p)
			p, _ = mon.Panics(func() {
				r := round.New[struct{}](n)
				c.Check(r.Cap() == pow2(n) && r.Len() == 0 && r.Avail() == pow2(n) && r.Empty() && !r.Full(), "round.New(%d): Cap=%d Len=%d Avail=%d", n, r.Cap(), r.Len(), r.Avail())
			})
			c.Check(p == (n == 0 || n > round.MaxSize), "round.New(%d) panics=%v", n, p)
			if p {
				c.M.Count("sizes_refused", 1)
			}
		})
	})
}
