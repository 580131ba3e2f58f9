package c14

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"verif/harness/mon"
	"verif/harness/rg"
)

// item spans several words, so that a torn or early read shows.
type item struct {
	batch, idx uint32
	a, b       uint64
	p          *uint64
}

func mk(batch, idx uint32) item {
	v := uint64(batch)<<32 | uint64(idx)
	return item{batch, idx, v * 0x9E3779B97F4A7C15, ^v, &v}
}
func (i item) whole() bool {
	v := uint64(i.batch)<<32 | uint64(i.idx)
	return i.a == v*0x9E3779B97F4A7C15 && i.b == ^v && i.p != nil && *i.p == v
}

type batch struct{ sent, sure int }

func spsc(c *mon.C, r rg.Ring[item]) {
	capacity := int(r.Cap())
	total := mon.Pick(c.Rand, 200, 1000, 3000)
	seed1, seed2 := c.Uint64(), c.Uint64()
	lag1, lag2 := c.IntN(4), c.IntN(4)
	mode := c.IntN(3)
	var wg sync.WaitGroup
	var done atomic.Bool
	var sent []batch
	var got []item
	full, empty, over, contended := 0, 0, 0, 0
	pause := func(rnd *rand.Rand, lag int) {
		if lag > 0 && rnd.IntN(lag*8) == 0 {
			for i := rnd.IntN(4); i >= 0; i-- {
				runtime.Gosched()
			}
		}
	}
	c.Go(&wg, func() {
		defer done.Store(true)
		rnd := rand.New(rand.NewPCG(seed1, 1))
		lastAvail := 0
		pushed := false
		for n := 0; n < total && !c.Failed(); {
			pause(rnd, lag1)
			a := int(r.Avail())
			l := int(r.Len())
			if a < 0 || a > capacity || l < 0 || l > capacity {
				c.Fail("producer sees Avail=%d Len=%d of %d", a, l, capacity)
				return
			}
			if !pushed && a < lastAvail {
				c.Fail("without a push, Avail shrank from %d to %d for the producer", lastAvail, a)
				return
			}
			lastAvail, pushed = a, false
			if a == 0 {
				full++
				if r.Full() {
					runtime.Gosched()
				}
				if rnd.IntN(3) > 0 || mode == 0 {
					continue
				}
			}
			if l > 0 {
				contended++
			}
			k := 1
			if mode > 0 {
				k = 1 + rnd.IntN(a+2)
				if mode == 2 && rnd.IntN(6) == 0 {
					k = a + 1 + rnd.IntN(capacity+1) // more than fits: the front part goes in
				} else if k > a {
					k = a
				}
			}
			if k == 0 {
				continue
			}
			es := make([]item, k)
			for i := range es {
				es[i] = mk(uint32(len(sent)), uint32(i))
			}
			sure := min(a, k)
			if k > a {
				over++
			}
			sent = append(sent, batch{k, sure})
			if k == 1 && a > 0 && rnd.IntN(2) == 0 {
				r.Push(es[0])
			} else {
				r.MPush(es...)
			}
			n += sure
			pushed = true
		}
	})
	c.Go(&wg, func() {
		rnd := rand.New(rand.NewPCG(seed2, 2))
		lastLen := 0
		popped := true
		for !c.Failed() {
			pause(rnd, lag2)
			fin := done.Load()
			l := int(r.Len())
			if l < 0 || l > capacity {
				c.Fail("consumer sees Len=%d of %d", l, capacity)
				return
			}
			if !popped && l < lastLen {
				c.Fail("without a pop, Len shrank from %d to %d for the consumer", lastLen, l)
				return
			}
			lastLen, popped = l, false
			if l == 0 {
				empty++
				if fin {
					return
				}
				if r.Empty() {
					runtime.Gosched()
				}
				if rnd.IntN(4) > 0 {
					continue
				}
			}
			o := rnd.IntN(5)
			if mode == 0 {
				o = rnd.IntN(2)
			}
			switch {
			case o == 0 && l > 0:
				e := r.Peek()
				f := r.Pop()
				if e != f {
					c.Fail("Peek saw %v, Pop took %v", e, f)
				}
				got = append(got, f)
				popped = true
			case o <= 2 && l > 0:
				got = append(got, r.Pop())
				popped = true
			case o == 3:
				ask := rnd.IntN(capacity + 2)
				es := r.MPop(uint64(ask))
				if len(es) > ask || len(es) < min(ask, l) {
					c.Fail("MPop(%d) delivered %d with %d inside", ask, len(es), l)
				}
				got = append(got, es...)
				popped = true
			case o == 4:
				dst := make([]item, rnd.IntN(capacity+2))
				r.MPopCopy(dst)
				n := 0
				for n < len(dst) && dst[n] != (item{}) {
					n++
				}
				if n < min(len(dst), l) {
					c.Fail("MPopCopy into %d delivered %d with %d inside", len(dst), n, l)
				}
				got = append(got, dst[:n]...)
				popped = true
			}
		}
	})
	wg.Wait()
	// offline: exactly the sent elements, in order; of a batch that did not fit, a front part
	i := 0
	for b, s := range sent {
		n := 0
		for i < len(got) && n < s.sent && int(got[i].batch) == b {
			if int(got[i].idx) != n || !got[i].whole() {
				c.Fail("element %d read is %v, want batch %d index %d", i, got[i], b, n)
				return
			}
			n++
			i++
		}
		if n < s.sure {
			c.Fail("batch %d of %d: %d elements arrived, %d had room", b, s.sent, n, s.sure)
			return
		}
	}
	c.Check(i == len(got), "%d elements arrived that were not sent in that order", len(got)-i)
	c.Check(r.Empty() && r.Len() == 0, "ring not empty at the end")
	c.Log("cap=%d mode=%d sent in %d batches, read %d, producer saw full %d, consumer saw empty %d, oversized %d, pushed onto a non-empty ring %d", capacity, mode, len(sent), len(got), full, empty, over, contended)
	c.M.Count("elements", len(got))
	c.M.Count("producer_saw_full", full)
	c.M.Count("consumer_saw_empty", empty)
	c.M.Count("oversized_batches", over)
	c.M.Count("pushes_while_nonempty", contended)
	if full > 0 && empty > 0 {
		c.Nontrivial()
	}
}

func TestProp(t *testing.T) {
	mon.Run(t, "C14", "one producer and one consumer goroutine on a small ring under the race detector, elements checksummed and sequence-numbered; non-trivial = producer met a full ring and consumer an empty one", func(m *mon.M) {
		m.Cases("fix", m.N(700), func(c *mon.C) { spsc(c, fix.New[item](uint64(mon.Pick(c.Rand, 1, 2, 3, 5, 8, 1+c.IntN(40))))) })
		m.Cases("round", m.N(700), func(c *mon.C) { spsc(c, round.New[item](uint64(mon.Pick(c.Rand, 1, 2, 3, 5, 8, 1+c.IntN(40))))) })
	})
}
