package c21

import (
	"context"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"verif/harness/mon"
	"verif/harness/tw"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C21", "wheels of many shapes, tasks added before Run, by several goroutines, by tasks and after idle gaps, delays around ticks, laps and overflow wheels; every task judged against its window on the virtual clock, race detector on; non-trivial = a task came through an overflow wheel", func(m *mon.M) {
		m.Cases("history", m.N(3000), func(c *mon.C) {
			c.Bubble(func() {
				h := tw.New(c)
				ctx, cancel := context.WithCancel(context.Background())
				var run, wg sync.WaitGroup
				for n := c.IntN(6); n > 0; n-- {
					h.After(h.Delay(), "early", nil)
				}
				if c.IntN(3) == 0 {
					d := h.Delay()
					c.Log("Run starts %v later", d)
					time.Sleep(d)
				}
				h.Run(ctx, &run)
				for g := 1 + c.IntN(4); g > 0; g-- {
					type step struct{ gap, delay, chain time.Duration }
					steps := make([]step, 1+c.IntN(25))
					burst := c.IntN(3) == 0
					for i := range steps {
						steps[i].delay = h.Delay()
						if !burst || i == 0 {
							steps[i].gap = mon.Pick(c.Rand, 0, 0, h.Delay()/4, time.Duration(c.IntN(20))*time.Millisecond)
						}
						if c.IntN(4) == 0 {
							steps[i].chain = h.Delay()
						}
						if c.IntN(40) == 0 {
							steps[i].gap = h.Delay() * 10
						}
					}
					c.Log("adder: %v", steps)
					c.Go(&wg, func() {
						for _, s := range steps {
							time.Sleep(s.gap)
							h.After(s.delay, "added", func(*tw.Task) {
								if s.chain != 0 {
									h.After(s.chain, "chained", nil)
								}
							})
						}
					})
				}
				wg.Wait()
				for i := 0; i < 3; i++ { // chained tasks come later
					time.Sleep(time.Duration(h.Last()-time.Now().UnixNano()) + 3*time.Millisecond)
				}
				h.Judge()
				cancel()
				run.Wait()
			})
		})
		// delays of any length, from nanoseconds to a century, in wheels of all shapes
		m.Cases("long", m.N(400), func(c *mon.C) {
			c.Bubble(func() {
				h := &tw.Hist{C: c, RunAt: tw.Never, EndAt: tw.Never}
				h.Tick = mon.Pick[int64](c.Rand, 1, 5, 20, 1000, 60000, 3600000)
				h.Size = mon.Pick[int64](c.Rand, 2, 3, 7, 60, 512, 4096)
				h.W = timingwheel.New(h.Tick, h.Size)
				c.Log("wheel tick=%dms size=%d", h.Tick, h.Size)
				ctx, cancel := context.WithCancel(context.Background())
				var run sync.WaitGroup
				delay := func() time.Duration {
					d := time.Duration(c.Uint64N(uint64(100*365*24*time.Hour)) >> c.IntN(50))
					if c.IntN(3) == 0 { // around where 32 bits end
						d = mon.Pick(c.Rand, 1<<31, 1<<32, 1<<31*time.Microsecond, 1<<31*time.Millisecond, 1<<32*time.Millisecond, 1<<31*time.Second) + time.Duration(c.IntN(5)-2)*time.Millisecond
					}
					return d
				}
				for n := c.IntN(4); n > 0; n-- {
					h.After(delay(), "early", nil)
				}
				h.Run(ctx, &run)
				for n := 2 + c.IntN(8); n > 0; n-- {
					d := delay()
					c.Log("delay %v", d)
					h.After(d, "added", nil)
					if c.IntN(3) == 0 {
						time.Sleep(min(delay(), 2*365*24*time.Hour))
					}
				}
				time.Sleep(time.Duration(h.Last()-time.Now().UnixNano()) + 3*time.Millisecond)
				h.After(time.Duration(c.IntN(5000))*time.Millisecond, "late", nil)
				time.Sleep(6 * time.Second)
				h.Judge()
				cancel()
				run.Wait()
			})
		})
		// the machine's clock, tiny wheels, more adders than cores: preemption at any point
		m.Cases("realtime", m.N(24), func(c *mon.C) {
			h := &tw.Hist{C: c, RunAt: time.Now().UnixNano(), EndAt: tw.Never, Real: true, Tick: int64(1 + c.IntN(2)), Size: int64(2 + c.IntN(3))}
			h.W = timingwheel.New(h.Tick, h.Size)
			ctx, cancel := context.WithCancel(context.Background())
			var run, wg sync.WaitGroup
			h.Run(ctx, &run)
			var busy atomic.Int64
			for g := 0; g < 16; g++ {
				seed := c.Uint64()
				c.Go(&wg, func() {
					r := rand.New(rand.NewPCG(seed, 1))
					for i := 0; i < 120; i++ {
						busy.Add(1)
						h.After(time.Duration(r.IntN(40000))*time.Microsecond-time.Millisecond, "realtime", func(*tw.Task) { busy.Add(-1) })
						if r.IntN(4) == 0 {
							time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
						}
					}
				})
			}
			wg.Wait()
			for i := 0; i < 2500 && busy.Load() > 0; i++ {
				time.Sleep(10 * time.Millisecond)
			}
			time.Sleep(5 * time.Millisecond)
			c.Check(busy.Load() == 0, "%d tasks have not run (or ran too often) 25 s after they were due", busy.Load())
			h.Judge()
			c.M.Count("realtime_tasks", len(h.Tasks))
			c.Log("tick=%d size=%d seed=%d", h.Tick, h.Size, c.Uint64())
			c.Nontrivial()
			cancel()
			run.Wait()
		})
		// thousands of tasks due in the same tick
		m.Cases("crowd", m.N(10), func(c *mon.C) {
			c.Bubble(func() {
				tick := time.Duration(mon.Pick(c.Rand, 1, 10, 1000)) * time.Millisecond
				size := mon.Pick[int64](c.Rand, 2, 10, 100)
				n := mon.Pick(c.Rand, 5000, 20000, 70000)
				laps := mon.Pick[time.Duration](c.Rand, 1, 5, time.Duration(size)+3, time.Duration(size*size)+1)
				w := timingwheel.New(int64(tick/time.Millisecond), size)
				ctx, cancel := context.WithCancel(context.Background())
				var run sync.WaitGroup
				run.Add(1)
				go func() { defer run.Done(); w.Run(ctx) }()
				synctest.Wait()
				ran := make([]atomic.Int32, n)
				due := time.Now().Add(tick * laps)
				for i := range ran {
					w.AfterFunc(tick*laps, func() {
						ran[i].Add(1)
						// from the tick that holds the due instant to a millisecond after it
						if now := time.Now(); now.Before(due.Add(-tick)) || now.After(due.Add(time.Millisecond)) {
							c.Fail("a task due %v ran at %v (tick %v)", due, now, tick)
						}
					})
				}
				time.Sleep(tick * (laps + 3))
				synctest.Wait()
				c.Log("%d tasks %v off, tick %v, size %d", n, tick*laps, tick, size)
				for i := range ran {
					c.Check(ran[i].Load() == 1, "%d tasks due in one tick (tick %v, size %d, %v off): task %d ran %d times", n, tick, size, tick*laps, i, ran[i].Load())
				}
				cancel()
				run.Wait()
				c.M.Peak("most_in_a_tick", n)
				c.Nontrivial()
			})
		})
	})
}
