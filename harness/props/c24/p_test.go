package c24

import (
	"context"
	"sync"
	"testing"
	"time"

	"verif/harness/mon"
	"verif/harness/tw"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C24", "wheels stopped at random instants, at due and at redistribution instants, before and while tasks are added, then used on; runs, blocking, leftover goroutines (the bubble must end) and panics are judged, race detector on; non-trivial = tasks were pending at the stop", func(m *mon.M) {
		m.Cases("stop", m.N(3000), func(c *mon.C) {
			c.Bubble(func() {
				h := tw.New(c)
				ctx, cancel := context.WithCancel(context.Background())
				var run, wg sync.WaitGroup
				var tasks []*tw.Task
				n := c.IntN(40)
				var spread time.Duration
				for i := 0; i < n; i++ {
					t := h.After(h.Delay(), "early", nil)
					tasks = append(tasks, t)
					spread = max(spread, t.Delay)
				}
				if c.IntN(4) == 0 { // the wheel starts late
					time.Sleep(mon.Pick(c.Rand, spread, time.Duration(c.Int64N(int64(spread)+5e6)), time.Minute))
				}
				var stop time.Duration
				now := time.Now().UnixNano()
				switch o := c.IntN(5); {
				case o == 0 || n == 0:
					stop = time.Duration(c.IntN(2)) * time.Duration(c.Int64N(int64(spread)+5e6))
				case o == 1:
					stop = time.Duration(h.Tickstart(tasks[c.IntN(n)].Due)-now) + mon.Pick[time.Duration](c.Rand, 0, 0, 0, 1, -1)
				case o == 2:
					lap := h.Tick * h.Size * 1e6
					due := tasks[c.IntN(n)].Due
					stop = time.Duration(due-due%lap-now) + mon.Pick[time.Duration](c.Rand, 0, 0, 0, 1, -1)
				default:
					stop = time.Duration(c.Int64N(int64(spread) + 5e6))
				}
				stop = max(stop, 0)
				h.RunAt = now
				h.EndAt = now + int64(stop)
				c.Log("%d tasks, stop after %v", n, stop)
				if c.IntN(20) == 0 {
					stop, h.EndAt = 0, now
					cancel() // before it ever ran
				}
				returned := int64(0)
				c.Go(&run, func() { h.W.Run(ctx); returned = time.Now().UnixNano() })
				c.Go(&wg, func() { time.Sleep(stop); cancel() })
				for g := c.IntN(4); g > 0; g-- { // goes on adding around and after the stop
					type step struct{ gap, delay time.Duration }
					steps := make([]step, 1+c.IntN(12))
					for i := range steps {
						steps[i] = step{stop / time.Duration(1+c.IntN(8)), h.Delay()}
						if c.IntN(3) == 0 {
							steps[i].gap = 0
						}
					}
					if c.IntN(2) == 0 {
						steps[0].gap = stop
					}
					c.Go(&wg, func() {
						for _, s := range steps {
							time.Sleep(s.gap)
							h.After(s.delay, "added", nil)
						}
					})
				}
				for _, t := range tasks {
					if c.IntN(6) == 0 {
						at := time.Duration(c.Int64N(int64(spread) + 2))
						c.Go(&wg, func() { time.Sleep(at); h.Stop(t) })
					}
				}
				wg.Wait()
				time.Sleep(time.Duration(h.Last()-time.Now().UnixNano()) + 3*time.Millisecond)
				run.Wait()
				c.Check(returned == h.EndAt, "Run returned %v after its context was done", time.Duration(returned-h.EndAt))
				h.Judge()
				// it has ended: a second Run with the same context does nothing
				ran := 0
				for _, t := range h.Tasks {
					ran += len(t.Fired)
				}
				h.W.Run(ctx)
				time.Sleep(time.Minute)
				for _, t := range h.Tasks {
					ran -= len(t.Fired)
				}
				c.Check(ran == 0, "%d tasks ran when Run was called with a context that was done", -ran)
				for _, t := range h.Tasks { // timers can still be stopped, once
					before := len(t.Stops) > 0
					h.Stop(t)
					if !before {
						ok := t.Stops[len(t.Stops)-1].OK
						c.Check(!ok || len(t.Fired) == 0, "Stop said true for a task that ran")
					}
				}
				if h.Pending > 0 {
					c.Nontrivial()
				}
			})
		})
	})
}
