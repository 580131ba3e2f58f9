package c22

import (
	"context"
	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"sync"
	"testing"
	"time"

	"verif/harness/mon"
	"verif/harness/tw"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C22", "several goroutines, and tasks, stop tasks at random instants, at their due instants and while an overflow bucket is being redistributed; every answer judged against what ran, race detector on; non-trivial = a task came through an overflow wheel", func(m *mon.M) {
		m.Cases("stops", m.N(2500), func(c *mon.C) {
			c.Bubble(func() {
				h := tw.New(c)
				ctx, cancel := context.WithCancel(context.Background())
				var run, wg sync.WaitGroup
				h.Run(ctx, &run)
				n := 1 + c.IntN(40)
				lap := time.Duration(h.Tick*h.Size) * time.Millisecond
				tasks := make([]*tw.Task, n)
				var spread time.Duration
				for i := range tasks {
					d := h.Delay()
					var body func(*tw.Task)
					if c.IntN(4) == 0 { // stops others, and itself
						victims := []int{c.IntN(n), c.IntN(n), c.IntN(n)}
						self := c.IntN(3) == 0
						body = func(t *tw.Task) {
							for _, v := range victims {
								h.Stop(h.Any(v))
							}
							if self {
								h.Stop(t)
							}
						}
					}
					tasks[i] = h.After(d, "added", body)
					spread = max(spread, d)
					if c.IntN(10) == 0 {
						time.Sleep(time.Duration(c.IntN(int(h.Tick*3))) * time.Millisecond)
					}
				}
				stops := 0
				for _, t := range tasks {
					for k := c.IntN(3); k > 0; k-- {
						now := time.Now().UnixNano()
						var at time.Duration
						switch c.IntN(6) {
						case 0:
							at = 0
						case 1: // due instant
							at = time.Duration(h.Tickstart(t.Due) - now)
						case 2: // around it
							at = time.Duration(t.Due-now) + time.Duration(c.IntN(int(6*h.Tick)))*time.Millisecond - time.Duration(3*h.Tick)*time.Millisecond
						case 3, 4: // at a redistribution before it
							e := t.Due - t.Due%int64(lap)
							if c.IntN(2) == 0 {
								l2 := int64(lap) * h.Size
								e = t.Due - t.Due%l2
							}
							at = time.Duration(e - now)
						default:
							at = time.Duration(c.Int64N(int64(spread) + 2))
						}
						at += mon.Pick[time.Duration](c.Rand, 0, 0, 0, 0, 1, -1)
						c.Go(&wg, func() {
							time.Sleep(at)
							h.Stop(t)
						})
						stops++
					}
				}
				c.Log("%d tasks, %d stops", n, stops)
				c.M.Count("stops", stops)
				wg.Wait()
				time.Sleep(time.Duration(h.Last()-time.Now().UnixNano()) + 3*time.Millisecond)
				for _, t := range tasks { // long after: never true again
					h.Stop(t)
				}
				h.Judge()
				cancel()
				run.Wait()
			})
		})
		// a wheel that is run late, or never
		m.Cases("late", m.N(800), func(c *mon.C) {
			c.Bubble(func() {
				h := tw.New(c)
				var run, wg sync.WaitGroup
				var tasks []*tw.Task
				for n := 1 + c.IntN(20); n > 0; n-- {
					tasks = append(tasks, h.After(h.Delay(), "added", nil))
					if c.IntN(4) == 0 {
						time.Sleep(h.Delay().Abs() / 4)
					}
				}
				if c.IntN(2) == 0 { // all due
					time.Sleep(time.Duration(h.Last()-time.Now().UnixNano()) + time.Duration(c.Int64N(5e6)))
				}
				for _, t := range tasks {
					if c.IntN(2) == 0 {
						h.Stop(t)
					}
				}
				c.M.Count("stops", len(tasks))
				ctx, cancel := context.WithCancel(context.Background())
				if c.IntN(4) > 0 {
					h.Run(ctx, &run)
					for _, t := range tasks {
						switch c.IntN(6) {
						case 0:
							c.Go(&wg, func() { h.Stop(t) })
						case 1:
							at := time.Duration(c.Int64N(int64(h.Last()-time.Now().UnixNano()) + 1))
							c.Go(&wg, func() { time.Sleep(at); h.Stop(t) })
						}
					}
				}
				wg.Wait()
				time.Sleep(time.Duration(h.Last()-time.Now().UnixNano()) + 3*time.Millisecond)
				if c.IntN(2) == 0 {
					for _, t := range tasks {
						h.Stop(t)
					}
				}
				h.Judge()
				if len(tasks) > 2 {
					c.Nontrivial()
				}
				cancel()
				run.Wait()
			})
		})
		// timers kept long after their end, while other tasks come and go
		m.Cases("kept for long", m.N(12), func(c *mon.C) {
			rounds := mon.Pick(c.Rand, 300, 600, 1200, 3000)
			if c.Idx == 0 {
				rounds = 70_000
			}
			c.Log("%d rounds", rounds)
			c.Bubble(func() {
				w := timingwheel.New(1, mon.Pick[int64](c.Rand, 2, 3, 20))
				ctx, cancel := context.WithCancel(context.Background())
				var run sync.WaitGroup
				c.Go(&run, func() { w.Run(ctx) })
				ran := 0
				var mu sync.Mutex
				add := func(d time.Duration) *timingwheel.Timer {
					return w.AfterFunc(d, func() { mu.Lock(); ran++; mu.Unlock() })
				}
				old := []*timingwheel.Timer{add(time.Millisecond), add(2 * time.Millisecond), add(time.Hour), add(time.Second)}
				c.Check(old[2].Stop() && old[3].Stop(), "a waiting task could not be stopped")
				time.Sleep(10 * time.Millisecond)
				mu.Lock()
				c.Check(ran == 2, "%d tasks ran, want 2", ran)
				mu.Unlock()
				for n := 0; n < rounds; n++ {
					due := 1
					t := add(time.Duration(1+c.IntN(5)) * time.Millisecond)
					var far *timingwheel.Timer
					if n%3 == 0 {
						far = add(time.Duration(50+c.IntN(100)) * time.Millisecond)
					}
					for i, o := range old {
						c.Check(!o.Stop(), "timer %d, ended %d rounds ago, was stopped", i, n)
					}
					if n%5 == 0 {
						c.Check(t.Stop(), "a waiting task could not be stopped after %d rounds", n)
						due = 0
					}
					mu.Lock()
					ran = 0
					mu.Unlock()
					time.Sleep(10 * time.Millisecond)
					mu.Lock()
					c.Check(ran == due, "after %d rounds %d tasks ran, want %d", n, ran, due)
					mu.Unlock()
					if far != nil {
						c.Check(far.Stop() && !far.Stop(), "a waiting task could not be stopped once after %d rounds", n)
					}
					if n%16 == 0 && len(old) < 10 {
						old = append(old, t)
					}
				}
				c.M.Count("stops", rounds*len(old))
				c.Nontrivial()
				cancel()
				run.Wait()
			})
		})
		// many tasks in one overflow bucket, all stopped while it is redistributed
		m.Cases("redistribution", m.N(1200), func(c *mon.C) {
			c.Bubble(func() {
				h := tw.New(c)
				ctx, cancel := context.WithCancel(context.Background())
				var run, wg sync.WaitGroup
				h.Run(ctx, &run)
				now := time.Now().UnixNano()
				time.Sleep(time.Duration((1e6 - now%1e6) % 1e6))
				lap := h.Tick * h.Size * 1e6
				now = time.Now().UnixNano()
				edge := now - now%lap + lap*int64(2+c.IntN(int(h.Size)))
				var tasks []*tw.Task
				for i := 5 + c.IntN(60); i > 0; i-- {
					tasks = append(tasks, h.After(time.Duration(edge-now+h.Tick*1e6+c.Int64N(lap-h.Tick*1e6+1)), "added", nil))
				}
				g := 1 + c.IntN(6)
				for k := 0; k < g; k++ {
					c.Go(&wg, func() {
						time.Sleep(time.Duration(edge - now))
						for i := k; i < len(tasks); i += g {
							h.Stop(tasks[len(tasks)-1-i])
						}
					})
				}
				wg.Wait()
				c.M.Count("stops", len(tasks))
				time.Sleep(time.Duration(h.Last()-time.Now().UnixNano()) + 3*time.Millisecond)
				h.Judge()
				c.Nontrivial()
				cancel()
				run.Wait()
			})
		})
	})
}
