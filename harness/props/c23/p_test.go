package c23

import (
	"context"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"verif/harness/mon"
	"verif/harness/tw"
)

// plan is a Scheduler handing out seeded instants and recording its calls.
type plan struct {
	mu    sync.Mutex
	times []time.Time // what the calls of Next answer, then the zero time
	asked []time.Time
	at    []int64
	also  func() // what the scheduler does on the side
}

func (p *plan) Next(t time.Time) time.Time {
	if p.also != nil {
		p.also()
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.asked = append(p.asked, t)
	p.at = append(p.at, time.Now().UnixNano())
	if n := len(p.asked); n <= len(p.times) {
		return p.times[n-1]
	}
	switch len(p.times) % 4 { // the zero time has many forms
	case 0:
		return time.Time{}
	case 1:
		return time.Time{}.In(time.FixedZone("x", 3600*5))
	case 2:
		return time.Unix(-62135596800, 0)
	}
	return time.Time{}.Local()
}

// nano is t on the clock's scale, whose beginning all of the longer past is
func nano(t time.Time) int64 {
	return time.Unix(0, -1<<62).Add(max(0, t.Sub(time.Unix(0, -1<<62)))).UnixNano()
}

func TestProp(t *testing.T) {
	mon.Run(t, "C23", "seeded schedules (periodic, irregular, lagging behind, ending at once) on wheels of many shapes, some stopped at random instants; every run and every question to the scheduler is judged, race detector on; non-trivial = a schedule with several runs of which a later one came through an overflow wheel", func(m *mon.M) {
		m.Cases("schedules", m.N(2500), func(c *mon.C) {
			c.Bubble(func() {
				h := tw.New(c)
				ctx, cancel := context.WithCancel(context.Background())
				var run, wg sync.WaitGroup
				h.Run(ctx, &run)
				last, nap := time.Now(), time.Duration(0)
				for k := 1 + c.IntN(5); k > 0; k-- {
					p := &plan{}
					n := mon.Pick(c.Rand, 0, 1, 2, 5, 12, 40)
					if c.Idx%150 == 7 { // and one that goes on and on
						n = 1000 + c.IntN(4000)
						c.M.Count("long_schedules", 1)
					}
					start := time.Now()
					at := start
					period := mon.Pick(c.Rand, h.Delay(), time.Duration(h.Tick)*time.Millisecond, time.Duration(h.Tick*h.Size)*time.Millisecond, 0)
					back := c.IntN(6) == 0
					long := false
					for i := 0; i < n; i++ {
						d := period
						if period == 0 || back {
							d = h.Delay()
						}
						if i == 0 && c.IntN(3) == 0 {
							d = -h.Delay() // behind from the start
						}
						if d < 0 && !back && i > 0 {
							d = -d
						}
						at = at.Add(d)
						if back && c.IntN(8) == 0 { // long past, and not
							at = mon.Pick(c.Rand, time.Unix(0, 0), time.UnixMilli(-1), time.Unix(-1e9, 7), time.UnixMilli(1), time.Time{}.Add(1), time.Date(1, 1, 1, 0, 0, 0, 1e6, time.UTC), start, start.In(time.FixedZone("x", 3600)))
							c.M.Count("instants_long_past", 1)
						}
						long = long || i > 0 && d > time.Duration(h.Tick*h.Size)*time.Millisecond
						if at.IsZero() { // would end it
							at = at.Add(1)
						}
						p.times = append(p.times, mon.Pick(c.Rand, at, at, at.UTC(), at.In(time.FixedZone("y", -3600*7)), at.Round(0)))
						if at.After(last) {
							last = at
						}
					}
					c.Log("plan of %d, period %v back=%v from %v", n, period, back, start)
					if long {
						c.Nontrivial()
					}
					var mu sync.Mutex
					var ran []int64
					slow := time.Duration(0)
					if c.IntN(3) == 0 {
						slow = mon.Pick(c.Rand, 7*time.Millisecond, max(0, period), time.Duration(h.Tick*h.Size)*time.Millisecond, time.Hour)
					}
					nap = max(nap, slow)
					stopAt := tw.Never
					var stopped bool
					var tm *timingwheel.Timer
					ready := make(chan struct{})
					selfStop := -1 // the run that stops its own schedule
					if n > 0 && c.IntN(4) == 0 {
						selfStop = c.IntN(n)
					}
					if c.IntN(3) == 0 { // a scheduler may use the wheel, too
						d := mon.Pick(c.Rand, 0, -time.Second, time.Hour, 30*24*time.Hour, time.Duration(h.Tick*h.Size)*time.Millisecond)
						p.also = func() {
							began := time.Now()
							one := h.W.AfterFunc(d, func() {})
							two := h.W.AfterFunc(2*time.Hour, func() { c.Fail("a task stopped as soon as it was added ran") })
							if ok := two.Stop(); !ok && ctx.Err() == nil {
								c.Fail("a task added by a scheduler could not be stopped at once")
							}
							one.Stop()
							if took := time.Since(began); took != 0 {
								c.Fail("adding and stopping from a scheduler took %v", took)
							}
							c.M.Count("used_by_schedulers", 1)
						}
					}
					tm = h.W.ScheduleFunc(p, func() {
						mu.Lock()
						ran = append(ran, time.Now().UnixNano())
						k := len(ran) - 1
						mu.Unlock()
						if k == selfStop {
							<-ready
							now := time.Now().UnixNano()
							p.mu.Lock()
							asked := len(p.asked)
							p.mu.Unlock()
							ok := tm.Stop()
							mu.Lock()
							stopAt, stopped = now, ok
							mu.Unlock()
							c.M.Count("stopped_by_own_run", 1)
							if asked == k+2 && k+1 < n && h.Tickstart(nano(p.times[k+1])) > now && !ok {
								c.Fail("run %d stopped its schedule at %d and was told false, the next instant being %v", k, now, p.times[k+1])
							}
							if k+1 >= n && ok {
								c.Fail("the last run stopped its schedule and was told true")
							}
						}
						time.Sleep(slow)
						runtime.Gosched()
					})
					close(ready)
					c.Check((tm == nil) == (n == 0), "ScheduleFunc with %d instants returned timer=%v", n, tm != nil)
					c.Check(time.Now().Equal(start), "ScheduleFunc blocked")
					if n > 0 && selfStop < 0 && c.IntN(2) == 0 {
						var d time.Duration
						if c.IntN(2) == 0 { // near one of the instants
							d = max(-time.Hour, p.times[c.IntN(n)].Sub(start)) + time.Duration(c.IntN(5)-2)*time.Millisecond*time.Duration(h.Tick)
						} else {
							d = time.Duration(c.Int64N(int64(last.Sub(start)) + 1e6))
						}
						c.Go(&wg, func() {
							time.Sleep(d)
							now := time.Now().UnixNano()
							ok := tm.Stop()
							mu.Lock()
							stopAt, stopped = now, ok
							mu.Unlock()
						})
					}
					defer func() {
						mu.Lock()
						defer mu.Unlock()
						p.mu.Lock()
						defer p.mu.Unlock()
						// the order of runs at one instant is not observable; the instants are
						want := len(p.times)
						if stopped {
							c.M.Count("schedules_stopped", 1)
							for _, r := range ran {
								c.Check(r <= stopAt, "stopped at %d with true, ran at %d", stopAt, r)
							}
							if len(ran) < want {
								want = len(ran)
							}
						}
						c.Check(len(ran) == want, "plan of %d instants (stopped=%v) ran %d times", len(p.times), stopped, len(ran))
						c.Check(stopped || len(p.asked) == len(p.times)+1, "scheduler with %d instants was asked %d times", len(p.times), len(p.asked))
						if c.Failed() {
							return
						}
						ready := start.UnixNano()
						for i, r := range ran {
							due := nano(p.times[i])
							lo, hi := h.Tickstart(due), max(due, ready)+1e6
							c.Check(r >= lo || r == ready, "run %d, due %v, happened at %d, before its tick", i, p.times[i], r)
							c.Check(r <= hi, "run %d, due %v, happened at %d, %.3fms late", i, p.times[i], r, float64(r-hi)/1e6+1)
							ready = max(r, ready)
						}
						if stopped && len(ran) < len(p.times) {
							// runs whose window had passed cannot be prevented any more
							due := max(nano(p.times[len(ran)]), ready)
							c.Check(due+1e6 >= stopAt, "run %d, due %v, had not happened when stopped at %d", len(ran), p.times[len(ran)], stopAt)
						} else if stopAt != tw.Never && !stopped && len(ran) == len(p.times) {
							// false is right only when no run was waiting: all done, or one just being run
							for i := range ran {
								prev := start.UnixNano()
								if i > 0 {
									prev = ran[i-1]
								}
								c.Check(!(prev < stopAt && stopAt < ran[i] && ran[i] > prev), "Stop at %d said false between run %d at %d and run %d at %d", stopAt, i-1, prev, i, ran[i])
							}
						}
						for i, a := range p.asked {
							want := start
							if i > 0 {
								want = time.UnixMilli(p.times[i-1].UnixMilli())
							}
							c.Check(a.Equal(want), "question %d to the scheduler was about %v, want %v", i, a, want)
						}
						c.M.Count("scheduled_runs", len(ran))
					}()
				}
				wg.Wait()
				time.Sleep(time.Until(last) + 500*time.Millisecond)
				cancel()
				run.Wait()
				time.Sleep(nap)
			})
		})
	})
}
