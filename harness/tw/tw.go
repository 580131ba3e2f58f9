// Package tw drives the timing wheel on a virtual clock and judges the recorded
// history of additions, stops and runs.
package tw

import (
	"context"
	"sync"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"verif/harness/mon"
)

const Never = int64(1) << 62

// Task is one AfterFunc and everything observed about it.
type Task struct {
	ID     int
	Added  int64 // unix nanoseconds
	Delay  time.Duration
	Due    int64
	Fired  []int64
	Stops  []Stop
	mu     sync.Mutex
	t      *timingwheel.Timer
	origin string
}

type Stop struct {
	At int64
	OK bool
}

// Hist is a wheel under observation.
type Hist struct {
	C            *mon.C
	W            *timingwheel.TimingWheel
	Tick, Size   int64
	mu           sync.Mutex
	Tasks        []*Task
	RunAt, EndAt int64         // the time the wheel was running
	Nap          time.Duration // what every Naps-th task takes, Naps = 0: none
	Naps         int
	Real         bool  // on the machine's clock: lateness is not judged
	Made         int64 // when the wheel was built
	Pending      int   // tasks neither run nor stopped when judged
}

// New builds a wheel, at a whole millisecond half of the time so that instants collide.
func New(c *mon.C) *Hist {
	if c.IntN(2) == 0 {
		now := time.Now().UnixNano()
		time.Sleep(time.Duration((1e6 - now%1e6) % 1e6))
	}
	h := &Hist{C: c, RunAt: Never, EndAt: Never}
	h.Tick = mon.Pick[int64](c.Rand, 1, 1, 1, 2, 3, 7, 10, 50, 1000)
	h.Size = mon.Pick[int64](c.Rand, 1, 2, 2, 3, 4, 5, 8, 10, 20, 64, 256)
	h.Made = time.Now().UnixNano()
	h.W = timingwheel.New(h.Tick, h.Size)
	if c.IntN(3) == 0 {
		tick := time.Duration(h.Tick) * time.Millisecond
		h.Naps, h.Nap = 1+c.IntN(8), mon.Pick(c.Rand, 3*time.Millisecond, tick, tick*time.Duration(h.Size), 2*time.Hour)
	}
	c.Log("wheel tick=%dms size=%d at %d, every %d-th task takes %v", h.Tick, h.Size, time.Now().UnixNano(), h.Naps, h.Nap)
	return h
}

// Delay draws a delay around the interesting spans of the wheel.
func (h *Hist) Delay() time.Duration {
	c := h.C
	tick := time.Duration(h.Tick) * time.Millisecond
	lap := tick * time.Duration(h.Size)
	span := mon.Pick(c.Rand, tick, 4*tick, lap, 3*lap, lap*time.Duration(h.Size), 2*lap*time.Duration(h.Size))
	if span > 40*24*time.Hour {
		span = 40 * 24 * time.Hour
	}
	var d time.Duration
	switch c.IntN(8) {
	case 0: // on an edge
		d = mon.Pick(c.Rand, 0, tick, lap, 2*lap, lap-tick, lap+tick, lap*time.Duration(h.Size))
		d += mon.Pick[time.Duration](c.Rand, 0, 0, 1, -1, time.Millisecond, -time.Millisecond)
	case 1, 2:
		d = time.Duration(c.Int64N(int64(span)))
	case 3: // due exactly at a cascade
		now := time.Now().UnixMilli()
		l := h.Tick * h.Size
		d = time.Duration(l-now%l)*time.Millisecond + lap*time.Duration(c.IntN(4)) - time.Duration(time.Now().UnixNano()%1e6)
	default:
		d = time.Duration(c.Int64N(int64(span)/1e6+1)) * time.Millisecond
	}
	if c.IntN(30) == 0 {
		d = -d
	}
	return d
}

// Tickstart is the beginning of the tick the due time lies in.
func (h *Hist) Tickstart(due int64) int64 {
	ms := floordiv(due, 1e6)
	return floordiv(ms, h.Tick) * h.Tick * 1e6
}

func floordiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// After adds a task; body runs in the task after it was recorded.
func (h *Hist) After(d time.Duration, origin string, body func(*Task)) *Task {
	now := time.Now()
	t := &Task{Added: now.UnixNano(), Delay: d, Due: now.Add(d).UnixNano(), origin: origin}
	h.mu.Lock()
	t.ID = len(h.Tasks)
	h.Tasks = append(h.Tasks, t)
	h.mu.Unlock()
	tm := h.W.AfterFunc(d, func() {
		t.mu.Lock()
		t.Fired = append(t.Fired, time.Now().UnixNano())
		t.mu.Unlock()
		if body != nil {
			body(t)
		}
		if h.Naps > 0 && t.ID%h.Naps == 0 {
			time.Sleep(h.Nap)
		}
	})
	if tm == nil {
		h.C.Fail("AfterFunc(%v) returned no timer", d)
		return t
	}
	t.mu.Lock()
	t.t = tm
	t.mu.Unlock()
	if end := time.Now().UnixNano(); end != t.Added && !h.Real {
		h.C.Fail("AfterFunc blocked for %v", time.Duration(end-t.Added))
	}
	return t
}

// Any is one of the tasks added so far.
func (h *Hist) Any(k int) *Task {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.Tasks[k%len(h.Tasks)]
}

// Stop stops a task and records the answer.
func (h *Hist) Stop(t *Task) {
	t.mu.Lock()
	tm := t.t
	t.mu.Unlock()
	if tm == nil {
		return
	}
	at := time.Now().UnixNano()
	ok := tm.Stop()
	if end := time.Now().UnixNano(); end != at && !h.Real {
		h.C.Fail("Stop blocked for %v", time.Duration(end-at))
	}
	t.mu.Lock()
	t.Stops = append(t.Stops, Stop{at, ok})
	t.mu.Unlock()
}

// Run runs the wheel until ctx is done.
func (h *Hist) Run(ctx context.Context, wg *sync.WaitGroup) {
	h.RunAt = time.Now().UnixNano()
	h.C.Go(wg, func() { h.W.Run(ctx) })
}

// Last is when the last pending task is due.
func (h *Hist) Last() int64 {
	h.mu.Lock()
	defer h.mu.Unlock()
	l := time.Now().UnixNano()
	for _, t := range h.Tasks {
		l = max(l, t.Due)
	}
	return l
}

func ms(t int64) float64 { return float64(t%1e12) / 1e6 }

// Judge decides every task: run exactly once in its window, or stopped and
// never run; nothing due after the end of the wheel runs. It then waits for
// tasks that take long.
func (h *Hist) Judge() {
	h.judge()
	if h.Naps > 0 {
		time.Sleep(h.Nap)
	}
}

func (h *Hist) judge() {
	c := h.C
	now := time.Now().UnixNano()
	fired, stopped, cascaded, pending, late := 0, 0, 0, 0, 0
	for _, t := range h.Tasks {
		t.mu.Lock()
		lo := h.Tickstart(t.Due)
		hi := max(t.Due, h.RunAt, t.Added) + 1e6
		if h.Real {
			hi += 20e9
		}
		name := func() string {
			return t.origin + " task added at " + f(t.Added) + ", due " + f(t.Due)
		}
		stopOK := 0
		var okAt int64
		for _, s := range t.Stops {
			if s.OK {
				stopOK++
				okAt = s.At
			}
		}
		if len(t.Fired) > 1 {
			c.Fail("%s ran %d times", name(), len(t.Fired))
		}
		if stopOK > 1 {
			c.Fail("%s was stopped %d times", name(), stopOK)
		}
		if stopOK > 0 && len(t.Fired) > 0 {
			c.Fail("%s: Stop at %s said true, yet it ran at %s", name(), f(okAt), f(t.Fired[0]))
		}
		for _, s := range t.Stops {
			if !s.OK && stopOK == 0 && s.At < lo && t.Due-h.Tick*1e6 >= t.Added {
				c.Fail("%s: Stop at %s said false although the task had not run", name(), f(s.At))
			}
		}
		for _, s := range t.Stops {
			if s.OK || stopOK > 0 || h.Real {
				continue
			}
			if len(t.Fired) > 0 && t.Fired[0] > s.At {
				c.Fail("%s: Stop at %s said false, and it ran at %s", name(), f(s.At), f(t.Fired[0]))
			}
			// a wheel that is not run moves nothing
			if s.At < h.RunAt && lo > h.Tickstart(h.Made) && t.Due-h.Tick*1e6 >= t.Added {
				c.Fail("%s: Stop at %s said false, before the wheel was run at %s", name(), f(s.At), f(h.RunAt))
			}
		}
		if len(t.Fired) > 0 {
			fired++
			at := t.Fired[0]
			if at < lo {
				c.Fail("%s ran at %s, before the tick it is due in", name(), f(at))
			}
			if at < t.Added {
				c.Fail("%s ran before it was added", name())
			}
			if at > hi && !h.Real {
				c.Fail("%s ran at %s, %.3fms late (wheel running since %s)", name(), f(at), float64(at-hi)/1e6+1, f(h.RunAt))
			}
			if at > h.EndAt && (at != t.Added || lo > at) {
				c.Fail("%s ran at %s, after the wheel was stopped at %s", name(), f(at), f(h.EndAt))
			}
			if t.Due-t.Added >= h.Tick*h.Size*1e6 {
				cascaded++
			}
			if at > t.Due {
				late++
			}
		} else if stopOK > 0 {
			stopped++
		} else if hi < h.EndAt && hi < now {
			c.Fail("%s never ran, and was not stopped (wheel running since %s, now %s)", name(), f(h.RunAt), f(min(now, h.EndAt)))
		} else {
			pending++
		}
		t.mu.Unlock()
	}
	c.Log("%d tasks: %d ran, %d of them from an overflow wheel, %d stopped, %d pending", len(h.Tasks), fired, cascaded, stopped, pending)
	c.M.Count("tasks_run", fired)
	c.M.Count("tasks_run_from_overflow_wheels", cascaded)
	c.M.Count("tasks_stopped", stopped)
	c.M.Count("tasks_pending_at_end", pending)
	h.Pending = pending
	if cascaded > 0 && h.EndAt == Never {
		c.Nontrivial()
	}
}

func f(t int64) string { return time.Unix(0, t).UTC().Format("15:04:05.000000000") }
