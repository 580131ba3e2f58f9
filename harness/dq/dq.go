// Package dq drives the delay queue on a virtual clock and judges the recorded
// history of pushes and takes.
package dq

import (
	"context"
	"sort"
	"sync"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"verif/harness/mon"
)

// Never is later than anything a workload does.
const Never = int64(1) << 62

// Item is one element: when it was pushed, when it is due, who took it when.
type Item struct {
	ID             int
	Pushed, Due    int64
	Taken          int64 // Never while in the queue
	By, Seq        int   // taker and its running number, By = -1 for the final drain
	enter          int64 // when the call that took it was entered
	deliveredTwice bool
}

// Span is one call of Take that was waiting.
type Span struct {
	By        int
	In, Out   int64
	Delivered bool
}

// Hist is the recorded history.
type Hist struct {
	mu    sync.Mutex
	base  time.Time
	Items []*Item
	Spans []Span
	seq   map[int]int
	// Buffered: an element may have left the queue any time after it was ready
	Buffered bool
	// Slow: an element taken by another may have waited in its buffer
	Slow bool
}

func NewHist() *Hist { return &Hist{base: time.Now(), seq: map[int]int{}} }

func (h *Hist) Now() int64 { return int64(time.Since(h.base)) }

// New registers an element about to be pushed with a delay.
func (h *Hist) New(delay time.Duration) *Item {
	h.mu.Lock()
	defer h.mu.Unlock()
	n := h.Now()
	it := &Item{ID: len(h.Items), Pushed: n, Due: n + int64(delay), Taken: Never}
	h.Items = append(h.Items, it)
	return it
}

// Got records that taker by received id at this instant in a call entered at in.
func (h *Hist) Got(by, id int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	it := h.Items[id]
	if it.Taken != Never {
		it.deliveredTwice = true
	}
	h.seq[by]++
	it.Taken, it.By, it.Seq = h.Now(), by, h.seq[by]
}

// Wait records a Take call.
func (h *Hist) Wait(s Span) { h.mu.Lock(); h.Spans = append(h.Spans, s); h.mu.Unlock() }

func ms(t int64) float64 { return float64(t) / 1e6 }

// Judge checks the whole history, with left elements still in the queue.
func (h *Hist) Judge(c *mon.C, left int) {
	inQueue := 0
	late, waited := 0, 0
	for _, it := range h.Items {
		if it.deliveredTwice {
			c.Fail("element %d was delivered twice", it.ID)
		}
		if it.Taken == Never {
			inQueue++
		} else if it.Taken < it.Due {
			c.Fail("element %d (pushed %.3fms, due %.3fms) was delivered at %.3fms", it.ID, ms(it.Pushed), ms(it.Due), ms(it.Taken))
		}
		ready := max(it.Pushed, it.Due)
		if it.Taken > ready {
			late++
			for _, s := range h.Spans {
				if h.Slow && it.Taken != Never && it.By != s.By {
					continue
				}
				if max(s.In, ready) < min(s.Out, it.Taken) {
					c.Fail("element %d (pushed %.3fms, due %.3fms, taken %.3fms) was ready while taker %d was waiting from %.3fms to %.3fms", it.ID, ms(it.Pushed), ms(it.Due), ms(it.Taken), s.By, ms(s.In), ms(s.Out))
					break
				}
			}
		} else {
			waited++
		}
	}
	c.Check(inQueue == left, "%d elements undelivered, %d found in the queue", inQueue, left)
	order := append([]*Item(nil), h.Items...)
	sort.Slice(order, func(i, j int) bool { return order[i].Due < order[j].Due })
	for _, e := range h.Items {
		if e.Taken == Never {
			continue
		}
		for _, f := range order {
			if f.Due >= e.Due {
				break
			}
			// f was due earlier and inside all through the call that took e
			if f.Pushed < e.certain(h.Buffered) && (f.Taken > e.Taken && !h.Buffered || f.By == e.By && f.Seq > e.Seq) {
				c.Fail("taker %d got element %d (due %.3fms) at %.3fms although element %d (due %.3fms, pushed %.3fms) was inside", e.By, e.ID, ms(e.Due), ms(e.Taken), f.ID, ms(f.Due), ms(f.Pushed))
				break
			}
		}
	}
	c.M.Count("elements_delivered", len(h.Items)-inQueue)
	c.M.Count("delivered_at_due_instant", waited)
	c.M.Count("delivered_after_busy_taker", late)
	c.M.Count("take_calls", len(h.Spans))
}

// certain is a time before which a push is certain to precede the removal of
// the element from the queue.
func (i *Item) certain(buffered bool) int64 {
	if buffered {
		return max(i.Pushed, i.Due)
	}
	return i.Taken
}

// Opt shapes a concurrent run.
type Opt struct {
	Producers, Takers int
	Pushes            int           // per producer
	Busy              bool          // takers work between takes
	Cancel            bool          // takers' contexts are cancelled at random and they come back or leave
	Grain             time.Duration // all times are multiples of it, so that instants collide
	Poll              bool          // some takers use Pop on a schedule
}

// Run makes a concurrent history inside a bubble and judges it.
func Run(c *mon.C, o Opt) {
	q := delayqueue.New[int]()
	h := NewHist()
	c.Log("%+v", o)
	t := func(n int) time.Duration { return time.Duration(c.IntN(n+1)) * o.Grain }
	var pw, tw sync.WaitGroup
	quit, stopAll := context.WithCancel(context.Background())
	span := mon.Pick(c.Rand, 3, 10, 40)
	for p := 0; p < o.Producers; p++ {
		type step struct{ gap, delay time.Duration }
		steps := make([]step, o.Pushes)
		shape := c.IntN(4)
		for i := range steps {
			steps[i] = step{t(4), t(span)}
			switch shape {
			case 0: // ever earlier heads
				steps[i] = step{0, time.Duration(o.Pushes-i) * o.Grain}
			case 1:
				steps[i].gap = t(span)
			case 2:
				if c.IntN(4) == 0 {
					steps[i].delay = -t(3)
				}
			}
		}
		c.Log("producer %d: %v", p, steps)
		c.Go(&pw, func() {
			for _, s := range steps {
				time.Sleep(s.gap)
				it := h.New(s.delay)
				q.Push(it.ID, s.delay)
				if now := h.Now(); now != it.Pushed {
					c.Fail("Push blocked from %.3fms to %.3fms", ms(it.Pushed), ms(now))
				}
			}
		})
	}
	for k := 0; k < o.Takers; k++ {
		n := o.Pushes*o.Producers + 20
		work := make([]time.Duration, n)
		patience := make([]time.Duration, n)
		leave := -1
		poll := o.Poll && k%2 == 1
		for i := range work {
			if o.Busy && c.IntN(2) == 0 {
				work[i] = t(6)
			}
			if o.Cancel && c.IntN(3) > 0 {
				patience[i] = t(span) + mon.Pick[time.Duration](c.Rand, 0, 0, 1)
			}
		}
		if o.Cancel && k > 0 && c.IntN(2) == 0 {
			leave = c.IntN(6)
		}
		c.Go(&tw, func() {
			for i := 0; quit.Err() == nil && i != leave; i++ {
				in := h.Now()
				if poll {
					if id, ok := q.Pop(); ok {
						h.Got(k, id)
					} else {
						time.Sleep(o.Grain)
					}
					continue
				}
				ctx, cancel := quit, context.CancelFunc(func() {})
				limit := Never
				if d := patience[i%n]; d > 0 {
					ctx, cancel = context.WithTimeout(quit, d)
					limit = in + int64(d)
				}
				id, ok := q.Take(ctx)
				out := h.Now()
				if ok {
					h.Got(k, id)
				} else if ctx.Err() == nil {
					c.Fail("Take gave up at %.3fms with its context alive", ms(out))
				}
				if out > limit {
					c.Fail("Take with a deadline at %.3fms returned at %.3fms", ms(limit), ms(out))
				}
				cancel()
				h.Wait(Span{k, in, out, ok})
				time.Sleep(work[i%n])
				if patience[i%n] > 0 && !ok && work[i%n] == 0 {
					time.Sleep(o.Grain / 2)
				}
			}
		})
	}
	pw.Wait()
	time.Sleep(time.Duration(c.IntN(2)) * t(2*span))
	at := h.Now()
	stopAll()
	tw.Wait()
	c.Check(o.Poll || o.Busy || o.Cancel || h.Now() == at, "takers returned %.3fms after the cancellation", ms(h.Now()-at))
	Drain(c, q, h)
}

// Drain empties the queue after everything in it came due and judges the history.
func Drain(c *mon.C, q *delayqueue.DelayQueue[int], h *Hist) {
	var lastDue int64
	for _, it := range h.Items {
		lastDue = max(lastDue, it.Due)
	}
	time.Sleep(time.Duration(max(0, lastDue-h.Now())))
	left := 0
	prev := -Never
	for {
		id, ok := q.Pop()
		if !ok {
			break
		}
		it := h.Items[id]
		c.Check(it.Taken == Never, "element %d was delivered and is still in the queue", id)
		c.Check(it.Due >= prev, "drain: element %d due %.3fms came after one due %.3fms", id, ms(it.Due), ms(prev))
		prev = it.Due
		left++
		if left > len(h.Items) {
			c.Fail("the drain does not end")
			return
		}
	}
	c.Check(q.Empty(), "Pop refuses although everything is due, yet the queue is not empty")
	_, ok := q.Peek()
	c.Check(!ok, "Peek finds something in the empty queue")
	h.Judge(c, left)
	c.Log("%d elements, %d left at the end, %d takes", len(h.Items), left, len(h.Spans))
	c.M.Count("left_in_queue", left)
}
