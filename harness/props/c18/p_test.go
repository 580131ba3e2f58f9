package c18

import (
	"context"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"verif/harness/dq"
	"verif/harness/mon"
)

type el struct {
	id  int
	due time.Time
}

// far is too far off to be waited for
func far(e el) bool { return time.Until(e.due) > 50*365*24*time.Hour }

func TestProp(t *testing.T) {
	mon.Run(t, "C18", "sequential histories against an exact model and concurrent producers/takers judged offline (delivered once, not before due, at once when ready, earliest first), virtual clock and race detector; non-trivial = a delivery that had to be waited for and one of an element pushed later than another still inside", func(m *mon.M) {
		m.Cases("sequential", m.N(4000), func(c *mon.C) {
			c.Bubble(func() {
				q := delayqueue.New[int]()
				var in []el
				grain := mon.Pick(c.Rand, time.Nanosecond, time.Microsecond, time.Millisecond, time.Second)
				d := func(n int) time.Duration { return time.Duration(c.IntN(n+1)) * grain }
				next, waits, overtakes := 0, 0, 0
				head := func() el {
					h := in[0]
					for _, e := range in {
						if e.due.Before(h.due) {
							h = e
						}
					}
					return h
				}
				take := func(id int, what string) {
					for i, e := range in {
						if e.id == id {
							c.Check(e.due.Equal(head().due), "%s gave element %d due %v, the earliest is due %v", what, id, e.due, head().due)
							c.Check(!time.Now().Before(e.due), "%s gave element %d at %v, due %v", what, id, time.Now(), e.due)
							if i > 0 {
								overtakes++
							}
							in = append(in[:i:i], in[i+1:]...)
							return
						}
					}
					c.Fail("%s gave element %d, which is not inside", what, id)
				}
				for s, steps := 0, mon.Pick(c.Rand, 10, 40, 120); s < steps; s++ {
					now := time.Now()
					switch o := c.IntN(12); {
					case o < 5:
						delay := d(20)
						switch c.IntN(12) {
						case 0:
							delay = -delay
						case 1:
							delay = 0
						case 2:
							delay = time.Duration(c.Int64N(int64(48 * time.Hour)))
						case 3:
							if c.IntN(4) == 0 { // beyond what this run lives to see
								delay = math.MaxInt64 - time.Duration(c.Int64N(mon.Pick[int64](c.Rand, 3, 1<<40, 1<<61)))
							}
						}
						q.Push(next, delay)
						in = append(in, el{next, now.Add(delay)})
						c.Log("push %d in %v", next, delay)
						next++
					case o < 7:
						id, ok := q.Pop()
						c.Log("pop %d %v", id, ok)
						want := len(in) > 0 && !now.Before(head().due)
						c.Check(ok == want, "Pop says %v; due element inside: %v", ok, want)
						if ok {
							take(id, "Pop")
						}
					case o < 8:
						id, ok := q.Peek()
						c.Check(ok == (len(in) > 0), "Peek says %v with %d inside", ok, len(in))
						if ok {
							due := time.Time{}
							for _, e := range in {
								if e.id == id {
									due = e.due
								}
							}
							c.Check(due.Equal(head().due), "Peek shows element %d, which is not the earliest", id)
						}
					case o < 10:
						wait := d(25)
						ctx, cancel := context.WithTimeout(context.Background(), wait)
						var due time.Time
						if len(in) > 0 {
							due = head().due
						}
						id, ok := q.Take(ctx)
						cancel()
						c.Log("take for %v: %d %v", wait, id, ok)
						end := now.Add(wait)
						if ok {
							c.Check(!due.IsZero(), "Take found element %d in an empty queue", id)
							at := due
							if at.Before(now) {
								at = now
							} else if due.After(now) {
								waits++
							}
							c.Check(time.Now().Equal(at), "Take entered at %v gave an element due %v at %v", now, due, time.Now())
							take(id, "Take")
						} else {
							c.Check(time.Now().Equal(end), "Take with a deadline at %v gave up at %v", end, time.Now())
							c.Check(due.IsZero() || !due.Before(end) || wait == 0, "Take gave up at %v although an element was due at %v", end, due)
						}
					case o < 11 && len(in) > 0 && !far(head()): // to the nanosecond of the due instant
						to := head().due.Add(mon.Pick[time.Duration](c.Rand, -1, 0, 1)).Sub(now)
						time.Sleep(to)
						c.Log("sleep %v", to)
					default:
						w := d(8)
						time.Sleep(w)
						c.Log("sleep %v", w)
					}
					c.Check(q.Empty() == (len(in) == 0), "Empty=%v with %d inside", q.Empty(), len(in))
				}
				for len(in) > 0 && !far(head()) {
					id, ok := q.Take(context.Background())
					c.Check(ok, "Take gave up without a deadline")
					take(id, "final Take")
				}
				c.Check(q.Empty() == (len(in) == 0), "at the end Empty=%v with %d inside", q.Empty(), len(in))
				id, ok := q.Peek()
				c.Check(ok == (len(in) > 0), "at the end Peek says %v with %d inside", ok, len(in))
				if ok {
					for _, e := range in {
						c.Check(e.id != id || e.due.Equal(head().due), "at the end Peek shows element %d due %v, the earliest is due %v", id, e.due, head().due)
					}
					_, ok = q.Pop()
					c.Check(!ok, "Pop gave an element due in centuries")
				}
				c.M.Count("waited_takes", waits)
				c.M.Count("overtakings", overtakes)
				if waits > 0 && overtakes > 0 {
					c.Nontrivial()
				}
			})
		})
		m.Cases("concurrent", m.N(1800), func(c *mon.C) {
			c.Bubble(func() {
				c.Nontrivial()
				dq.Run(c, dq.Opt{Producers: 1 + c.IntN(4), Takers: 1 + c.IntN(2)*c.IntN(5), Pushes: 5 + c.IntN(30), Busy: c.IntN(2) == 0, Poll: c.IntN(4) == 0,
					Grain: mon.Pick(c.Rand, time.Microsecond, time.Millisecond, 70*time.Millisecond, 3*time.Second, 7*time.Minute, 31*time.Hour)})
			})
		})
		// elements that cannot be told apart are as many elements, whatever they are
		m.Cases("alike", m.N(600), func(c *mon.C) {
			switch one, none := 1, []byte(nil); c.Idx % 6 {
			case 0:
				alike(c, func(v any) string { return fmt.Sprintf("%T %v", v, v) }, nil, 0, "", 0.0, false)
			case 1:
				alike(c, func(v error) string { return fmt.Sprint(v) }, nil, context.Canceled)
			case 2:
				alike(c, func(v *int) string { return fmt.Sprint(v) }, nil, &one, new(int))
			case 3:
				alike(c, func(v []byte) string { return fmt.Sprint(v == nil, v) }, none, []byte{}, []byte{0})
			case 4:
				alike(c, func(v struct{}) string { return "" }, struct{}{})
			default:
				alike(c, func(v string) string { return v }, "", "a", "b")
			}
		})
		// more elements inside than 16 bits count
		m.Cases("crowd", m.N(8), func(c *mon.C) {
			c.Bubble(func() {
				n := mon.Pick(c.Rand, 12000, 33000, 66000, 80000)
				q := delayqueue.New[int]()
				due := make([]time.Time, n)
				span := mon.Pick(c.Rand, 50, 5000, 1<<40)
				for i := range due {
					d := time.Duration(c.IntN(span)) * time.Microsecond
					due[i] = time.Now().Add(d)
					q.Push(i, d)
				}
				c.Log("%d elements within %v", n, time.Duration(span)*time.Microsecond)
				out := make([]bool, n)
				var last time.Time
				for i := 0; i < n; i++ {
					id, ok := q.Pop()
					if !ok {
						before := time.Now()
						id, ok = q.Take(context.Background())
						c.Check(ok && (!due[id].Before(before) && time.Now().Equal(due[id])), "of %d: Take entered at %v gave element %d, due %v, at %v (%v)", n, before, id, due[id], time.Now(), ok)
					}
					c.Check(!out[id] && !due[id].Before(last) && !time.Now().Before(due[id]), "of %d: element %d, due %v, delivered at %v after one due %v (delivered before: %v)", n, id, due[id], time.Now(), last, out[id])
					out[id], last = true, due[id]
				}
				_, ok := q.Pop()
				c.Check(q.Empty() && !ok, "of %d elements: something left after all came out", n)
				c.M.Peak("most_inside", n)
				c.Nontrivial()
			})
		})
	})
}

// alike uses a queue for a few values that are often equal.
func alike[T any](c *mon.C, say func(T) string, vals ...T) {
	c.Bubble(func() {
		q := delayqueue.New[T]()
		type item struct {
			v   string
			due time.Time
		}
		var in []item
		took := func(what string, x T) {
			v := say(x)
			first := in[0].due
			for _, e := range in {
				if e.due.Before(first) {
					first = e.due
				}
			}
			for i, e := range in {
				if e.v == v && e.due.Equal(first) {
					c.Check(!time.Now().Before(first), "%s gave %q at %v, due %v", what, v, time.Now(), first)
					in = append(in[:i:i], in[i+1:]...)
					return
				}
			}
			c.Fail("%s gave %q, which is not among those due first, at %v: %v", what, v, first, in)
		}
		most := 0
		for s := 0; s < 60; s++ {
			now := time.Now()
			switch c.IntN(4) {
			case 0, 1:
				v, d := mon.Pick(c.Rand, vals...), time.Duration(c.IntN(4)-1)*time.Millisecond
				n := mon.Pick(c.Rand, 1, 1, 2, 5)
				for i := 0; i < n; i++ {
					q.Push(v, d)
					in = append(in, item{say(v), now.Add(d)})
				}
				c.Log("push %q %d times in %v", say(v), n, d)
				most = max(most, n)
			case 2:
				v, ok := q.Pop()
				c.Log("pop %q %v", say(v), ok)
				due := false
				for _, e := range in {
					due = due || !e.due.After(now)
				}
				c.Check(ok == due, "Pop says %v, something is due: %v", ok, due)
				if ok {
					took("Pop", v)
				}
			case 3:
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.IntN(5))*time.Millisecond)
				v, ok := q.Take(ctx)
				cancel()
				c.Log("take %q %v", say(v), ok)
				if ok {
					took("Take", v)
				}
			}
			c.Check(q.Empty() == (len(in) == 0), "Empty=%v with %d inside", q.Empty(), len(in))
		}
		for len(in) > 0 {
			v, ok := q.Take(context.Background())
			c.Check(ok, "Take gave up without a deadline")
			took("final Take", v)
		}
		c.Check(q.Empty(), "at the end Empty=%v", q.Empty())
		if most > 1 {
			c.Nontrivial()
		}
	})
}
