package c20

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"verif/harness/dq"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C20", "channels of several buffer sizes on one queue, readers fast and slow, cancelled at random instants and drained until closed; judged offline; non-trivial = something was left in the queue or a second channel was open", func(m *mon.M) {
		m.Cases("channel", m.N(2000), func(c *mon.C) {
			c.Bubble(func() {
				q := delayqueue.New[int]()
				h := dq.NewHist()
				h.Buffered = true
				grain := mon.Pick(c.Rand, time.Microsecond, time.Millisecond, 70*time.Millisecond)
				d := func(n int) time.Duration { return time.Duration(c.IntN(n+1)) * grain }
				readers := 1 + c.IntN(4)
				slow := c.IntN(2) == 0
				h.Slow = slow
				var wg, pw sync.WaitGroup
				for p := 1 + c.IntN(3); p > 0; p-- {
					type step struct{ gap, delay time.Duration }
					steps := make([]step, 3+c.IntN(25))
					for i := range steps {
						steps[i] = step{d(5), d(30)}
						if c.IntN(8) == 0 {
							steps[i].delay = -d(3)
						}
					}
					c.Go(&pw, func() {
						for _, s := range steps {
							time.Sleep(s.gap)
							it := h.New(s.delay)
							q.Push(it.ID, s.delay)
							if now := h.Now(); now != it.Pushed {
								c.Fail("Push blocked for %d ns", now-it.Pushed)
							}
						}
					})
				}
				end := time.Duration(60+c.IntN(150)) * grain
				var last context.Context
				var lastStop int64
				for r := 0; r < readers; r++ {
					ctx, cancel := context.WithCancel(context.Background())
					shared := r > 0 && c.IntN(4) == 0
					if shared { // another channel with the same context
						cancel()
						ctx = last
						c.M.Count("opened_with_a_context_in_use", 1)
					}
					c.Log("channel %d: stop at %v slow=%v grain=%v", r, end, slow, grain)
					size := mon.Pick(c.Rand, 0, 0, 1, 3, 100)
					early := r > 0 && !shared && c.IntN(6) == 0
					if early { // cancelled before the channel is opened
						cancel()
						c.M.Count("opened_when_cancelled", 1)
					}
					ch := q.Channel(ctx, size)
					c.Check(cap(ch) == size, "Channel(%d) has capacity %d", size, cap(ch))
					stop := end
					if r > 0 || c.IntN(4) == 0 {
						stop = d(80)
					}
					if early {
						stop = 0
					}
					stopAt := h.Now() + int64(stop)
					if shared {
						stopAt = lastStop
					}
					last, lastStop = ctx, stopAt
					work := make([]time.Duration, 8)
					for i := range work {
						if slow {
							work[i] = d(8)
						}
					}
					c.Go(&pw, func() {
						if !shared {
							time.Sleep(stop)
						}
						cancel()
					})
					c.Go(&wg, func() {
						n := 0
						for {
							in := h.Now()
							id, ok := <-ch
							out := h.Now()
							if !ok {
								if out < stopAt {
									c.Fail("channel %d closed before its context was done", r)
								}
								if out != in && out != stopAt {
									c.Fail("channel %d, cancelled at %d, closed at %d", r, stopAt, out)
								}
								h.Wait(dq.Span{By: r, In: in, Out: out})
								return
							}
							n++
							h.Got(r, id)
							h.Wait(dq.Span{By: r, In: in, Out: out, Delivered: true})
							time.Sleep(work[n%len(work)])
						}
					})
				}
				pw.Wait()
				wg.Wait()
				if readers > 1 {
					c.Nontrivial()
				}
				dq.Drain(c, q, h)
			})
		})
		// nobody reads: the buffer must hold what is due, up to its size
		m.Cases("buffer", m.N(600), func(c *mon.C) {
			c.Bubble(func() {
				q := delayqueue.New[int]()
				size := mon.Pick(c.Rand, 0, 1, 2, 3, 10, 30)
				ctx, cancel := context.WithCancel(context.Background())
				ch := q.Channel(ctx, size)
				base := time.Now()
				var due []int64 // of each element, by id
				var got []int
				read := func() {
					id := <-ch
					got = append(got, id)
					if at := int64(time.Since(base)); at < due[id] {
						c.Fail("element %d, due at %d, was read at %d", id, due[id], at)
					}
				}
				c.Log("buffer of %d", size)
				most := 0
				for s := 0; s < 30; s++ {
					switch c.IntN(3) {
					case 0:
						for k := 1 + c.IntN(4); k > 0; k-- {
							d := time.Duration(c.IntN(20)) * time.Millisecond
							due = append(due, int64(time.Since(base)+d))
							q.Push(len(due)-1, d)
						}
					case 1:
						time.Sleep(time.Duration(c.IntN(8)) * time.Millisecond)
					case 2:
						for k := c.IntN(len(ch) + 1); k > 0; k-- {
							read()
						}
					}
					synctest.Wait()
					ready := -len(got)
					for _, t := range due {
						if t <= int64(time.Since(base)) {
							ready++
						}
					}
					c.Log("at %v: %d pushed, %d ready and unread, %d in the buffer", time.Since(base), len(due), ready, len(ch))
					c.Check(len(ch) == min(size, ready), "with %d elements due and unread, a buffer of %d holds %d", ready, size, len(ch))
					most = max(most, len(ch))
				}
				cancel()
				synctest.Wait()
				now := int64(time.Since(base))
				for id := range ch { // what it holds, and at most what else is due
					got = append(got, id)
					c.Check(due[id] <= now, "element %d, due at %d, was read at %d", id, due[id], now)
				}
				c.Check(int64(time.Since(base)) == now, "a cancelled channel being drained closed %v later", time.Since(base)-time.Duration(now))
				time.Sleep(time.Second)
				for {
					id, ok := q.Pop()
					if !ok {
						break
					}
					got = append(got, id)
				}
				seen := map[int]bool{}
				for _, id := range got {
					c.Check(!seen[id], "element %d was delivered twice", id)
					seen[id] = true
				}
				c.Check(len(seen) == len(due) && q.Empty(), "%d of %d elements came out", len(seen), len(due))
				c.M.Peak("fullest_buffer", most)
				if most == size && size > 0 {
					c.Nontrivial()
				}
			})
		})
		// elements of any kind, the zero values and nil among them
		m.Cases("kinds", m.N(300), func(c *mon.C) {
			switch c.Idx % 5 {
			case 0:
				kinds(c, func(v any) string { return fmt.Sprintf("%T %v", v, v) }, nil, 0, "", false, 1)
			case 1:
				kinds(c, func(v error) string { return fmt.Sprint(v) }, nil, context.Canceled)
			case 2:
				kinds(c, func(v *int) string { return fmt.Sprint(v) }, nil, new(int))
			case 3:
				kinds(c, func(v []byte) string { return fmt.Sprint(v == nil, v) }, nil, []byte{}, []byte{0})
			default:
				kinds(c, func(v struct{}) string { return "" }, struct{}{})
			}
		})
		// wide buffers, filled from a queue that holds more
		m.Cases("wide", m.N(24), func(c *mon.C) {
			c.Bubble(func() {
				size := mon.Pick(c.Rand, 257, 1024, 1025, 5000, 20000, 66000)
				n := size + mon.Pick(c.Rand, -1, 0, 1, 300)
				q := delayqueue.New[int]()
				ctx, cancel := context.WithCancel(context.Background())
				ch := q.Channel(ctx, size)
				c.Check(cap(ch) == size, "Channel(%d) has capacity %d", size, cap(ch))
				for i := 0; i < n; i++ {
					q.Push(i, time.Duration(c.IntN(1000))*time.Millisecond)
				}
				time.Sleep(time.Second)
				synctest.Wait()
				c.Log("buffer of %d, %d due, %d in it", size, n, len(ch))
				c.Check(len(ch) == min(size, n), "with %d elements due and unread, a buffer of %d holds %d", n, size, len(ch))
				seen := make([]bool, n)
				left := n
				got := func(id int) {
					c.Check(id >= 0 && id < n && !seen[id], "element %d was delivered twice", id)
					seen[id] = true
					left--
				}
				if c.IntN(2) == 0 { // all through the channel
					for i := 0; i < n; i++ {
						got(<-ch)
					}
					cancel()
				} else {
					cancel()
				}
				for id := range ch {
					got(id)
				}
				for {
					id, ok := q.Pop()
					if !ok {
						break
					}
					got(id)
				}
				c.Check(left == 0 && q.Empty(), "%d of %d elements did not come out", left, n)
				c.M.Peak("fullest_buffer", min(size, n))
				c.Nontrivial()
			})
		})
	})
}

// kinds sends values through channels, some never read before they close.
func kinds[T any](c *mon.C, say func(T) string, vals ...T) {
	c.Bubble(func() {
		q := delayqueue.New[T]()
		ctx, cancel := context.WithCancel(context.Background())
		start := time.Now()
		left := map[string]int{}
		type due struct {
			v  string
			at time.Duration
		}
		var in []due
		n := 1 + c.IntN(20)
		for i := 0; i < n; i++ {
			v, d := mon.Pick(c.Rand, vals...), time.Duration(c.IntN(10))*time.Millisecond
			q.Push(v, d)
			in = append(in, due{say(v), d})
			left[say(v)]++
		}
		size := c.IntN(4)
		ch := q.Channel(ctx, size)
		if c.IntN(3) == 0 { // others that are closed without having been read
			other, stop := context.WithCancel(context.Background())
			ch := q.Channel(other, 2)
			stop()
			for v := range ch {
				left[say(v)]--
				n--
			}
		}
		c.Log("%d of %T, buffer of %d: %v", n, vals, size, in)
		for n > 0 {
			select {
			case v, ok := <-ch:
				if !ok {
					c.Fail("the channel closed with %d elements to come", n)
					return
				}
				left[say(v)]--
				c.Check(left[say(v)] >= 0, "%q came out more often than it went in: %v", say(v), in)
				k := 0 // how many of these could have been delivered by now
				for _, e := range in {
					if e.v == say(v) && e.at <= time.Since(start) {
						k++
					}
				}
				c.Check(k > 0, "%q came out at %v, before it was due: %v", say(v), time.Since(start), in)
				n--
			case <-time.After(time.Hour):
				c.Fail("%d elements were never delivered: %v", n, in)
				cancel()
				return
			}
		}
		c.Check(q.Empty() && time.Since(start) <= 10*time.Millisecond, "all delivered at %v, Empty=%v", time.Since(start), q.Empty())
		cancel()
		_, ok := <-ch
		c.Check(!ok, "more came out than went in")
		c.M.Count("values_of_kinds", len(in))
		c.Nontrivial()
	})
}
