package c47

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/list"
	meap "github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"github.com/ahKevinXy/go-web-tools/common/hash"
	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"gorm.io/gorm"
	"verif/harness/fsx"
	"verif/harness/mon"
	"verif/harness/sq"
)

// slack is what the runtime itself may move by.
const slack = 600 << 10

// held is what is reachable now.
func held() int {
	runtime.GC()
	runtime.GC()
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return int(s.HeapAlloc)
}

// steady runs op over and over: a warm-up, a first part and a second one ten
// times as long, after which no more memory and goroutines may be held than
// before. op leaves the content as large as it found it, within a fixed bound.
func steady(c *mon.C, name string, n int, settle func(), op func(i int)) {
	steadyWithin(c, slack, name, n, settle, op)
}

func steadyWithin(c *mon.C, slack int, name string, n int, settle func(), op func(i int)) {
	part := func(from, to int) (int, int) {
		for i := from; i < to; i++ {
			op(i)
			if c.Failed() {
				panic("refuted")
			}
		}
		if settle != nil {
			settle()
		}
		return held(), runtime.NumGoroutine()
	}
	m0, g0 := part(0, n)
	m1, g1 := part(n, 11*n)
	c.M.Count("operations", 11*n)
	c.M.Peak("largest_growth_bytes", m1-m0)
	c.Log("%s: %d and %d operations", name, n, 10*n)
	c.Nontrivial()
	if m1-m0 > slack { // once more, so that nothing transient is taken for a leak
		m2, g2 := part(11*n, 33*n)
		c.Check(m2-m1 <= slack, "%s: %d operations on contents of bounded size hold %d bytes more, and %d more hold %d more", name, 10*n, m1-m0, 22*n, m2-m1)
		g1 = g2
	}
	runtime.KeepAlive(op) // what it uses has been held until here
	c.Check(g1 <= g0+2, "%s: %d goroutines after %d operations, %d after %d", name, g0, n, g1, 11*n)
}

type blob [64]byte

// comp is a component and how to use it for ever.
type comp struct {
	name   string
	bubble bool
	n      int
	run    func(c *mon.C, n int)
}

var comps = []comp{
	{"fixed window", true, 20000, func(c *mon.C, n int) {
		l := fixed_window.NewFixedWindowLimiter(c.IntN(5), time.Second)
		steady(c, "fixed window limiter", n, nil, func(i int) { l.TryAcquire(); time.Sleep(time.Duration(c.IntN(2e9))) })
	}},
	{"leaky bucket", true, 20000, func(c *mon.C, n int) {
		l := leaky_bucket.NewLeakyBucketLimiter(c.IntN(5), 1)
		steady(c, "leaky bucket limiter", n, nil, func(i int) { l.TryAcquire(); time.Sleep(time.Duration(c.IntN(2e9))) })
	}},
	{"token bucket", true, 20000, func(c *mon.C, n int) {
		l := token_bucket.NewTokenBucketLimiter(c.IntN(5), 1)
		steady(c, "token bucket limiter", n, nil, func(i int) { l.TryAcquire(); time.Sleep(time.Duration(c.IntN(2e9))) })
	}},
	{"sliding window", true, 12000, func(c *mon.C, n int) {
		slots := 1 + c.IntN(40)
		slot := mon.Pick(c.Rand, time.Nanosecond, time.Millisecond, 3*time.Second)
		limit := 1 + c.IntN(2*slots)
		if c.Idx%2 == 0 { // nothing is ever refused
			limit, n = 1<<40, 1000
		}
		l, _ := sliding_window.NewSlidingWindowLimiter(limit, slot*time.Duration(slots), slot)
		steadyWithin(c, 200<<10, fmt.Sprintf("sliding window limiter of %d slots, limit %d", slots, limit), n, nil, func(i int) {
			for k := c.IntN(4) * (i % 2); k >= 0; k-- {
				l.TryAcquire()
			}
			time.Sleep(slot * time.Duration(1+i%2*c.IntN(3)))
		})
	}},
	{"sliding log", true, 12000, func(c *mon.C, n int) {
		slots := 2 + c.IntN(30)
		slot := mon.Pick(c.Rand, time.Nanosecond, time.Millisecond, 3*time.Second)
		limit, lower := 3*slots, 2
		if c.Idx%2 == 0 {
			limit, lower, n = 1<<40, 1<<30, 1000
		}
		l, err := sliding_log.NewSlidingLogLimiter(slot, sliding_log.NewSlidingLogLimiterStrategy(limit, slot*time.Duration(slots)), sliding_log.NewSlidingLogLimiterStrategy(lower, slot))
		if err != nil {
			panic(err)
		}
		steadyWithin(c, 200<<10, fmt.Sprintf("sliding log limiter of %d slots, limits %d and %d", slots, limit, lower), n, nil, func(i int) {
			for k := c.IntN(4) * (i % 2); k >= 0; k-- {
				l.TryAcquire()
			}
			time.Sleep(slot * time.Duration(1+i%2*c.IntN(3)))
		})
	}},
	{"heap", false, 20000, func(c *mon.C, n int) {
		h := heap.New(nil, func(a, b *blob) bool { return a[0] < b[0] })
		hn := heap.NewN(2+c.IntN(4), func(a, b *blob) bool { return a[0] < b[0] })
		p := pqueue.New(nil, func(a, b *blob) bool { return a[0] < b[0] })
		steady(c, "heaps", n, nil, func(i int) {
			for k := c.IntN(8); k >= 0; k-- {
				b := &blob{byte(c.IntN(256))}
				h.Push(b)
				hn.Push(b)
				p.Push(b)
			}
			for top := c.IntN(40); h.Len() > top; {
				switch c.IntN(3) {
				case 0:
					h.Remove(c.IntN(h.Len()))
					hn.Remove(c.IntN(hn.Len()))
				default:
					h.Pop()
					hn.Pop()
				}
				p.Pop()
			}
		})
	}},
	{"keyed heap", false, 20000, func(c *mon.C, n int) {
		h := meap.New(func(a, b meap.Entry[int, *blob]) bool { return a.Key < b.Key })
		next := 0
		steady(c, "keyed heap", n, nil, func(i int) {
			for k := c.IntN(8); k >= 0; k-- {
				next++
				h.Push(next*7919%1000003, &blob{})
				h.Get(c.IntN(1000003))
				h.Contains(c.IntN(1000003))
			}
			for top := c.IntN(40); h.Len() > top; {
				if c.IntN(2) == 0 {
					h.Remove(h.Peek().Key)
					h.Remove(c.IntN(1000003))
				} else {
					h.Pop()
				}
			}
		})
	}},
	{"handle heap", false, 20000, func(c *mon.C, n int) {
		h := reap.New(func(a, b *blob) bool { return a[0] < b[0] })
		var es []*reap.Entry[*blob]
		steady(c, "handle heap", n, nil, func(i int) {
			for k := c.IntN(8); k >= 0; k-- {
				es = append(es, h.Push(&blob{byte(c.IntN(256))}))
			}
			for k := c.IntN(12); k >= 0 && len(es) > 0; k-- {
				at := c.IntN(len(es))
				h.SetValue(es[at], &blob{byte(c.IntN(256))})
				h.Remove(es[at])
				es[at] = es[len(es)-1]
				es[len(es)-1] = nil
				es = es[:len(es)-1]
			}
			if h.Len() > 40 {
				for h.Len() > 0 {
					h.Pop()
				}
				es = nil
			}
		})
	}},
	{"list", false, 20000, func(c *mon.C, n int) {
		l := list.New[*blob]()
		steady(c, "list", n, nil, func(i int) {
			for k := c.IntN(8); k >= 0; k-- {
				e := l.PushBack(&blob{})
				l.InsertBefore(&blob{}, e)
				l.MoveToFront(e)
			}
			other := list.New[*blob]()
			other.PushBackList(l)
			for l.Len() > 20 {
				switch c.IntN(40) {
				case 0:
					l.Clear()
				case 1, 2, 3:
					l.RemoveFront()
				case 4, 5, 6:
					l.RemoveBack()
				default:
					l.Remove(l.Front().Next())
				}
			}
		})
	}},
	{"deque, stack, set", false, 20000, func(c *mon.C, n int) {
		d, s, t := deque.New[*blob](), stack.New[*blob](), set.New[string]()
		steady(c, "deque, stack and set", n, nil, func(i int) {
			for k := c.IntN(8); k >= 0; k-- {
				b := &blob{}
				if c.IntN(2) == 0 {
					d.PushFront(b)
				} else {
					d.PushBack(b)
				}
				s.Push(b)
				t.Add(fmt.Sprint("member", i, k))
				t.Contains(fmt.Sprint("other", i, k))
				if c.IntN(4) > 0 {
					t.Remove(fmt.Sprint("member", i, k))
				} else {
					defer t.Remove(fmt.Sprint("member", i, k))
				}
			}
			for top := c.IntN(40); d.Len() > top; {
				if c.IntN(2) == 0 {
					d.PopFront()
				} else {
					d.PopBack()
				}
				s.Pop()
			}
		})
	}},
	{"rings", false, 20000, func(c *mon.C, n int) {
		size := uint64(1 + c.IntN(60))
		f, r := fix.New[*blob](size), round.New[*blob](size)
		steady(c, "bounded rings", n, nil, func(i int) {
			f.MPush(make([]*blob, c.IntN(80))...)
			r.MPush(make([]*blob, c.IntN(80))...)
			if !f.Full() {
				f.Push(&blob{})
			}
			f.MPop(uint64(c.IntN(80)))
			r.MPop(uint64(c.IntN(80)))
			if c.IntN(50) == 0 {
				f.Reset()
				r.Reset()
			}
		})
		c.Check(f.Cap() == size, "the capacity of a bounded ring went from %d to %d", size, f.Cap())
	}},
	{"growing ring", false, 20000, func(c *mon.C, n int) {
		init := uint64(c.IntN(100))
		r := unbounded.New[*blob](init)
		most, top := uint64(0), mon.Pick(c.Rand, 1, 2, 10, 300)
		steady(c, "growing ring", n, nil, func(i int) {
			if c.IntN(2) == 0 {
				r.Push(&blob{})
			} else {
				r.MPush(make([]*blob, c.IntN(1+top))...)
			}
			most = max(most, r.Len())
			switch c.IntN(4) {
			case 0:
				r.MPop(r.Len())
			case 1:
				r.MPopCopy(make([]*blob, c.IntN(1+top)))
			case 2:
				if !r.Empty() {
					r.Pop()
				}
			}
			for r.Len() > uint64(2*top) {
				r.Pop()
			}
			if i%100 == 0 && c.IntN(4) == 0 {
				r.Reset()
			}
			if r.Cap() > max(init, 2*most, 2) {
				c.Fail("a growing ring of initial size %d that never held more than %d elements has a capacity of %d", init, most, r.Cap())
			}
		})
	}},
	{"bloom filter", false, 60000, func(c *mon.C, n int) {
		f := bloom.New(1000, 0.01)
		h := hash.New()
		steady(c, "bloom filter and hash", n, nil, func(i int) {
			f.Add(c.Uint64())
			f.AddString(fmt.Sprint(i))
			f.ContainsBytes([]byte(fmt.Sprint(i)))
			h.Sum64String(fmt.Sprint(i))
			if i%5000 == 0 {
				f.Clear()
			}
		})
	}},
	{"concurrent map", false, 60000, func(c *mon.C, n int) {
		m := new(utils.Map)
		steady(c, "concurrent map", n, nil, func(i int) {
			k := fmt.Sprint("key", i)
			m.Get(k + "?")
			m.Del(k + "!")
			if c.IntN(2) == 0 {
				m.Set(k, &blob{})
			} else {
				m.TestAndSet(k, &blob{})
			}
			if c.IntN(30) == 0 {
				m.LockRange(func(k, _ any) { m.UnsafeDel(k) })
			} else if i >= 20 {
				m.Del(fmt.Sprint("key", i-20))
			}
		})
	}},
	{"delay queue", true, 4000, func(c *mon.C, n int) {
		q := delayqueue.New[*blob]()
		life, die := context.WithCancel(context.Background())
		defer die()
		steady(c, "delay queue", n, func() { time.Sleep(time.Hour); synctest.Wait() }, func(i int) {
			for k := c.IntN(4); k >= 0; k-- {
				q.Push(&blob{}, time.Duration(c.IntN(1e9))-1e6)
			}
			q.Push(&blob{}, time.Duration(c.IntN(1e6)))
			q.Take(life) // its context lives on
			switch c.IntN(4) {
			case 0: // takers that give up
				for k := 0; k < 4; k++ {
					ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.IntN(2000)))
					go q.Take(ctx)
					defer cancel()
				}
			case 1:
				ctx, cancel := context.WithCancel(context.Background())
				ch := q.Channel(ctx, c.IntN(3))
				time.Sleep(time.Duration(c.IntN(1e9)))
				cancel()
				for range ch {
				}
			case 2:
				time.Sleep(time.Duration(c.IntN(2e9)))
			}
			for {
				if _, ok := q.Pop(); !ok {
					break
				}
			}
		})
	}},
	{"timers that are stopped", true, 8000, func(c *mon.C, n int) {
		wheel(c, n, "timers stopped before they are due", func(w *timingwheel.TimingWheel, i int) {
			d := mon.Pick(c.Rand, time.Second, time.Minute, time.Hour, 24*time.Hour)
			b := &blob{}
			t := w.AfterFunc(d+time.Duration(c.Int64N(int64(d))), func() { b[0]++ })
			if i%8 == 0 {
				time.Sleep(time.Duration(c.IntN(1e6)))
			}
			if i%512 == 0 {
				time.Sleep(time.Duration(c.IntN(5e8)))
			}
			if !t.Stop() {
				c.Fail("a timer with a delay of at least %v could not be stopped at once", d)
			}
		})
	}},
	{"timers for one instant, stopped", true, 40000, func(c *mon.C, n int) {
		d := mon.Pick(c.Rand, time.Second, time.Hour, 1000*time.Hour)
		w := timingwheel.New(mon.Pick[int64](c.Rand, 1, 100), mon.Pick[int64](c.Rand, 2, 20, 256))
		settle := func() {}
		if c.IntN(2) == 0 { // run, or not yet
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan bool)
			go func() { w.Run(ctx); close(done) }()
			defer func() { cancel(); <-done }()
			settle = synctest.Wait
		}
		w.AfterFunc(1000*time.Hour, func() {})
		steady(c, "timers for one instant, each stopped at once", n, settle, func(i int) {
			b := &blob{}
			if !w.AfterFunc(d, func() { b[0]++ }).Stop() {
				c.Fail("a timer with a delay of %v could not be stopped at once", d)
			}
		})
	}},
	{"timers that fire", true, 6000, func(c *mon.C, n int) {
		ran := 0
		wheel(c, n, "timers that fire", func(w *timingwheel.TimingWheel, i int) {
			b := &blob{}
			w.AfterFunc(time.Duration(c.Int64N(int64(10*time.Second))), func() { b[0]++ })
			time.Sleep(time.Duration(c.IntN(1e8)))
			ran++
		})
	}},
	{"schedules", true, 3000, func(c *mon.C, n int) {
		wheel(c, n, "schedules that end or are stopped", func(w *timingwheel.TimingWheel, i int) {
			b := &blob{}
			s := &sched{left: 1 + c.IntN(5), gap: time.Duration(1 + c.IntN(1e9))}
			t := w.ScheduleFunc(s, func() { b[0]++ })
			time.Sleep(time.Duration(c.IntN(1e9)))
			if c.IntN(2) == 0 {
				t.Stop()
			}
		})
	}},
	{"one long schedule", true, 8000, func(c *mon.C, n int) {
		gap := mon.Pick(c.Rand, time.Millisecond, 10*time.Millisecond, 3*time.Second)
		w := timingwheel.New(1, 10)
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan bool)
		go func() { w.Run(ctx); close(done) }()
		ran := 0
		t := w.ScheduleFunc(&sched{left: 1 << 40, gap: gap}, func() { ran++ })
		steady(c, "a schedule that goes on", n, synctest.Wait, func(i int) { time.Sleep(gap) })
		t.Stop()
		cancel()
		<-done
		c.Check(ran >= n, "a schedule ran %d times in %d gaps", ran, 11*n)
	}},
	{"wheels", true, 300, func(c *mon.C, n int) {
		steady(c, "wheels started, used and stopped", n, func() { time.Sleep(time.Hour); synctest.Wait() }, func(i int) {
			w := timingwheel.New(1, 10)
			ctx, cancel := context.WithCancel(context.Background())
			for k := 0; k < 5; k++ {
				w.AfterFunc(time.Duration(c.Int64N(1e10)), func() {})
			}
			done := make(chan bool)
			go func() { w.Run(ctx); close(done) }()
			time.Sleep(time.Duration(c.Int64N(1e10)))
			cancel()
			<-done
		})
	}},
	{"queues", true, 1000, func(c *mon.C, n int) {
		steady(c, "delay queues used and left", n, func() { time.Sleep(time.Hour); synctest.Wait() }, func(i int) {
			q := delayqueue.New[int]()
			for k := 0; k < 5; k++ {
				q.Push(k, time.Duration(c.Int64N(1e10)))
			}
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.Int64N(1e10)))
			for range q.Channel(ctx, 2) {
			}
			cancel()
		})
	}},
	{"database", false, 200, database},
	{"files", false, 40, files},
	{"shell", false, 12, func(c *mon.C, n int) {
		steady(c, "shell commands", n, nil, func(i int) {
			utils.ShellExec(mon.Pick(c.Rand, "echo hello", "exit 3", "kill -9 $$", "head -c 100000 /dev/zero; head -c 100000 /dev/zero >&2", "syntax (", ":"))
		})
		kids, _ := filepath.Glob("/proc/self/task/*/children")
		for _, k := range kids {
			b, _ := os.ReadFile(k)
			c.Check(len(strings.Fields(string(b))) == 0, "shell commands left child processes %s", b)
		}
	}},
	{"texts", false, 3000, texts},
}

type sched struct {
	left int
	gap  time.Duration
}

func (s *sched) Next(t time.Time) time.Time {
	if s.left--; s.left < 0 {
		return time.Time{}
	}
	return t.Add(s.gap)
}

func wheel(c *mon.C, n int, name string, op func(w *timingwheel.TimingWheel, i int)) {
	w := timingwheel.New(mon.Pick[int64](c.Rand, 1, 1, 7, 100), mon.Pick[int64](c.Rand, 1, 2, 5, 20, 256))
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() { w.Run(ctx); close(done) }()
	w.AfterFunc(1000*time.Hour, func() {}) // all the wheels there will be
	steady(c, name, n, func() { time.Sleep(time.Minute); synctest.Wait() }, func(i int) { op(w, i) })
	cancel()
	<-done
}

type person struct {
	ID   int64
	Name string
}

func database(c *mon.C, n int) {
	ddl := "create table t (id integer primary key, name text, updated_at integer, deleted_at integer"
	for i := 0; i < 6; i++ {
		ddl += fmt.Sprintf(", f%d integer", i)
	}
	db := sq.New(c, ddl+")")
	defer db.Close()
	steady(c, "database helpers", n, nil, func(i int) {
		db.Spy.Reset(0, nil)
		if c.IntN(5) == 0 {
			db.Spy.Reset(1, errors.New("connection lost"))
		}
		var rs []any
		ups := map[int64]map[string]any{}
		for k := 0; k < 5; k++ {
			r := map[string]any{"id": 5*i + k + 1, "name": fmt.Sprint("name", i, k)}
			for f := 0; f < 6; f++ {
				if c.IntN(2) == 0 {
					r[fmt.Sprint("f", f)] = i
				}
			}
			rs = append(rs, r)
			ups[int64(5*i+k+1)] = map[string]any{"f1": k}
		}
		g := db.DB
		gorm_tools.BatchInsertTableRecords(g, "t", rs...)
		gorm_tools.SplitInsertTableRecords(g, "t", rs...)
		gorm_tools.BatchUpdateTableFieldWithoutVersionByID(g, "t", ups)
		gorm_tools.SplitUpdateTableFieldWithoutVersionByID(g, "t", ups)
		gorm_tools.InsertToTable("t", &person{Name: "x"}, g)
		gorm_tools.UpdateByTableNameAndId("t", int64(i), map[string]any{"name": fmt.Sprint(i)}, g)
		gorm_tools.UpdateByTableNameAndIds("t", []int64{int64(i)}, map[string]any{"name": fmt.Sprint(i)}, g)
		gorm_tools.UpdateByTableNameAndWhere("t", map[string]any{"name": fmt.Sprint(i)}, map[string]any{"f2": i}, g)
		gorm_tools.SoftDelByTableNameAndId("t", int64(i), g)
		g.Transaction(func(tx *gorm.DB) error {
			return gorm_tools.UpdateByTableNameAndIds("t", []int64{int64(i)}, map[string]any{"name": "x"}, tx)
		})
		var ids []int64
		for k := 0; k < 5; k++ {
			ids = append(ids, int64(5*(i-2)+k+1))
		}
		gorm_tools.DelByTableNameAndId("t", ids, g)
		if i%20 == 0 {
			db.Spy.Reset(0, nil)
			db.Raw("delete from t")
		}
	})
}

func files(c *mon.C, n int) {
	fsx.In(c, func(dir string) {
		fsx.Write("a/one.txt", []byte(strings.Repeat("one", 1000)))
		fsx.Write("a/two.txt", nil)
		fsx.Write("rows.csv", []byte("a,b\nc,\"d\n"))
		fsx.Write("broken.zip", []byte("PK\x03\x04 broken"))
		steady(c, "file helpers", n, nil, func(i int) {
			utils.ZipFiles("z.zip", []string{"a/one.txt", "a/two.txt", "missing"}[:2+c.IntN(2)], "a", "b")
			utils.Unzip("z.zip", "out")
			utils.Unzip("broken.zip", "out")
			utils.CopyFile("copy", "a/one.txt")
			utils.CopyFile("copy", "missing")
			utils.FileMd5("copy")
			utils.ImageFileToBase64("copy")
			utils.ReadCsv("rows.csv")
			utils.WriteCsv("w.csv", []string{"a", fmt.Sprint(i)})
			utils.ReadCsv("w.csv")
			utils.FileMove("copy", fmt.Sprint("moved/", i%3))
			utils.ScanDir(".")
			utils.IsFile("w.csv")
			utils.DeLFile("w.csv")
			b := []byte(fmt.Sprint("chunk", i))
			md5 := utils.MD5V(b)
			utils.BreakPointContinue(b, fmt.Sprint("f", i, ".bin"), 0, 1, md5)
			utils.BreakPointContinue(b, fmt.Sprint("f", i, ".bin"), 0, 1, "wrong")
			utils.MakeFile(fmt.Sprint("f", i, ".bin"), md5)
			utils.RemoveChunk(md5)
			os.RemoveAll("fileDir")
		})
		fds, _ := os.ReadDir("/proc/self/fd")
		c.Check(len(fds) < 64, "%d descriptors are open after file helpers", len(fds))
	})
}

func texts(c *mon.C, n int) {
	r := rand.New(rand.NewPCG(1, uint64(c.Idx)))
	key := []byte("0123456789abcdef")
	steady(c, "text helpers", n, nil, func(i int) {
		s := fmt.Sprint("text", i, "@example.com")
		utils.HideStar(s)
		utils.MaskMobile(s, 4)
		utils.MaskCustomerName(s)
		utils.MaskIDCard(s, 3)
		utils.MaskBackCard(s, 3)
		utils.Md5(s)
		utils.Md5Crypt(s)
		utils.ComputeFileMD5(strings.NewReader(s))
		e, _ := utils.AesEncrypt([]byte(s), key)
		utils.AesDecrypt(e, key)
		utils.AesDecrypt(e, key[1:])
		utils.Base64Decode(utils.Base64Encode(s))
		utils.RandStr(20, r.IntN(4))
		utils.BuildUrl("http://x", "a", i, s, 1)
		utils.Map2JsonString(map[string]any{s: i})
		utils.JsonStringToMap(utils.MapIntToJsonString(map[string]int32{s: 1}))
		utils.IsImage(s)
		utils.FormatByte(i)
		utils.StringToInt(s)
		utils.UpperFirst(s)
		utils.GetTimeDir()
	})
}

func TestProp(t *testing.T) {
	mon.Run(t, "C47", "every component is used for ever on contents of bounded size; what is reachable after garbage collection and the goroutines are compared between the first part and a second one ten times as long; non-trivial = both parts were run to the end", func(m *mon.M) {
		for _, cp := range comps {
			cases := 2
			if m.Thorough {
				cases = 6
			}
			m.Cases(cp.name, cases, func(c *mon.C) {
				n := cp.n
				if m.Thorough {
					n *= 2
				}
				if cp.bubble {
					c.Bubble(func() { cp.run(c, n) })
				} else {
					cp.run(c, n)
				}
			})
		}
	})
}
