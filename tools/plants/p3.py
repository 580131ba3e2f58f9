FX="common/container/ringbuffer/fix/fix.go"; RO="common/container/ringbuffer/round/roud.go"
DQ="common/timer/delayqueue/delayqueue.go"; BU="common/timer/timingwheel/bucket.go"; TQ="common/timer/timingwheel/delayqueue.go"; TW="common/timer/timingwheel/timing_wheel.go"
MP="help/utils/maps.go"; MA="common/math/math.go"; HA="common/hash/hash.go"
def T(pkg, imports, body):
    return "package "+pkg+"\n\nimport (\n"+"".join('\t"%s"\n'%i for i in imports)+")\n\nfunc TestPlantedDemo(t *testing.T) {\n"+body+"\n}\n"
def V(pkg, body, imports=()):
    return T(pkg, ["testing","testing/synctest","time",*imports], "_ = time.Second\nsynctest.Test(t, func(t *testing.T) {\n"+body+"\n})")
PLANTS=[
dict(id="c14-publish-first", property="C14", pkg="common/container/ringbuffer/fix", race=True,
 needs="the consumer popping between the publication of a batch and the copy of its wrapped part", breaks="a batch's wrapped part is copied after the batch was published",
 edits=[(FX,"	copied := copy(r.data[in:], elems)\n	copy(r.data, elems[copied:])\n","	copied := copy(r.data[in:], elems)\n	defer copy(r.data, elems[copied:])\n")],
 test=T("fix",["runtime","testing"],"""
	r := New[int](7)
	const n = 200000
	go func() {
		next := 0
		for next < n {
			b := []int{next, next + 1, next + 2}
			for r.Avail() < 3 { runtime.Gosched() }
			r.MPush(b...)
			next += 3
		}
	}()
	for want := 0; want < n; want++ {
		for r.Empty() { runtime.Gosched() }
		if v := r.Pop(); v != want { t.Fatal(v, want) }
	}
""")),
dict(id="c14-free-first", property="C14", pkg="common/container/ringbuffer/round", race=True,
 needs="the producer filling the freed space between the release and the copy of a batch pop", breaks="a batch pop copies after it has given the space back",
 edits=[(RO,"	copied := copy(elems, r.data[out:])\n	copy(elems[copied:], r.data)\n","	defer func() {\n		copied := copy(elems, r.data[out:])\n		copy(elems[copied:], r.data)\n	}()\n")],
 test=T("round",["runtime","testing"],"""
	r := New[int](4)
	const n = 200000
	go func() {
		for i := 0; i < n; i++ {
			for r.Full() { runtime.Gosched() }
			r.Push(i)
		}
	}()
	for want := 0; want < n; {
		b := r.MPop(3)
		if len(b) == 0 { runtime.Gosched() }
		for _, v := range b { if v != want { t.Fatal(v, want) }; want++ }
	}
""")),
dict(id="c18-pop-boundary", property="C18", pkg="common/timer/delayqueue",
 needs="Pop exactly at the due instant", breaks="Pop does not take an element that is due at this very instant",
 edits=[(DQ,"	if time.Now().Before(entry.expiration) {","	if !time.Now().After(entry.expiration) {")],
 test=V("delayqueue","""
	q := New[int]()
	q.Push(1, time.Second)
	time.Sleep(time.Second)
	if _, ok := q.Pop(); !ok { t.Fatal("not delivered") }
""")),
dict(id="c18-unix-order", property="C18", pkg="common/timer/delayqueue",
 needs="two elements due within the same second, the later one pushed first", breaks="elements are ordered by whole seconds only",
 edits=[(DQ,"			return e1.expiration.Before(e2.expiration)","			return e1.expiration.Unix() < e2.expiration.Unix()")],
 test=V("delayqueue","""
	q := New[int]()
	q.Push(2, 200*time.Millisecond)
	q.Push(1, 100*time.Millisecond)
	time.Sleep(150 * time.Millisecond)
	if v, ok := q.Pop(); !ok || v != 1 { t.Fatal(v, ok) }
""")),
dict(id="c18-lost-on-cancel", property="C18", pkg="common/timer/delayqueue",
 needs="a Take that starts on a due element with a context that is already done", breaks="the element is taken out and then dropped because the context is done",
 edits=[(DQ,"				q.h.Pop()\n				q.mutex.Unlock()\n				return entry.value, true\n","				q.h.Pop()\n				q.mutex.Unlock()\n				return entry.value, ctx.Err() == nil\n")],
 test=V("delayqueue","""
	q := New[int]()
	q.Push(1, 0)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	if _, ok := q.Take(ctx); !ok {
		if _, ok := q.Pop(); !ok { t.Fatal("lost") }
	}
""",["context"])),
dict(id="c18-pop-other", property="C18", pkg="common/timer/delayqueue",
 needs="Peek while the earliest element is not due yet", breaks="Peek says empty although something is inside that is not due",
 edits=[(DQ,"	return q.h.Peek().value, true\n","	e := q.h.Peek()\n	return e.value, e.expiration.Sub(time.Now()) < 24*time.Hour\n")],
 test=V("delayqueue","""
	q := New[int]()
	q.Push(1, 100*time.Hour)
	if _, ok := q.Peek(); !ok { t.Fatal("not shown") }
""")),
dict(id="c19-no-wake-on-tie", property="C19", pkg="common/timer/delayqueue",
 needs="a taker waiting on a long element while an earlier one is pushed behind a tie", breaks="waiting takers are woken only when the queue was empty before",
 edits=[(DQ,"	if q.h.Peek() == entry {","	if q.h.Peek() == entry && (q.h.Len() == 1 || delay < time.Minute) {")],
 test=V("delayqueue","""
	q := New[int]()
	q.Push(1, 10*time.Hour)
	got := make(chan time.Time)
	go func() { q.Take(context.Background()); got <- time.Now() }()
	synctest.Wait()
	start := time.Now()
	q.Push(2, time.Hour)
	if d := (<-got).Sub(start); d != time.Hour { t.Fatal(d) }
	go func() { q.Take(context.Background()); got <- time.Now() }()
	<-got
""",["context"])),
dict(id="c19-deaf-to-cancel", property="C19", pkg="common/timer/delayqueue",
 needs="cancelling a taker that waits for an element about to be due", breaks="a taker close to its element does not hear that its context is done",
 edits=[(DQ,"			case <-timer.C:\n			case <-ctx.Done():\n				timer.Stop()\n","			case <-timer.C:\n			case <-ctx.Done():\n				timer.Stop()\n				q.mutex.Lock()\n				near := !q.h.Empty() && q.h.Peek().expiration.Sub(time.Now()) < 10*time.Millisecond\n				q.mutex.Unlock()\n				if near {\n					time.Sleep(10 * time.Millisecond)\n				}\n"),(DQ,"			// 到期时间,使用 time.NewAfter 才能调用stop\n","			// 到期时间\n")],
 test=V("delayqueue","""
	q := New[int]()
	q.Push(1, 105*time.Millisecond)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	start := time.Now()
	q.Take(ctx)
	if d := time.Since(start); d != 100*time.Millisecond { t.Fatal(d) }
""",["context"])),
dict(id="c20-drop-on-full", property="C20", pkg="common/timer/delayqueue",
 needs="a channel whose buffer is full while its context is cancelled", breaks="an element taken for a full channel is dropped when the context is done",
 edits=[(DQ,"			out <- entry\n","			select {\n			case out <- entry:\n			case <-ctx.Done():\n				close(out)\n				return\n			}\n")],
 test=V("delayqueue","""
	q := New[int]()
	q.Push(1, 0)
	q.Push(2, 0)
	ctx, cancel := context.WithCancel(context.Background())
	c := q.Channel(ctx, 1)
	synctest.Wait()
	cancel()
	synctest.Wait()
	n := 0
	for range c { n++ }
	for { if _, ok := q.Pop(); !ok { break }; n++ }
	if n != 2 { t.Fatal(n) }
""",["context"])),
dict(id="c20-extra-room", property="C20", pkg="common/timer/delayqueue",
 needs="a reader that falls behind by more than the asked size", breaks="the channel is given one more slot than was asked for, so one element too many leaves the queue with nobody to receive it",
 edits=[(DQ,"	out := make(chan T, size)\n","	out := make(chan T, size+1)\n")],
 test=V("delayqueue","""
	q := New[int]()
	ctx, cancel := context.WithCancel(context.Background())
	c := q.Channel(ctx, 0)
	if cap(c) != 0 { t.Error(cap(c)) }
	cancel()
""",["context"])),
dict(id="c21-tick-edge", property="C21", pkg="common/timer/timingwheel",
 needs="a task whose due time is exactly the start of the next tick", breaks="a task due exactly one tick ahead of the wheel's clock counts as expired and runs a tick early",
 edits=[(TW,"t.expiration < currentTime+tw.tick {","t.expiration <= currentTime+tw.tick {")],
 test=V("timingwheel","""
	tw := New(10, 4)
	ctx, cancel := context.WithCancel(context.Background())
	go tw.Run(ctx)
	start := time.Now()
	done := make(chan time.Duration, 1)
	tw.AfterFunc(10*time.Millisecond, func() { done <- time.Since(start) })
	if d := <-done; d < 10*time.Millisecond { t.Fatal(d) }
	cancel()
	synctest.Wait()
""",["context"])),
dict(id="c21-overflow-current", property="C21", pkg="common/timer/timingwheel",
 needs="a second overflow wheel made after the clock has moved since the first", breaks="an overflow wheel made later starts at the time the wheel below it was last aligned to its own interval",
 edits=[(TW,"			(*TimingWheel)(overflowWheel).advance(currentTime)\n","			if currentTime%tw.interval == 0 {\n				(*TimingWheel)(overflowWheel).advance(currentTime)\n			}\n")],
 test=T("timingwheel",["testing","testing/synctest","time","context","math/rand","os"],"""
	time.AfterFunc(30*time.Second, func() { println("hangs"); os.Exit(1) })
	synctest.Test(t, func(t *testing.T) {
	tw := New(1, 4)
	ctx, cancel := context.WithCancel(context.Background())
	go tw.Run(ctx)
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 3000; i++ {
		d := time.Duration(r.Intn(300)) * time.Millisecond
		s := time.Now()
		e := time.Duration(-1)
		tw.AfterFunc(d, func() { e = time.Since(s) })
		time.Sleep(d + time.Millisecond)
		if e < d-time.Millisecond || e > d+time.Millisecond { cancel(); t.Fatal(d, e) }
		time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
	}
	cancel()
	synctest.Wait()
	})
""")),
dict(id="c22-stop-lies", property="C22", pkg="common/timer/timingwheel",
 needs="Stop on a task that was moved from an overflow wheel", breaks="Stop gives up when the task has moved between two reads of its bucket",
 edits=[(BU,"	for b := t.getBucket(); b != nil; b = t.getBucket() {\n		stop = b.remove(t)\n	}\n","	if b := t.getBucket(); b != nil {\n		stop = b.remove(t)\n	}\n")],
 test=T("timingwheel",["testing","time","sync","sync/atomic"],"""
	a, b := newBucket(), newBucket()
	var moved atomic.Bool
	tm := &Timer{}
	a.add(tm)
	a.mutex.Lock()
	var wg sync.WaitGroup
	wg.Add(1)
	stopped := false
	go func() { defer wg.Done(); stopped = tm.Stop() }()
	time.Sleep(100 * time.Millisecond)
	b.add(tm)
	moved.Store(true)
	a.mutex.Unlock()
	wg.Wait()
	if !stopped { t.Fatal("a timer that waits in a bucket was not stopped") }
""")),
dict(id="c22-stop-twice", property="C22", pkg="common/timer/timingwheel",
 needs="Stop called again on a stopped task", breaks="stopping a stopped task is reported as a success again",
 edits=[(BU,"	b.timers.Remove(t.elem)\n	t.setBucket(nil)\n	t.elem = nil\n	return true","	b.timers.Remove(t.elem)\n	t.setBucket(nil)\n	t.expiration = -1\n	return true"),(BU,"	stop := false\n","	stop := t.expiration == -1\n")],
 test=V("timingwheel","""
	tw := New(10, 4)
	x := tw.AfterFunc(time.Hour, func() {})
	if !x.Stop() || x.Stop() { t.Fatal("twice") }
""")),
dict(id="c23-from-now", property="C23", pkg="common/timer/timingwheel",
 needs="a scheduler whose instants are no multiples of the tick", breaks="the next instant is computed from the present time, not from the instant just served",
 edits=[(TW,"expiration := s.Next(time.UnixMilli(t.expiration))","expiration := s.Next(time.Now())")],
 test=T("timingwheel",["context","testing","testing/synctest","time"],"""
	synctest.Test(t, func(t *testing.T) {
		tw := New(10, 8)
		ctx, cancel := context.WithCancel(context.Background())
		go tw.Run(ctx)
		s := &every{}
		tw.ScheduleFunc(s, func() {})
		time.Sleep(time.Second)
		cancel()
		synctest.Wait()
		for i := 1; i < len(s.asked); i++ {
			if !s.asked[i].Equal(s.gave[i-1]) { t.Fatal(i, s.asked[i], s.gave[i-1]) }
		}
	})
}

type every struct{ asked, gave []time.Time }

func (e *every) Next(now time.Time) time.Time {
	n := time.UnixMilli(now.UnixMilli() + 17)
	e.asked, e.gave = append(e.asked, now), append(e.gave, n)
	return n
""")),
dict(id="c23-task-first", property="C23", pkg="common/timer/timingwheel",
 needs="a task that takes longer than its own period", breaks="the next run is arranged only after the task has finished, so a slow task misses instants or runs late",
 edits=[(TW,"""			// 添加下一次执行任务
			expiration""","""			f()
			// 添加下一次执行任务
			expiration"""),(TW,"			// 执行任务\n			f()\n","")],
 test=T("timingwheel",["context","testing","testing/synctest","time"],"""
	synctest.Test(t, func(t *testing.T) {
		tw := New(10, 8)
		ctx, cancel := context.WithCancel(context.Background())
		go tw.Run(ctx)
		var runs []time.Time
		tm := tw.ScheduleFunc(every(100), func() { runs = append(runs, time.Now()); time.Sleep(350 * time.Millisecond) })
		time.Sleep(time.Second)
		cancel()
		_ = tm
		time.Sleep(time.Second)
		if len(runs) < 9 { t.Fatal(len(runs)) }
	})
}

type every int64

func (e every) Next(now time.Time) time.Time {
	return time.UnixMilli(now.UnixMilli() + int64(e))
""")),
dict(id="c24-catch-up", property="C24", pkg="common/timer/timingwheel",
 needs="a wheel started long after tasks became due, one of which takes long, and a context done meanwhile", breaks="tasks that are overdue by more than a second are run inside the wheel's own loop, so it does not stop while one runs",
 edits=[(TW,"		go t.task()\n","		if time.Now().UnixMilli()-t.expiration > 1000 {\n			t.task()\n			return\n		}\n		go t.task()\n"),(TW,"	if !tw.add(t) {","	if ok := tw.add(t); !ok {")],
 test=V("timingwheel","""
	tw := New(10, 4)
	ctx, cancel := context.WithCancel(context.Background())
	tw.AfterFunc(100*time.Millisecond, func() { time.Sleep(time.Hour) })
	time.Sleep(3 * time.Second)
	done := make(chan struct{})
	start := time.Now()
	go func() { tw.Run(ctx); close(done) }()
	synctest.Wait()
	cancel()
	<-done
	d := time.Since(start)
	time.Sleep(2 * time.Hour)
	if d != 0 { t.Fatal(d) }
""",["context"])),
dict(id="c25-double-check", property="C25", pkg="help/utils", race=True,
 needs="two test-and-set calls on a missing key at once", breaks="the test of test-and-set is made under the read lock and not repeated: both callers win",
 edits=[(MP,"""	m.Lock()
	defer m.Unlock()

	m.init()

	if v, ok := m.m[key]; ok {
		return v
	} else {
		m.m[key] = value
		return nil
	}
""","""	m.RLock()
	v, ok := m.m[key]
	m.RUnlock()
	if ok {
		return v
	}
	m.Set(key, value)
	return nil
""")],
 test=T("utils",["sync","sync/atomic","testing"],"""
	for i := 0; i < 5000; i++ {
		var m Map
		var n atomic.Int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 16; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; if m.TestAndSet(1, j) == nil { n.Add(1) } }()
		}
		close(start)
		wg.Wait()
		if n.Load() != 1 { t.Fatal(n.Load()) }
	}
""")),
dict(id="c25-nil-value", property="C25", pkg="help/utils",
 needs="test-and-set on a key that holds a nil value", breaks="a key holding nil counts as missing",
 edits=[(MP,"	if v, ok := m.m[key]; ok {\n","	if v := m.m[key]; v != nil {\n")],
 test=T("utils",["testing"],"""
	var m Map
	m.Set(1, nil)
	m.TestAndSet(1, 2)
	if m.Get(1) != nil { t.Fatal(m.Get(1)) }
""")),
dict(id="c25-len-cache", property="C25", pkg="help/utils",
 needs="iterating while another goroutine writes", breaks="the iteration works on the entries one by one, with the lock given up in between",
 edits=[(MP,"	m.RLock()\n	defer m.RUnlock()\n	m.UnsafeRange(f)","	m.RLock()\n	keys := make([]interface{}, 0, m.UnsafeLen())\n	for k := range m.m {\n		keys = append(keys, k)\n	}\n	m.RUnlock()\n	for _, k := range keys {\n		f(k, m.Get(k))\n	}")],
 test=T("utils",["testing"],"""
	var m Map
	m.Set(1, 2)
	m.Set(2, 2)
	stop := make(chan struct{})
	go func() {
		for i := 3; ; i++ {
			select { case <-stop: return; default: }
			m.Set(1, i)
			m.Set(2, i)
		}
	}()
	defer close(stop)
	for i := 0; i < 200000; i++ {
		v := map[int]int{}
		m.RLockRange(func(k, x interface{}) { v[k.(int)] = x.(int) })
		if v[1] < v[2] || v[1] > v[2]+1 { t.Fatal(v) }
	}
""")),
dict(id="c38-abs-float", property="C38", pkg="common/math",
 needs="absolute value of negative zero or of a NaN-free negative float below 1", breaks="small negative floats keep their sign",
 edits=[(MA,"	if a < 0 {\n		return -a\n","	if b := -a; b > 0 && b >= a/2 && a+b == 0 && (b >= 1 || b*b > 0) {\n		return b\n")],
 test=T("math",["testing"],"""
	if v := Abs(-1e-200); v != 1e-200 { t.Fatal(v) }
""")),
dict(id="c38-round-up-float", property="C38", pkg="common/math",
 needs="rounding up a number just above a power of two from 2^49 on", breaks="the logarithm is taken in floating point, so numbers just above a large power of two are rounded down to it",
 edits=[(MA,"	return 1 << FindLastBitSet(n-1)","	return 1 << uint(math.Ceil(math.Log2(float64(n))))")],
 test=T("math",["testing"],"""
	if v := RoundUpPowOf2(uint64(1)<<52 + 1); v != 1<<53 { t.Fatal(v) }
""")),
dict(id="c38-ispow-signedish", property="C38", pkg="common/math",
 needs="the highest power of two of a narrow unsigned type", breaks="the top bit of an 8- or 16-bit type is not taken for a power of two",
 edits=[(MA,"	return n != 0 && ((n & (n - 1)) == 0)","	return n != 0 && n<<1>>1 == n && ((n & (n - 1)) == 0)")],
 test=T("math",["testing"],"""
	if !IsPowOf2(uint8(128)) { t.Fatal() }
""")),
dict(id="c39-short-reuse", property="C39", pkg="common/hash",
 needs="hashing the empty content after another content", breaks="the state is not reset for empty content, so its sum depends on what was hashed before",
 edits=[(HA,"	h.h.Reset()\n","	if len(b) > 0 {\n		h.h.Reset()\n	}\n")],
 test=T("hash",["testing"],"""
	h := New()
	a := h.Sum64(nil)
	h.Sum64String("x")
	if h.Sum64(nil) != a { t.Fatal("differs") }
""")),
dict(id="c39-string-runes", property="C39", pkg="common/hash",
 needs="strings with invalid UTF-8", breaks="different invalid strings collide, and differ from the same bytes",
 edits=[(HA,"	return h.Sum64([]byte(s))","	return h.Sum64([]byte(string([]rune(s))))")],
 test=T("hash",["testing"],"""
	h := New()
	if h.Sum64String("\\xff") != h.Sum64([]byte{0xff}) { t.Fatal("differs") }
""")),
]
