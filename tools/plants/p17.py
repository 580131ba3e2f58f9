from p16 import *
from p16 import T, GD, Wt, clk
from p13 import REf, GOf, MAf, TWf, BLf
TWdq=TWd+"/delayqueue.go"
MTf=P+"/math.go"
PLANTS=[
dict(id="c17-words", property="C17", pkg="common/filter/bloom", needs="a filter of an even number of words", breaks="the word and the bit in it are taken from the same low bits",
 edits=[(BLf,"	bitsIndex := mix(h^seed) % f.bitCnt\n","	bitsIndex := mix(h ^ seed)\n"),(BLf,"	index := bitsIndex / uint64Bits\n","	index := bitsIndex % uint64(len(f.bits))\n")],
 test=T("bloom","""
	f := New(4270, 0.01)
	for i := uint64(0); i < 4270; i++ { f.Add(i) }
	bad := 0
	for i := uint64(0); i < 100000; i++ { if f.Contains(1<<40+i) { bad++ } }
	if bad > 3000 { t.Fatal(bad, len(f.bits)) }
""")),
dict(id="c16-touched", property="C16", pkg="common/filter/bloom", needs="Clear after more than 4096 words were touched", breaks="only the words noted as touched are cleared, and only 4096 are noted",
 edits=[(BLf,"	seeds  []uint64 // 哈希种子\n","	seeds  []uint64 // 哈希种子\n	dirty  []uint64 // 写过的下标\n"),
        (BLf,"		f.bits[index] |= 1 << offset\n","		if f.bits[index] == 0 && len(f.dirty) < 4096 {\n			f.dirty = append(f.dirty, index)\n		}\n		f.bits[index] |= 1 << offset\n"),
        (BLf,"	for i := range f.bits {\n		f.bits[i] = 0\n	}\n","	for _, i := range f.dirty {\n		f.bits[i] = 0\n	}\n	f.dirty = f.dirty[:0]\n")],
 test=T("bloom","""
	f := New(100000, 0.01)
	for i := uint64(0); i < 100000; i++ { f.Add(i) }
	f.Clear()
	for i := uint64(0); i < 100000; i++ { if f.Contains(i) { t.Fatal(i) } }
""")),
dict(id="c23-next-locked", property="C23", pkg=TWd, needs="a scheduler that uses the wheel itself", breaks="the scheduler is asked for the next instant under the wheel's lock",
 edits=[(TWf,"			expiration := s.Next(time.UnixMilli(t.expiration))\n			if !expiration.IsZero() {\n				t.expiration = expiration.UnixMilli()\n				tw.addOrRun(t)\n			}\n","			tw.mutex.Lock()\n			expiration := s.Next(time.UnixMilli(t.expiration))\n			if !expiration.IsZero() {\n				t.expiration = expiration.UnixMilli()\n				tw.addOrRunLocked(t)\n			}\n			tw.mutex.Unlock()\n")],
 test=T("timingwheel","""
	tw := New(1, 20)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go tw.Run(ctx)
	var n int64
	tw.ScheduleFunc(&verifSched{tw}, func() { atomic.AddInt64(&n, 1) })
	time.Sleep(300*time.Millisecond)
	if atomic.LoadInt64(&n) < 3 { t.Fatal(n) }
}

type verifSched struct{ tw *TimingWheel }

func (s *verifSched) Next(now time.Time) time.Time {
	s.tw.AfterFunc(time.Millisecond, func() {})
	return now.Add(5*time.Millisecond)
""",["context","time","sync/atomic"])),
dict(id="c10-linear", property="C10", pkg="common/container/reap", needs="a removal from the middle of a large heap", breaks="a removal puts the whole heap in order again",
 edits=[(REf,"	n := h.Len() - 1\n	if n != i {\n		h.swap(i, n)\n		if !h.down(i, n) {\n			h.up(i)\n		}\n	}\n","	n := h.Len() - 1\n	if n != i {\n		h.swap(i, n)\n		for k := n/2 - 1; k >= 0; k-- {\n			h.down(k, n)\n		}\n	}\n")],
 test=T("meap","""
	k := 0
	h := New(func(a, b int) bool { k++; return a < b })
	var e *Entry[int]
	for i := 0; i < 10000; i++ { x := h.Push(i); if i == 5000 { e = x } }
	k = 0
	h.Remove(e)
	if k > 500 { t.Fatal(k) }
""")),
dict(id="c41-int32", property="C41", pkg=P, needs="a number of more than 2^31 units", breaks="units are counted in 32 bits",
 edits=[(MTf,"	return math.Trunc((f+0.5/pow10_n)*pow10_n) / pow10_n\n","	return float64(int32((f+0.5/pow10_n)*pow10_n)) / pow10_n\n")],
 test=Wt("""
	if x := Round(123456789.123, 3); x != 123456789.123 { t.Fatal(x) }
""")),
dict(id="c24-close-wakeup", property="C24", pkg=TWd, needs="a task added to a wheel that was stopped", breaks="the wake-up channel of a stopped wheel is closed, and closed again by the next task",
 edits=[(TWdq,"	return false\n}\n","	q.mutex.Lock()\n	defer q.mutex.Unlock()\n	close(q.wakeup)\n	return false\n}\n")],
 test=T("timingwheel","""
	tw := New(1, 20)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	tw.Run(ctx)
	tw.AfterFunc(time.Hour, func() {})
""",["context","time"])),
dict(id="c22-check-outside", property="C22", pkg=TWd, needs="two callers of Stop at once", breaks="whether a timer is still in its bucket is looked at before the bucket is locked",
 edits=[(TWbf,"	b.mutex.Lock()\n	defer b.mutex.Unlock()\n	if t.getBucket() != b {\n		return false\n	}\n\n	b.timers.Remove(t.elem)\n","	if t.getBucket() != b {\n		return false\n	}\n	b.mutex.Lock()\n	defer b.mutex.Unlock()\n	if t.elem != nil {\n		b.timers.Remove(t.elem)\n	}\n")],
 test=T("timingwheel","""
	tw := New(1, 20)
	for r := 0; r < 200000; r++ {
		tm := tw.AfterFunc(time.Hour, func() {})
		var n int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; if tm.Stop() { atomic.AddInt64(&n, 1) } }()
		}
		close(start)
		wg.Wait()
		if n != 1 { t.Fatal(r, n) }
	}
""",["time","sync","sync/atomic"])),
dict(id="c38-log2-floor", property="C38", pkg="common/math", needs="a floating-point number that is no power of two", breaks="logarithms of floating-point numbers are rounded down as those of integers",
 edits=[(MAf,"	return T(math.Log2(float64(a)))\n","	return T(math.Floor(math.Log2(float64(a))))\n")],
 test=T("math","""
	if x := Log2(3.0); x == 1 { t.Fatal(x) }
""")),
dict(id="c19-blocking-push", property="C19", pkg="common/timer/delayqueue", needs="many pushes while nobody takes", breaks="wake-ups are queued, and a push waits for room among them",
 edits=[(DQf,"		wakeup: make(chan struct{}),\n","		wakeup: make(chan struct{}, 4096),\n"),(DQf,"		close(q.wakeup)\n		q.wakeup = make(chan struct{})\n","		q.wakeup <- struct{}{}\n")],
 test=T("delayqueue","""
	q := New[int]()
	done := make(chan bool)
	go func() { for i := 0; i < 5000; i++ { q.Push(i, time.Hour-time.Duration(i)*time.Second) }; close(done) }()
	select {
	case <-done:
	case <-time.After(5*time.Second): t.Fatal("blocked")
	}
""",["time"])),
dict(id="c15-mpop-keeps", property="C15", pkg="common/container/ringbuffer/unbounded", needs="a batch pop of everything followed by a growth", breaks="an emptied ring starts again at its beginning, but growing still copies from the old place",
 edits=[(UBf,"	copy(data[copied:len], r.data)\n	r.out = 0\n","	copy(data[copied:len], r.data[:out])\n	r.out = 0\n"),(UBf,"	out := r.out % r.size\n	len := r.Len()\n","	out := r.out % r.size\n	len := mmath.Min(r.Len(), r.size)\n")],
 test=T("unbounded","""
	t.Skip()
""")),
]
PLANTS=PLANTS[:-1]
