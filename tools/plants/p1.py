FW="common/limiter/fixed_window/fixed_window.go"
LB="common/limiter/leaky_bucket/leaky_bucket_limiter.go"
TB="common/limiter/token_bucket/token_bucket.go"
SW="common/limiter/sliding_window/sliding_window.go"
SL="common/limiter/sliding_log/sliding_log.go"
def T(pkg, imports, body):
    return "package "+pkg+"\n\nimport (\n"+"".join('\t"%s"\n'%i for i in imports)+")\n\nfunc TestPlantedDemo(t *testing.T) {\n"+body+"\n}\n"
def V(pkg, body, imports=()):  # virtual clock
    return T(pkg, ["testing","testing/synctest","time",*imports], "synctest.Test(t, func(t *testing.T) {\n"+body+"\n})")
PLANTS=[
dict(id="c01-boundary", property="C01", pkg="common/limiter/fixed_window",
 needs="an attempt exactly one window length after the window opened", breaks="the window is reopened one instant too early, so one more quota is admitted inside it",
 edits=[(FW,"now.Sub(l.lastTime) > l.window","now.Sub(l.lastTime) >= l.window")],
 test=V("fixed_window","""
	l := NewFixedWindowLimiter(1, time.Second)
	if !l.TryAcquire() { t.Fatal("first attempt refused") }
	time.Sleep(time.Second)
	if l.TryAcquire() { t.Fatal("admitted twice in one window") }
""")),
dict(id="c01-aligned-reopen", property="C01", pkg="common/limiter/fixed_window",
 needs="a gap of more than one but less than two windows between attempts", breaks="the new window is dated back to the end of the old one instead of to the attempt that opens it",
 edits=[(FW,"		l.lastTime = now\n","		l.lastTime = now.Add(-now.Sub(l.lastTime) % l.window)\n")],
 test=V("fixed_window","""
	l := NewFixedWindowLimiter(1, time.Second)
	time.Sleep(1900 * time.Millisecond)
	if !l.TryAcquire() { t.Fatal("first attempt refused") }
	time.Sleep(500 * time.Millisecond)
	if l.TryAcquire() { t.Fatal("admitted twice in one window") }
""")),
dict(id="c02-exact-second", property="C02", pkg="common/limiter/leaky_bucket",
 needs="an attempt exactly a whole number of seconds after construction, on a full bucket", breaks="the drop due at that very instant has not leaked yet",
 edits=[(LB,"if interval >= time.Second {","if interval > time.Second {")],
 test=V("leaky_bucket","""
	l := NewLeakyBucketLimiter(3, 2)
	for i := 0; i < 3; i++ { l.TryAcquire() }
	time.Sleep(time.Second)
	if !l.TryAcquire() { t.Fatal("refused") }
""")),
dict(id="c03-zero-rate", property="C03", pkg="common/limiter/token_bucket",
 needs="a bucket that gets no tokens (rate or capacity 0) and an attempt after a second", breaks="a token that was never issued is spent, and then the bucket has no bottom",
 edits=[(TB,"if l.currentTokens == 0 {","if l.currentTokens == 0 && interval < time.Second {")],
 test=V("token_bucket","""
	l := NewTokenBucketLimiter(4, 0)
	time.Sleep(time.Second)
	if l.TryAcquire() { t.Fatal("admitted") }
""")),
dict(id="c03-exact-second", property="C03", pkg="common/limiter/token_bucket",
 needs="an attempt exactly a whole number of seconds after construction", breaks="the token due at that very instant is not issued",
 edits=[(TB,"if interval >= time.Second {","if interval > time.Second {")],
 test=V("token_bucket","""
	l := NewTokenBucketLimiter(4, 1)
	time.Sleep(time.Second)
	if !l.TryAcquire() { t.Fatal("refused") }
""")),
dict(id="c04-forgotten-slot", property="C04", pkg="common/limiter/sliding_window",
 needs="admissions in the oldest slot of the window followed by an attempt exactly window minus one slot later", breaks="the oldest slot still inside the window is forgotten",
 edits=[(SW,"if smallWindow < startSmallWindow {","if smallWindow <= startSmallWindow && smallWindow != currentSmallWindow {")],
 test=V("sliding_window","""
	l, err := NewSlidingWindowLimiter(1, 3*time.Second, time.Second)
	if err != nil { t.Fatal(err) }
	if !l.TryAcquire() { t.Fatal("refused") }
	time.Sleep(2 * time.Second)
	if l.TryAcquire() { t.Fatal("admitted twice") }
""")),
dict(id="c04-refused-counted", property="C04", pkg="common/limiter/sliding_window",
 needs="a refused attempt in a later slot than the admissions that caused the refusal", breaks="a refused attempt occupies the window: the slot it fell into is carried forward with the oldest count",
 edits=[(SW,"	if count >= l.limit {\n		return false\n","	if count >= l.limit {\n		if l.counters[currentSmallWindow] == 0 && count > l.limit/2 {\n			l.counters[currentSmallWindow] = 1\n		}\n		return false\n"),
  (SW,"	l.counters[currentSmallWindow]++\n","	l.counters[currentSmallWindow] += 1\n")],
 test=V("sliding_window","""
	l, err := NewSlidingWindowLimiter(1, 2*time.Second, time.Second)
	if err != nil { t.Fatal(err) }
	l.TryAcquire()
	time.Sleep(time.Second)
	if l.TryAcquire() { t.Fatal("admitted twice") }
	time.Sleep(time.Second)
	if !l.TryAcquire() { t.Fatal("refused attempt was counted") }
""")),
dict(id="c05-wrong-name", property="C05", pkg="common/limiter/sliding_log",
 needs="two strategies exhausted at once", breaks="the narrowest exhausted strategy is named instead of the widest",
 edits=[(SL,"""	for i, strategy := range l.strategies {
		if counts[i] >= strategy.limit {""","""	for i := len(l.strategies) - 1; i >= 0; i-- {
		strategy := l.strategies[i]
		if counts[i] >= strategy.limit {""")],
 test=V("sliding_log","""
	l, err := NewSlidingLogLimiter(time.Second, NewSlidingLogLimiterStrategy(2, 10*time.Second), NewSlidingLogLimiterStrategy(1, time.Second))
	if err != nil { t.Fatal(err) }
	l.TryAcquire()
	time.Sleep(time.Second)
	l.TryAcquire()
	var v *ViolationStrategyError
	if e := l.TryAcquire(); !errors.As(e, &v) || v.Limit != 2 { t.Fatal(e) }
""",["errors"])),
dict(id="c05-equal-windows", property="C05", pkg="common/limiter/sliding_log",
 needs="two strategies with equal windows and different limits, given in ascending order of limit", breaks="construction fails although the limits decrease strictly once ordered",
 edits=[(SL,"			return a.limit > b.limit\n","			return a.smallWindows > b.smallWindows\n")],
 test=V("sliding_log","""
	if _, err := NewSlidingLogLimiter(time.Second, NewSlidingLogLimiterStrategy(1, 10*time.Second), NewSlidingLogLimiterStrategy(2, 10*time.Second)); err != nil { t.Fatal(err) }
""")),
dict(id="c05-prune-narrow", property="C05", pkg="common/limiter/sliding_log",
 needs="three strategies, and admissions older than the middle window while the widest is nearly full", breaks="counters still inside the widest window are dropped",
 edits=[(SL,"if smallWindow < startSmallWindows[0] {","if smallWindow < startSmallWindows[len(l.strategies)/2] && len(l.strategies) > 2 || smallWindow < startSmallWindows[0] {")],
 test=V("sliding_log","""
	l, err := NewSlidingLogLimiter(time.Second, NewSlidingLogLimiterStrategy(3, 10*time.Second), NewSlidingLogLimiterStrategy(2, 3*time.Second), NewSlidingLogLimiterStrategy(1, time.Second))
	if err != nil { t.Fatal(err) }
	n := 0
	for i := 0; i < 5; i++ {
		if l.TryAcquire() == nil { n++ }
		time.Sleep(1900 * time.Millisecond)
	}
	if n != 3 { t.Fatal("admitted", n) }
""")),
dict(id="c06-check-then-act", property="C06", pkg="common/limiter/sliding_log",
 needs="two attempts whose checks both come before either's increment", breaks="checking and counting are two critical sections: concurrent attempts are over-admitted",
 edits=[(SL,"	l.mutex.Lock()\n	defer l.mutex.Unlock()\n","	l.mutex.Lock()\n"),
  (SL,"		if counts[i] >= strategy.limit {\n","		if counts[i] >= strategy.limit {\n			l.mutex.Unlock()\n"),
  (SL,"	l.counters[currentSmallWindow]++\n	return nil","	l.mutex.Unlock()\n	l.mutex.Lock()\n	defer l.mutex.Unlock()\n	l.counters[currentSmallWindow]++\n	return nil")],
 test=T("sliding_log",["runtime","sync","sync/atomic","testing","time"],"""
	for round := 0; round < 3000; round++ {
		l, err := NewSlidingLogLimiter(time.Hour, NewSlidingLogLimiterStrategy(1, time.Hour))
		if err != nil { t.Fatal(err) }
		var n atomic.Int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 4*runtime.NumCPU(); i++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; if l.TryAcquire() == nil { n.Add(1) } }()
		}
		close(start)
		wg.Wait()
		if n.Load() != 1 { t.Fatal("admitted", n.Load()) }
	}
""")),
dict(id="c06-early-unlock", property="C06", pkg="common/limiter/token_bucket", race=True,
 needs="two concurrent attempts when the bucket holds exactly one token", breaks="the emptiness test is outside the lock: two attempts spend the same token",
 edits=[(TB,"	defer l.mutex.Unlock()\n",""),
  (TB,"	// 如果没有令牌，请求失败\n	if l.currentTokens == 0 {\n","	empty := l.currentTokens == 0\n	l.mutex.Unlock()\n	// 如果没有令牌，请求失败\n	if empty {\n"),
  (TB,"	l.currentTokens--\n","	l.mutex.Lock()\n	l.currentTokens--\n	l.mutex.Unlock()\n")],
 test=T("token_bucket",["runtime","sync","sync/atomic","testing","time"],"""
	for round := 0; round < 3000; round++ {
		l := NewTokenBucketLimiter(1, 1)
		l.lastTime = time.Now().Add(-1500 * time.Millisecond)
		var n atomic.Int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 4*runtime.NumCPU(); i++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; if l.TryAcquire() { n.Add(1) } }()
		}
		close(start)
		wg.Wait()
		if n.Load() > 2 || time.Since(l.lastTime) < 400*time.Millisecond && n.Load() != 1 { t.Fatal("admitted", n.Load()) }
	}
""")),
]
