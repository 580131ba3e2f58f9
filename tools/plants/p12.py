from p10 import *
from p9 import T, GD
from p10 import Wt
FWf="common/limiter/fixed_window/fixed_window.go"
LBp="common/limiter/leaky_bucket"; LBf=LBp+"/leaky_bucket_limiter.go"
TBp="common/limiter/token_bucket"; TBf=TBp+"/token_bucket.go"
SWp="common/limiter/sliding_window"; SWf=SWp+"/sliding_window.go"
HEf="common/container/heap/heap.go"; HNf="common/container/heap/heapn.go"
FXp="common/container/ringbuffer/fix"; FXf=FXp+"/fix.go"
UBp="common/container/ringbuffer/unbounded"; UBf=UBp+"/unbounded.go"
FIf=P+"/files.go"; ZIf=P+"/zip.go"; RAf=P+"/rand.go"
TWbf=TWd+"/bucket.go"
def clk(pkg, body, more=()):
    return T(pkg, "\n	synctest.Test(t, func(t *testing.T) {\n"+body+"\n	})\n", ["time","testing/synctest"]+list(more))
PLANTS=[
dict(id="c02-first-drop", property="C02", pkg=LBp, needs="an empty bucket taken from at a fraction of a second", breaks="the seconds are counted from the first drop into an empty bucket",
 edits=[(LBf,"	l.currentLevel++\n","	if l.currentLevel++; l.currentLevel == 1 {\n		l.lastTime = now\n	}\n")],
 test=clk(LBp.split("/")[-1],"""
		l := NewLeakyBucketLimiter(1, 1)
		time.Sleep(1900*time.Millisecond)
		if !l.TryAcquire() { t.Fatal(1) }
		time.Sleep(200*time.Millisecond)
		if !l.TryAcquire() { t.Fatal(2) }
""")),
dict(id="c02-lazy-drain", property="C02", pkg=LBp, needs="a bucket that is filled after a pause", breaks="the bucket is drained only once it is full, and by then drains what came in a moment ago",
 edits=[(LBf,"	if interval >= time.Second {","	if l.currentLevel >= l.peakLevel && interval >= time.Second {")],
 test=clk("leaky_bucket","""
		l := NewLeakyBucketLimiter(10, 10)
		time.Sleep(5*time.Second)
		n := 0
		for i := 0; i < 30; i++ { if l.TryAcquire() { n++ } }
		if n != 10 { t.Fatal(n) }
""")),
dict(id="c03-lazy-refill", property="C03", pkg=TBp, needs="a bucket partly used up after a pause", breaks="tokens are issued only once the bucket is empty",
 edits=[(TBf,"	if interval >= time.Second {","	if l.currentTokens == 0 && interval >= time.Second {")],
 test=clk("token_bucket","""
		l := NewTokenBucketLimiter(10, 10)
		time.Sleep(time.Second)
		if !l.TryAcquire() { t.Fatal(1) }
		time.Sleep(5*time.Second)
		n := 0
		for i := 0; i < 30; i++ { if l.TryAcquire() { n++ } }
		if n != 10 { t.Fatal(n) }
""")),
dict(id="c03-full-clock", property="C03", pkg=TBp, needs="a full bucket taken from at a fraction of a second", breaks="the seconds are counted from the first token out of a full bucket",
 edits=[(TBf,"	l.currentTokens--\n","	if l.currentTokens--; l.currentTokens == l.capacity-1 {\n		l.lastTime = now\n	}\n")],
 test=clk("token_bucket","""
		l := NewTokenBucketLimiter(1, 1)
		time.Sleep(1900*time.Millisecond)
		if !l.TryAcquire() { t.Fatal(1) }
		time.Sleep(200*time.Millisecond)
		if !l.TryAcquire() { t.Fatal(2) }
""")),
dict(id="c04-until", property="C04", pkg=SWp, needs="an attempt at the very instant at which the oldest slot leaves the window", breaks="a full limiter refuses without counting for one instant too long",
 edits=[(SWf,"	mutex        sync.Mutex    // 避免并发问题\n","	fullUntil    int64\n	mutex        sync.Mutex // 避免并发问题\n"),
        (SWf,"	currentSmallWindow := time.Now().UnixNano() / l.smallWindow * l.smallWindow\n","	now := time.Now().UnixNano()\n	if now <= l.fullUntil {\n		return false\n	}\n	currentSmallWindow := now / l.smallWindow * l.smallWindow\n"),
        (SWf,"	if count >= l.limit {\n","	if count >= l.limit {\n		if l.limit > 0 {\n			oldest := currentSmallWindow\n			for smallWindow := range l.counters {\n				if smallWindow < oldest {\n					oldest = smallWindow\n				}\n			}\n			l.fullUntil = oldest + l.window\n		}\n")],
 test=clk("sliding_window","""
		l, _ := NewSlidingWindowLimiter(1, time.Second, time.Second/2)
		l.TryAcquire()
		if l.TryAcquire() { t.Fatal(1) }
		time.Sleep(time.Until(time.Unix(0, time.Now().UnixNano()/5e8*5e8+1e9)))
		if !l.TryAcquire() { t.Fatal(2) }
""")),
dict(id="c06-split", property="C06", pkg=TBp, needs="two callers between the look at the tokens and the taking", breaks="the token is looked for under the lock and taken under it again later",
 edits=[(TBf,"	l.mutex.Lock()\n	defer l.mutex.Unlock()\n\n	// 尝试发放令牌\n","	if !l.issue() {\n		return false\n	}\n	l.mutex.Lock()\n	defer l.mutex.Unlock()\n	l.currentTokens--\n	return true\n}\n\nfunc (l *TokenBucketLimiter) issue() bool {\n	l.mutex.Lock()\n	defer l.mutex.Unlock()\n\n	// 尝试发放令牌\n"),
        (TBf,"	// 如果没有令牌，请求失败\n	if l.currentTokens == 0 {\n		return false\n	}\n	// 如果有令牌，当前令牌-1，请求成功\n	l.currentTokens--\n	return true\n","	return l.currentTokens > 0\n")],
 test=T("token_bucket","""
	for round := 0; round < 4; round++ {
		l := NewTokenBucketLimiter(2000, 2000)
		time.Sleep(1010*time.Millisecond)
		var n int64
		var wg sync.WaitGroup
		end := time.Now().Add(500*time.Millisecond)
		for g := 0; g < 32; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(end) { if l.TryAcquire() { atomic.AddInt64(&n, 1) } }
			}()
		}
		wg.Wait()
		if n > 2000 { t.Fatal(n) }
	}
""",["time","sync","sync/atomic"])),
dict(id="c07-remove-half", property="C07", pkg="common/container/heap", needs="removing an inner element whose place is taken by one that belongs above it", breaks="an inner place is only repaired downwards",
 edits=[(HEf,"func (h *Heap[T]) Remove(i int) T {\n	n := h.Len() - 1\n	if n != i {\n		h.swap(i, n)\n		if !h.down(i, n) {\n","func (h *Heap[T]) Remove(i int) T {\n	n := h.Len() - 1\n	if n != i {\n		h.swap(i, n)\n		if !h.down(i, n) && i >= n/2 {\n")],
 test=T("heap","""
	h := New([]int{0, 100, 1, 101, 102, 2, 3, 103, 104, 105, 106, 4, 5, 6, 7}, func(a, b int) bool { return a < b })
	if x := h.Remove(3); x != 101 { t.Fatal(x) }
	last := -1
	for !h.Empty() { x := h.Pop(); if x < last { t.Fatal(x, last) }; last = x }
""")),
dict(id="c08-even-shift", property="C08", pkg="common/container/heap", needs="an even arity that is no power of two", breaks="parents are found by shifting for even arities",
 edits=[(HNf,"		i := (j - 1) / h.n // parent\n","		i := (j - 1) / h.n // parent\n		if h.n&1 == 0 && j > 0 {\n			i = (j - 1) >> (bits.Len(uint(h.n)) - 1)\n		}\n"),(HNf,"package heap\n","package heap\n\nimport \"math/bits\"\n")],
 test=T("heap","""
	h := NewN(6, func(a, b int) bool { return a < b })
	for i := 0; i < 500; i++ { h.Push(i*7919%500) }
	for i := 0; i < 500; i++ { if x := h.Pop(); x != i { t.Fatal(i, x) } }
""")),
dict(id="c14-plain-copy", property="C14", pkg=FXp, race=True, needs="a consumer that pops into its own slice beside a producer", breaks="the read index is moved without atomics",
 edits=[(FXf,"	atomic.AddUint64(&r.out, uint64(copied))\n","	r.out += uint64(copied)\n")],
 test=T("fix","""
	r := New[int](4)
	done := make(chan bool)
	go func() {
		for i := 0; i < 20000; { if !r.Full() { r.Push(i); i++ } else { runtime.Gosched() } }
		close(done)
	}()
	dst := make([]int, 3)
	for i := 0; i < 20000; {
		n := r.Len()
		if n > 3 { n = 3 }
		if n == 0 { runtime.Gosched(); continue }
		r.MPopCopy(dst[:n])
		for _, x := range dst[:n] { if x != i { t.Fatal(x, i) }; i++ }
	}
	<-done
""",["runtime"])),
dict(id="c15-mpop-view", property="C15", pkg=UBp, needs="a batch that was popped and is looked at after more pushes", breaks="a batch in one piece is a view of the ring",
 edits=[(UBf,"	elems := make([]T, size)\n","	if out+size <= r.size {\n		r.out += size\n		return r.data[out : out+size : out+size]\n	}\n	elems := make([]T, size)\n")],
 test=T("unbounded","""
	r := New[int](4)
	r.MPush(1, 2, 3, 4)
	a := r.MPop(2)
	r.MPush(5, 6)
	if a[0] != 1 || a[1] != 2 { t.Fatal(a) }
""")),
dict(id="c18-pool", property="C18", pkg="common/timer/delayqueue", race=True, needs="a push between a taker's letting go of the lock and its reading of the element", breaks="entries are used again before their value is read",
 edits=[("common/timer/delayqueue/delayqueue.go","	h     *heap.Heap[*entry[T]]\n","	h     *heap.Heap[*entry[T]]\n	spare []*entry[T]\n"),
        ("common/timer/delayqueue/delayqueue.go","	entry := &entry[T]{\n		value:      value,\n		expiration: time.Now().Add(delay),\n	}\n","	entry := q.entry()\n	entry.value, entry.expiration = value, time.Now().Add(delay)\n"),
        ("common/timer/delayqueue/delayqueue.go","				q.h.Pop()\n				q.mutex.Unlock()\n","				q.spare = append(q.spare, q.h.Pop())\n				q.mutex.Unlock()\n"),
        ("common/timer/delayqueue/delayqueue.go","// Take\n","func (q *DelayQueue[T]) entry() *entry[T] {\n	if n := len(q.spare); n > 0 {\n		e := q.spare[n-1]\n		q.spare = q.spare[:n-1]\n		return e\n	}\n	return &entry[T]{}\n}\n\n// Take\n")],
 test=T("delayqueue","""
	q := New[int]()
	const n = 20000
	var wg sync.WaitGroup
	var seen [n]int32
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				x, ok := q.Take(ctx)
				cancel()
				if !ok { return }
				atomic.AddInt32(&seen[x], 1)
			}
		}()
	}
	for i := 0; i < n; i++ { q.Push(i, 0) }
	wg.Wait()
	for i := range seen { if seen[i] != 1 { t.Fatal(i, seen[i]) } }
""",["time","context","sync","sync/atomic"])),
dict(id="c21-advance-now", property="C21", pkg=TWd, needs="a task added while the wheel catches up, into a bucket that is still to be served", breaks="the wheel's time jumps to now while earlier buckets wait",
 edits=[(TWf,"			tw.advance(b.getExpiration())\n","			tw.advance(nowF())\n")],
 test=T("timingwheel","""
	late := 0
	for round := 0; round < 60 && late == 0; round++ {
	synctest.Test(t, func(t *testing.T) {
		tw := New(1, 10)
		var n int64
		for i := 0; i < 9; i++ {
			i := i
			tw.AfterFunc(time.Duration(1+i)*time.Millisecond, func() {
				tw.AfterFunc(5*time.Millisecond, func() {})
				tw.AfterFunc(7*time.Millisecond, func() {})
				tw.AfterFunc(9*time.Millisecond, func() {})
				_ = i
				atomic.AddInt64(&n, 1)
			})
		}
		time.Sleep(time.Second)
		ctx, cancel := context.WithCancel(context.Background())
		go tw.Run(ctx)
		time.Sleep(2*time.Millisecond)
		synctest.Wait()
		if atomic.LoadInt64(&n) != 9 { late++ }
		cancel()
	})
	}
	if late > 0 { t.Fatal("late") }
""",["time","context","sync/atomic","testing/synctest"])),
dict(id="c22-pool", property="C22", pkg=TWd, needs="a stop of a timer whose task has run, while another task is inside", breaks="timers are used again after their tasks have run, so that an old handle stops another task",
 edits=[(TWf,"	t := &Timer{\n		expiration: time.Now().Add(delay).UnixMilli(),\n		task:       f,\n	}\n","	t := spare.Get().(*Timer)\n	t.expiration = time.Now().Add(delay).UnixMilli()\n	t.task = func() {\n		spare.Put(t)\n		f()\n	}\n"),
        (TWf,"func newTimingWheel(","var spare = sync.Pool{New: func() interface{} { return &Timer{} }}\n\nfunc newTimingWheel(")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		tw := New(1, 10)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		go tw.Run(ctx)
		var old []*Timer
		for i := 0; i < 200; i++ { old = append(old, tw.AfterFunc(2*time.Millisecond, func() {})) }
		time.Sleep(time.Second)
		for i := 0; i < 200; i++ { tw.AfterFunc(20*time.Millisecond, func() {}) }
		for _, o := range old { if o.Stop() { t.Error("stopped another"); break } }
	})
""",["time","context","testing/synctest"])),
dict(id="c25-counter", property="C25", pkg=P, needs="a length asked for between the change of the entries and that of the counter", breaks="the length is counted beside the entries, outside the lock",
 edits=[(MPf,"	m map[interface{}]interface{}\n}","	m map[interface{}]interface{}\n	n int64\n}"),
        (MPf,"func (m *Map) Set(key interface{}, value interface{}) {\n	m.Lock()\n	defer m.Unlock()\n	m.UnsafeSet(key, value)\n","func (m *Map) Set(key interface{}, value interface{}) {\n	m.Lock()\n	m.init()\n	_, old := m.m[key]\n	m.UnsafeSet(key, value)\n	m.Unlock()\n	if !old {\n		atomic.AddInt64(&m.n, 1)\n	}\n"),
        (MPf,"func (m *Map) Del(key interface{}) {\n	m.Lock()\n	defer m.Unlock()\n	m.UnsafeDel(key)\n","func (m *Map) Del(key interface{}) {\n	m.Lock()\n	_, old := m.m[key]\n	m.UnsafeDel(key)\n	m.Unlock()\n	if old {\n		atomic.AddInt64(&m.n, -1)\n	}\n"),
        (MPf,"	if v, ok := m.m[key]; ok {\n		return v\n	} else {\n		m.m[key] = value\n","	if v, ok := m.m[key]; ok {\n		return v\n	} else {\n		atomic.AddInt64(&m.n, 1)\n		m.m[key] = value\n"),
        (MPf,"	m.RLock()\n	defer m.RUnlock()\n	return m.UnsafeLen()\n","	return int(atomic.LoadInt64(&m.n))\n"),
        (MPf,"	\"sync\"\n","	\"sync\"\n	\"sync/atomic\"\n")],
 test=Wt("""
	for round := 0; round < 40; round++ {
		m := &Map{}
		stop := make(chan bool)
		var bad int64
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 5000; i++ { m.Set(g, i); m.Del(g) }
			}()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 5000; i++ {
					if n := m.Len(); n < 0 || n > 5 { atomic.AddInt64(&bad, 1) }
					if m.Get(9) == nil { m.Set(9, 1) }
					if m.Len() < 1 { atomic.AddInt64(&bad, 1) }
				}
			}()
		}
		wg.Wait()
		close(stop)
		if bad > 0 { t.Fatal(bad) }
	}
""",["sync","sync/atomic"])),
dict(id="c30-same-size", property="C30", pkg=P, needs="a finished file of the same name and size from another upload", breaks="a finished file of the right size is taken for this one",
 edits=[(BCf,"	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)\n","	if done, err := os.Stat(finishDir + fileName); err == nil {\n		var size int64\n		parts, _ := filepath.Glob(breakpointDir + FileMd5 + \"/\" + fileName + \"_*\")\n		for _, part := range parts {\n			if info, err := os.Stat(part); err == nil {\n				size += info.Size()\n			}\n		}\n		if len(parts) > 0 && size == done.Size() {\n			return finishDir + fileName, nil\n		}\n	}\n	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)\n")],
 test=Wt("""
	t.Chdir(t.TempDir())
	for _, s := range []string{"hello", "world"} {
		BreakPointContinue([]byte(s), "f", 0, 1, Md5(s))
		p, err := MakeFile("f", Md5(s))
		if err != nil { t.Fatal(err) }
		if b, _ := os.ReadFile(p); string(b) != s { t.Fatal(string(b)) }
	}
""",["os"])),
dict(id="c30-dir-once", property="C30", pkg=P, needs="an upload that begins again after its chunks were removed", breaks="a directory that was made once is not made again",
 edits=[(BCf,"	err := os.MkdirAll(path, os.ModePerm)\n	if err != nil {\n		return path, err\n	}\n","	if _, made := madeDirs.LoadOrStore(path, true); !made {\n		if err := os.MkdirAll(path, os.ModePerm); err != nil {\n			return path, err\n		}\n	}\n"),
        (BCf,"func CheckMd5(","var madeDirs sync.Map\n\nfunc CheckMd5("),(BCf,"	\"strings\"\n","	\"strings\"\n	\"sync\"\n")],
 test=Wt("""
	t.Chdir(t.TempDir())
	for i := 0; i < 2; i++ {
		if _, err := BreakPointContinue([]byte("x"), "f", 0, 1, Md5("x")); err != nil { t.Fatal(i, err) }
		if err := RemoveChunk(Md5("x")); err != nil { t.Fatal(err) }
	}
""")),
dict(id="c32-sibling", property="C32", pkg=P, needs="an entry that leads into a sibling whose name begins like that of the destination", breaks="paths are compared as text",
 edits=[(ZIf,"		fpath := filepath.Join(destDir, f.Name)\n","		fpath := filepath.Join(filepath.Clean(destDir), f.Name)\n"),
        (ZIf,"		if err != nil || rel == \"..\" || strings.HasPrefix(rel, \"..\"+string(filepath.Separator)) {","		if err != nil || rel == \"..\" || destDir != \".\" && !strings.HasPrefix(fpath, filepath.Clean(destDir)) {")],
 test=Wt("""
	d := t.TempDir()
	z := filepath.Join(d, "z.zip")
	f, _ := os.Create(z)
	w := zip.NewWriter(f)
	e, _ := w.Create("../dest-other/x")
	e.Write([]byte("x"))
	w.Close()
	f.Close()
	Unzip(z, filepath.Join(d, "dest"))
	if _, err := os.Stat(filepath.Join(d, "dest-other")); err == nil { t.Fatal("outside") }
""",["os","path/filepath","archive/zip"])),
dict(id="c32-dirs-unchecked", property="C32", pkg=P, needs="an entry for a directory that leads outside", breaks="directories are made before the path is judged",
 edits=[(ZIf,"		// 压缩包中的路径不允许离开目标目录\n","		if f.FileInfo().IsDir() {\n			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {\n				return []string{}, err\n			}\n		}\n		// 压缩包中的路径不允许离开目标目录\n"),
        (ZIf,"		if f.FileInfo().IsDir() {\n			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {\n				return []string{}, err\n			}\n		} else {\n","		if !f.FileInfo().IsDir() {\n")],
 test=Wt("""
	d := t.TempDir()
	z := filepath.Join(d, "z.zip")
	f, _ := os.Create(z)
	w := zip.NewWriter(f)
	w.Create("../out/")
	w.Close()
	f.Close()
	Unzip(z, filepath.Join(d, "dest"))
	if _, err := os.Stat(filepath.Join(d, "out")); err == nil { t.Fatal("outside") }
""",["os","path/filepath","archive/zip"])),
dict(id="c35-copy-skip", property="C35", pkg=P, needs="a destination of the same size that is newer than the source", breaks="a copy that looks up to date is not made",
 edits=[(FIf,"	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE, 0644)\n","	if from, statErr := src.Stat(); statErr == nil && from.Mode().IsRegular() {\n		if to, statErr := os.Stat(dstName); statErr == nil && to.Size() == from.Size() && to.Size() > 0 && !to.ModTime().Before(from.ModTime()) {\n			return from.Size(), nil\n		}\n	}\n	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE, 0644)\n")],
 test=Wt("""
	t.Chdir(t.TempDir())
	os.WriteFile("a", []byte("hello"), 0644)
	os.WriteFile("b", []byte("world"), 0644)
	CopyFile("b", "a")
	if b, _ := os.ReadFile("b"); string(b) != "hello" { t.Fatal(string(b)) }
""",["os"])),
dict(id="c35-scan-cache", property="C35", pkg=P, needs="a directory listed again after a change further down", breaks="the listing is kept until the directory itself changes",
 edits=[(FIf,"	dir = strings.TrimSuffix(dir, \"/\")\n","	dir = strings.TrimSuffix(dir, \"/\")\n	if info, statErr := os.Stat(dir); statErr == nil && filepath.IsAbs(dir) {\n		key := dir + info.ModTime().String()\n		if kept, ok := listings.Load(key); ok {\n			return append([]string(nil), kept.([]string)...), nil\n		}\n		defer func() {\n			if err == nil {\n				listings.Store(key, append([]string(nil), files...))\n			}\n		}()\n	}\n"),
        (FIf,"// CopyFile\n","var listings sync.Map\n\n// CopyFile\n"),(FIf,"	\"strings\"\n","	\"strings\"\n	\"sync\"\n")],
 test=Wt("""
	d := t.TempDir()
	os.MkdirAll(d+"/x/y", 0755)
	if f, _ := ScanDir(d); len(f) != 0 { t.Fatal(f) }
	os.WriteFile(d+"/x/y/z", nil, 0644)
	if f, _ := ScanDir(d); len(f) != 1 { t.Fatal(f) }
""",["os"])),
dict(id="c35-mkdir-once", property="C35", pkg=P, needs="a directory made again after it was deleted", breaks="a directory that was made once is not made again",
 edits=[(FIf,"		if !exist {\n","		if _, known := createdDirs.LoadOrStore(v, true); !exist && !known {\n"),(FIf,"// FileMove\n","var createdDirs sync.Map\n\n// FileMove\n"),(FIf,"	\"strings\"\n","	\"strings\"\n	\"sync\"\n")],
 test=Wt("""
	d := t.TempDir()+"/x"
	for i := 0; i < 2; i++ {
		if err := CreateDir(d); err != nil { t.Fatal(err) }
		if !IsDir(d) { t.Fatal(i) }
		DeLFile(d)
	}
""")),
dict(id="c36-mtime-cache", property="C36", pkg=P, needs="a file that changes while size and modification time stay", breaks="the digest of a file is kept until its size or time changes",
 edits=[(FIf,"	defer file.Close()\n	md5h := md5.New()\n	_, err = io.Copy(md5h, file)\n	if err == nil {\n		md5str = fmt.Sprintf(\"%x\", md5h.Sum(nil))\n	}\n","	defer file.Close()\n	key := path\n	if info, err := file.Stat(); err == nil && info.Mode().IsRegular() {\n		key = fmt.Sprint(path, info.Size(), info.ModTime().UnixNano())\n		if kept, ok := digests.Load(key); ok {\n			return kept.(string), nil\n		}\n	}\n	md5h := md5.New()\n	_, err = io.Copy(md5h, file)\n	if err == nil {\n		md5str = fmt.Sprintf(\"%x\", md5h.Sum(nil))\n		if key != path {\n			digests.Store(key, md5str)\n		}\n	}\n"),
        (FIf,"// IsImage\n","var digests sync.Map\n\n// IsImage\n"),(FIf,"	\"strings\"\n","	\"strings\"\n	\"sync\"\n")],
 test=Wt("""
	f := t.TempDir()+"/x"
	at := time.Unix(1000, 0)
	for _, s := range []string{"hello", "world"} {
		os.WriteFile(f, []byte(s), 0644)
		os.Chtimes(f, at, at)
		if m, _ := FileMd5(f); m != Md5(s) { t.Fatal(s) }
	}
""",["os","time"])),
dict(id="c40-csv-cache", property="C40", pkg=P, needs="a file that changes while size and modification time stay", breaks="rows are kept until the file's size or time changes",
 edits=[(CSf,"	r := csv.NewReader(fs)\n	content, err := r.ReadAll()\n","	info, err := fs.Stat()\n	if err != nil {\n		return nil\n	}\n	key := path + info.ModTime().String() + strconv.FormatInt(info.Size(), 10)\n	if kept, ok := readFiles.Load(key); ok {\n		rows := make([][]string, 0)\n		for _, row := range kept.([][]string) {\n			rows = append(rows, append([]string(nil), row...))\n		}\n		return &rows\n	}\n	r := csv.NewReader(fs)\n	content, err := r.ReadAll()\n	if err == nil && len(content) > 0 {\n		readFiles.Store(key, content)\n	}\n"),
        (CSf,"// WriteCsv\n","var readFiles sync.Map\n\n// WriteCsv\n"),(CSf,"	\"os\"\n","	\"os\"\n	\"strconv\"\n	\"sync\"\n")],
 test=Wt("""
	f := t.TempDir()+"/x"
	at := time.Unix(1000, 0)
	for _, s := range []string{"hello", "world"} {
		os.WriteFile(f, []byte(s), 0644)
		os.Chtimes(f, at, at)
		if r := ReadCsv(f); (*r)[0][0] != s { t.Fatal(s, *r) }
	}
""",["os","time"])),
dict(id="c42-seed-second", property="C42", pkg=P, needs="two processes started within one second", breaks="the seed is the second the process started in",
 edits=[(RAf,"	rand.Seed(time.Now().UnixNano())\n","	rand.Seed(time.Now().Unix())\n")],
 test=Wt("""
	if os.Getenv("CHILD") == "1" { fmt.Println("RAND", RandStr(40, 3)); os.Exit(0) }
	seen := map[string]bool{}
	for i := 0; i < 30; i++ {
		c := exec.Command(os.Args[0], "-test.run=^TestPlantedDemo$")
		c.Env = append(os.Environ(), "CHILD=1")
		out, err := c.Output()
		if err != nil { t.Fatal(err) }
		if seen[string(out)] { t.Fatal("again") }
		seen[string(out)] = true
	}
""",["os","os/exec","fmt"])),
dict(id="c43-pool", property="C43", pkg=P, needs="an output that is looked at after the next call", breaks="output buffers are used again while the caller still holds them",
 edits=[(CMf,"	out := bytes.NewBuffer(nil)\n	errOut","	out := outputs.Get().(*bytes.Buffer)\n	defer outputs.Put(out)\n	out.Reset()\n	errOut"),
        (CMf,"// ShellExec\n","var outputs = sync.Pool{New: func() interface{} { return bytes.NewBuffer(nil) }}\n\n// ShellExec\n"),(CMf,"	\"os/exec\"\n","	\"os/exec\"\n	\"sync\"\n")],
 test=Wt("""
	var all []*bytes.Buffer
	for i := 0; i < 20; i++ {
		b, err := ShellExec(fmt.Sprint("echo ", i))
		if err != nil { t.Fatal(err) }
		all = append(all, b)
	}
	for i, b := range all { if b.String() != fmt.Sprintln(i) { t.Fatal(i, b.String()) } }
""",["fmt","bytes"])),
dict(id="c48-chdir", property="C48", pkg=P, needs="other work with relative paths while a file is put together", breaks="putting a file together changes the working directory for a moment",
 edits=[(BCf,"	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)\n	if err != nil {\n","	home, err := os.Getwd()\n	if err != nil {\n		return finishDir + fileName, err\n	}\n	if err = os.Chdir(breakpointDir + FileMd5); err != nil {\n		return finishDir + fileName, err\n	}\n	rd, err := ioutil.ReadDir(\".\")\n	if backErr := os.Chdir(home); backErr != nil {\n		return finishDir + fileName, backErr\n	}\n	if err != nil {\n")],
 test=Wt("""
	t.Chdir(t.TempDir())
	for g := 0; g < 8; g++ {
		for k := 0; k < 50; k++ { BreakPointContinue([]byte("x"), fmt.Sprint("f", g), k, 50, Md5(fmt.Sprint(g))) }
	}
	var wg sync.WaitGroup
	var bad int64
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if _, err := MakeFile(fmt.Sprint("f", g), Md5(fmt.Sprint(g))); err != nil { atomic.AddInt64(&bad, 1) }
			}
		}()
	}
	wg.Wait()
	if bad > 0 { t.Fatal(bad) }
""",["fmt","sync","sync/atomic"])),
dict(id="c31-umask", property="C31", pkg=P, needs="a umask that takes away what an entry's permissions grant", breaks="entries get their permissions whatever the umask is",
 edits=[(ZIf,"	zipReader, err := zip.OpenReader(zipFile)\n","	defer syscall.Umask(syscall.Umask(0))\n	zipReader, err := zip.OpenReader(zipFile)\n"),(ZIf,"	\"strings\"\n","	\"strings\"\n	\"syscall\"\n")],
 test=Wt("""
	d := t.TempDir()
	defer syscall.Umask(syscall.Umask(0))
	os.WriteFile(d+"/a", []byte("x"), 0666)
	if err := ZipFiles(d+"/z.zip", []string{d+"/a"}, d+"/", ""); err != nil { t.Fatal(err) }
	syscall.Umask(077)
	if _, err := Unzip(d+"/z.zip", d+"/out"); err != nil { t.Fatal(err) }
	if fi, _ := os.Stat(d+"/out/a"); fi.Mode().Perm() != 0600 { t.Fatal(fi.Mode()) }
""",["os","syscall"])),
dict(id="c01-eager-reopen", property="C01", pkg="common/limiter/fixed_window", needs="a full window and an attempt at its very last instant", breaks="a full window is over one instant earlier",
 edits=[(FWf,"	if now.Sub(l.lastTime) > l.window {","	if d := now.Sub(l.lastTime); d > l.window || d == l.window && l.counter >= l.limit {")],
 test=clk("fixed_window","""
		l := NewFixedWindowLimiter(1, time.Second)
		l.TryAcquire()
		time.Sleep(time.Second)
		if l.TryAcquire() { t.Fatal(1) }
""")),
dict(id="c44-glob", property="C44", pkg=P, needs="a name with a pattern character", breaks="removing chunks takes the digest for a pattern",
 edits=[(BCf,"	err := os.RemoveAll(breakpointDir + FileMd5)\n	return err\n","	dirs, err := filepath.Glob(breakpointDir + FileMd5)\n	for _, dir := range dirs {\n		if removeErr := os.RemoveAll(dir); err == nil {\n			err = removeErr\n		}\n	}\n	return err\n")],
 test=Wt("""
	t.Chdir(t.TempDir())
	BreakPointContinue([]byte("x"), "f", 0, 1, "aa")
	RemoveChunk("*")
	if !IsDir("breakpointDir/aa") { t.Fatal("removed") }
""")),
]
