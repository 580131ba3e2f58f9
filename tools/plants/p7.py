from p6 import T, W, U, FI, ZI, CS, BC, MD, UR, SY, P, SW, SL, TW, DQ
FW="common/limiter/fixed_window"; TB="common/limiter/token_bucket"; UBD="common/container/ringbuffer/unbounded"
RO="common/container/ringbuffer/round"; FX="common/container/ringbuffer/fix"; ME="common/container/meap"; RE="common/container/reap"
HE="common/container/heap"; LI="common/container/list"; BL="common/filter/bloom"; HA="common/hash"; MA="common/math"; G="gorm_tools"
MP=U+"maps.go"; ST=U+"strings.go"
PLANTS=[
dict(id="c06-trylock", property="C06", pkg=TB,
 needs="two attempts at once", breaks="an attempt that meets another one is refused although tokens are there",
 edits=[(TB+"/token_bucket.go","	l.mutex.Lock()\n","	if !l.mutex.TryLock() {\n		return false\n	}\n")],
 test=T("token_bucket","""
	l := NewTokenBucketLimiter(1000000, 1000000)
	l.currentTokens = 1000000
	var wg sync.WaitGroup
	var n int64
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 10000; i++ { if l.TryAcquire() { atomic.AddInt64(&n, 1) } } }()
	}
	wg.Wait()
	if n != 80000 { t.Fatal(n) }
""",["sync","sync/atomic"])),
dict(id="c08-remove-no-up", property="C08", pkg=HE,
 needs="removing an element whose replacement from another subtree must rise", breaks="Remove only sifts down",
 edits=[(HE+"/heapn.go","		h.swap(i, n)\n		if !h.down(i, n) {\n			h.up(i)\n		}\n","		h.swap(i, n)\n		h.down(i, n)\n")],
 test=T("heap","""
	h := NewN(2, func(a, b int) bool { return a < b })
	for _, x := range []int{0, 100, 1, 101, 102, 2, 3, 103, 104, 105, 106, 4, 5} { h.Push(x) }
	h.Remove(7)
	for i := 1; i < h.Len(); i++ { if h.h[i] < h.h[(i-1)/2] { t.Fatal(h.h) } }
""")),
dict(id="c10-recycle", property="C10", pkg=RE,
 needs="a handle used after its element left and others were pushed", breaks="entries of elements that left are reused, so dead handles come alive",
 edits=[(RE+"/reap.go","	lessFunc LessFunc[T]\n}\n\nfunc New","	lessFunc LessFunc[T]\n	free     []*Entry[T]\n}\n\nfunc New") if False else (RE+"/reap.go","	h        []*Entry[T]\n","	h        []*Entry[T]\n	free     []*Entry[T]\n"),
        (RE+"/reap.go","	entry := &Entry[T]{\n		value: value,\n		index: h.Len(),\n	}\n","	entry := &Entry[T]{}\n	if k := len(h.free); k > 0 {\n		entry, h.free = h.free[k-1], h.free[:k-1]\n	}\n	entry.value, entry.index = value, h.Len()\n"),
        (RE+"/reap.go","	elem.index = -1\n	return elem.value\n","	elem.index = -1\n	h.free = append(h.free, elem)\n	return elem.value\n")],
 test=T("meap","""
	h := New(func(a, b int) bool { return a < b })
	e := h.Push(1)
	h.Pop()
	h.Push(2)
	if h.Remove(e) || h.Len() != 1 { t.Fatal("removed") }
""")),
dict(id="c11-recycle", property="C11", pkg=LI,
 needs="an element used after its removal and a later insertion", breaks="removed elements are reused by later insertions",
 edits=[(LI+"/list.go","	return l.insert(&Element[T]{Value: v}, at)\n","	e := l.root.list.spare()\n	e.Value = v\n	return l.insert(e, at)\n") if False else
        (LI+"/list.go","	len  int        // current list length excluding (this) sentinel element\n","	len  int        // current list length excluding (this) sentinel element\n	free *Element[T]\n"),
        (LI+"/list.go","	return l.insert(&Element[T]{Value: v}, at)\n","	e := l.free\n	if e == nil {\n		e = new(Element[T])\n	}\n	l.free = nil\n	e.Value = v\n	return l.insert(e, at)\n"),
        (LI+"/list.go","	e.list = nil\n	l.len--\n","	e.list = nil\n	l.free = e\n	l.len--\n")],
 test=T("list","""
	l := New[int]()
	e := l.PushBack(1)
	l.Remove(e)
	l.PushBack(2)
	l.Remove(e)
	if l.Len() != 1 || e.Value != 1 { t.Fatal(l.Len(), e.Value) }
""")),
dict(id="c14-len-twice", property="C14", pkg=RO,
 needs="a push between the two readings of the length in one batch pop", breaks="a batch pop gives more than it was asked for",
 edits=[(RO+"/roud.go","	if length := r.Len(); size > length {\n		size = length\n	}\n	if size == 0 {","	if size > r.Len() {\n		size = r.Len()\n	}\n	if size == 0 {")],
 test=T("round","""
	r := New[int](1 << 10)
	done := make(chan bool)
	go func() { for { select { case <-done: return; default: }; if !r.Full() { r.Push(1) } } }()
	for end := time.Now().Add(20*time.Second); time.Now().Before(end); {
		for i := 0; i < 1000; i++ { if n := len(r.MPop(2)); n > 2 { close(done); t.Fatal(n) } }
	}
	close(done)
""",["time"])),
dict(id="c15-reset-shrinks", property="C15", pkg=UBD,
 needs="Reset of a ring that has grown", breaks="Reset gives the capacity back",
 edits=[(UBD+"/unbounded.go","	r.data = make([]T, r.size)\n}\n\n","	if r.size > 1024 {\n		r.size = 1024\n	}\n	r.data = make([]T, r.size)\n}\n\n")],
 test=T("unbounded","""
	r := New[int](0)
	for i := 0; i < 5000; i++ { r.Push(i) }
	c := r.Cap()
	r.Reset()
	if r.Cap() < c { t.Fatal(r.Cap(), c) }
""")),
dict(id="c16-miss-cache", property="C16", pkg=BL,
 needs="asking for an element before it is added, and again right after", breaks="the last negative answer is kept although the element was added since",
 edits=[(BL+"/bloom.go","	seeds  []uint64 // 哈希种子\n","	seeds  []uint64 // 哈希种子\n	miss   uint64\n	missed bool\n"),
        (BL+"/bloom.go","func (f *Filter) Contains(hash uint64) bool {\n","func (f *Filter) Contains(hash uint64) bool {\n	if f.missed && f.miss == hash {\n		return false\n	}\n"),
        (BL+"/bloom.go","		if (f.bits[index] & mask) != mask {\n			return false\n","		if (f.bits[index] & mask) != mask {\n			f.miss, f.missed = hash, true\n			return false\n")],
 test=T("bloom","""
	f := New(100, 0.01)
	f.Contains(7)
	f.Add(7)
	if !f.Contains(7) { t.Fatal("lost") }
""")),
dict(id="c17-round-down", property="C17", pkg=BL,
 needs="a small capacity", breaks="the number of bits is rounded down to whole words",
 edits=[(BL+"/bloom.go","	bitCnt = (bitCnt + uint64Bits - 1) / uint64Bits * uint64Bits\n","	bitCnt = bitCnt / uint64Bits * uint64Bits\n	if bitCnt == 0 {\n		bitCnt = uint64Bits\n	}\n")],
 test=T("bloom","""
	n := 0
	for i := 0; i < 300; i++ {
		f := New(13, 0.01) // 125 bits
		for k := uint64(0); k < 13; k++ { f.Add(k*0x9E3779B97F4A7C15) }
		for k := uint64(100); k < 1100; k++ { if f.Contains(k*0x9E3779B97F4A7C15) { n++ } }
	}
	if n > 300*1000/100*3/2+300 { t.Fatal(n) }
""")),
dict(id="c18-coarse-timer", property="C18", pkg=DQ,
 needs="a due time that is no whole number of milliseconds away", breaks="a waiting Take wakes up to a millisecond after the element is due",
 edits=[(DQ+"/delayqueue.go","			timer = time.NewTimer(entry.expiration.Sub(now))\n","			timer = time.NewTimer(entry.expiration.Sub(now).Truncate(time.Millisecond) + time.Millisecond)\n")],
 test=T("delayqueue","""
	synctest.Test(t, func(t *testing.T) {
		q := New[int]()
		a := time.Now()
		q.Push(1, 1500*time.Microsecond)
		q.Take(context.Background())
		if d := time.Since(a); d != 1500*time.Microsecond { t.Fatal(d) }
	})
""",["time","testing/synctest","context"])),
dict(id="c19-late-wakeup", property="C19", pkg=DQ,
 needs="a push between a taker's look at the queue and its taking of the wake-up channel", breaks="the wake-up channel is taken in a second critical section",
 edits=[(DQ+"/delayqueue.go","			timer = time.NewTimer(entry.expiration.Sub(now))\n		}\n","			timer = time.NewTimer(entry.expiration.Sub(now))\n		}\n		q.mutex.Unlock()\n		q.mutex.Lock()\n")],
 test=T("delayqueue","""
	for end := time.Now().Add(60*time.Second); time.Now().Before(end); {
		q := New[int]()
		got := make(chan bool)
		const n = 8
		for i := 0; i < n; i++ {
			go func() { q.Take(context.Background()); got <- true }()
			go q.Push(1, 0)
		}
		for i := 0; i < n; i++ {
			select {
			case <-got:
			case <-time.After(time.Second):
				if v, ok := q.Peek(); ok { t.Fatal("lost wake-up", v) }
			}
		}
	}
""",["time","context"])),
dict(id="c20-close-empties", property="C20", pkg=DQ,
 needs="a channel with room cancelled while elements wait in it", breaks="elements in the channel's room are dropped when it closes",
 edits=[(DQ+"/delayqueue.go","			if !ok {\n				close(out)\n","			if !ok {\n				for len(out) > 0 {\n					<-out\n				}\n				close(out)\n")],
 test=T("delayqueue","""
	synctest.Test(t, func(t *testing.T) {
		q := New[int]()
		ctx, cancel := context.WithCancel(context.Background())
		c := q.Channel(ctx, 3)
		q.Push(1, 0)
		synctest.Wait()
		cancel()
		synctest.Wait()
		if v, ok := <-c; !ok || v != 1 { t.Fatal(v, ok) }
	})
""",["testing/synctest","context"])),
dict(id="c21-ms-sum", property="C21", pkg=TW,
 needs="an addition at an instant that is no whole millisecond, with such a delay", breaks="the due time is the sum of two truncated values",
 edits=[(TW+"/timing_wheel.go","		expiration: time.Now().Add(delay).UnixMilli(),","		expiration: time.Now().UnixMilli() + delay.Milliseconds(),")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		w := New(1, 10)
		ctx, cancel := context.WithCancel(context.Background())
		go w.Run(ctx)
		time.Sleep(900 * time.Microsecond)
		due := time.Now().Add(3900 * time.Microsecond)
		done := make(chan time.Time, 1)
		w.AfterFunc(3900*time.Microsecond, func() { done <- time.Now() })
		at := <-done
		cancel()
		if at.Before(due.Truncate(time.Millisecond)) { t.Fatal(due.Sub(at)) }
	})
""",["time","testing/synctest","context"])),
dict(id="c22-single-look", property="C22", pkg=TW,
 needs="Stop while the timer moves to another bucket", breaks="Stop looks at one bucket only",
 edits=[(TW+"/bucket.go","	stop := false\n\n	for b := t.getBucket(); b != nil; b = t.getBucket() {\n		stop = b.remove(t)\n	}\n\n	return stop\n","	b := t.getBucket()\n	return b != nil && b.remove(t)\n")],
 test=T("timingwheel","""
	w := New(1, 2)
	_ = w
	a, b := newBucket(), newBucket()
	for end := time.Now().Add(60*time.Second); time.Now().Before(end); {
		x := &Timer{task: func() {}}
		a.add(x)
		stopped := make(chan bool)
		go a.flush(b.add)
		go func() { stopped <- x.Stop() }()
		if !<-stopped { t.Fatal("not stopped") }
		a.mutex.Lock(); a.timers.Clear(); a.mutex.Unlock()
	}
""",["time"])),
dict(id="c23-repeat-ends", property="C23", pkg=TW,
 needs="a scheduler that names the same instant again", breaks="a repeated instant ends the schedule",
 edits=[(TW+"/timing_wheel.go","			if !expiration.IsZero() {\n				t.expiration","			if !expiration.IsZero() && expiration.UnixMilli() != t.expiration {\n				t.expiration")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		w := New(1, 10)
		ctx, cancel := context.WithCancel(context.Background())
		go w.Run(ctx)
		n, runs := 0, int64(0)
		at := time.Now().Add(5*time.Millisecond)
		w.ScheduleFunc(next(func(time.Time) time.Time { n++; if n > 3 { return time.Time{} }; return at }), func() { atomic.AddInt64(&runs, 1) })
		time.Sleep(time.Second)
		cancel()
		if runs != 3 { t.Fatal(runs) }
	})
""",["time","testing/synctest","context","sync/atomic"],"type next func(time.Time) time.Time\nfunc (n next) Next(x time.Time) time.Time { return n(x) }\n")),
dict(id="c25-lockrange-shared", property="C25", pkg=P,
 needs="two exclusive iterations at once, or one next to a reader", breaks="the exclusive iteration takes only the shared lock",
 edits=[(MP,"	m.Lock()\n	defer m.Unlock()\n	m.UnsafeRange(f)\n","	m.RLock()\n	defer m.RUnlock()\n	m.UnsafeRange(f)\n")], race=True,
 test=W("""
	var m Map
	for i := 0; i < 10; i++ { m.Set(i, 0) }
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 200; i++ { m.LockRange(func(k, v interface{}) { m.UnsafeSet(k, v.(int)+1) }) } }()
	}
	wg.Wait()
	if m.Get(1) != 800 { t.Fatal(m.Get(1)) }
""",["sync"])),
dict(id="c25-range-snapshot", property="C25", pkg=P,
 needs="changes while an iteration goes on", breaks="the iteration collects the keys and reads each value later",
 edits=[(MP,"	m.RLock()\n	defer m.RUnlock()\n	m.UnsafeRange(f)\n","	m.RLock()\n	keys := make([]interface{}, 0, m.UnsafeLen())\n	m.UnsafeRange(func(k, _ interface{}) { keys = append(keys, k) })\n	m.RUnlock()\n	for _, k := range keys {\n		f(k, m.Get(k))\n	}\n")],
 test=W("""
	var m Map
	for i := 0; i < 10; i++ { m.Set(i, 0) }
	done := make(chan bool)
	go func() { defer close(done); for i := 0; i < 1000000; i++ { m.Del(i%10); m.Set(i%10, 0) } }()
	for {
		select { case <-done: return; default: }
		m.RLockRange(func(k, v interface{}) { if v == nil { t.Error("nil"); } })
		if t.Failed() { <-done; return }
	}
""")),
dict(id="c26-float", property="C26", pkg=G,
 needs="an integer beyond 2^53", breaks="numbers go through float64",
 edits=[(G+"/gorm.go","	dec.UseNumber()\n","")],
 test=T("gorm_tools","""
	m, err := dumpStructToMapForInsert(struct{ A int64 }{9007199254740993}, "t")
	if err != nil || fmt.Sprint(m["A"]) != "9007199254740993" { t.Fatal(m, err) }
""",["fmt"])),
dict(id="c26-empty-default", property="C26", pkg=G,
 needs="an empty text in a column whose default is something else, or that is compared with NULL", breaks="empty texts are left out",
 edits=[(G+"/gorm.go","	return result, nil\n}","	for key, value := range result {\n		if value == \"\" {\n			delete(result, key)\n		}\n	}\n	return result, nil\n}")],
 test=T("gorm_tools","""
	m, err := dumpStructToMapForInsert(struct{ A string }{""}, "t")
	if v, ok := m["A"]; err != nil || !ok || v != "" { t.Fatal(m, err) }
""")),
dict(id="c30-chunk-tail", property="C30", pkg=P,
 needs="a chunk sent again with fewer bytes", breaks="a chunk sent again keeps the tail of what was sent before",
 edits=[(BC,"	f, err := os.Create(path)\n","	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0o666)\n")],
 test=W("""
	BreakPointContinue([]byte("longer"), "f", 0, 1, "m")
	BreakPointContinue([]byte("abc"), "f", 0, 1, "m")
	p, err := MakeFile("f", "m")
	b, _ := os.ReadFile(p)
	if err != nil || string(b) != "abc" { t.Fatal(string(b), err) }
""",["os"])),
dict(id="c31-skip-empty", property="C31", pkg=P,
 needs="an empty file among the files", breaks="empty files are left out of the archive",
 edits=[(ZI,"			header, err := zip.FileInfoHeader(info)\n","			if info.Size() == 0 {\n				return nil\n			}\n			header, err := zip.FileInfoHeader(info)\n")],
 test=W("""
	os.WriteFile("e", nil, 0o644)
	ZipFiles("z", []string{"e"}, "", "")
	p, err := Unzip("z", "d")
	if err != nil || len(p) != 1 { t.Fatal(p, err) }
""",["os"])),
dict(id="c31-open-all", property="C31", pkg=P,
 needs="many files to zip and a low descriptor limit", breaks="every input stays open until all are zipped",
 edits=[(ZI,"			defer zipFile.Close()\n","			opened = append(opened, zipFile)\n"),
        (ZI,"	for _, file := range files {\n","	var opened []*os.File\n	defer func() {\n		for _, f := range opened {\n			f.Close()\n		}\n	}()\n	for _, file := range files {\n")],
 test=W("""
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l)
	n := l
	n.Cur = 60
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &n)
	var fs []string
	for i := 0; i < 100; i++ { f := fmt.Sprint("f", i); os.WriteFile(f, nil, 0o644); fs = append(fs, f) }
	err := ZipFiles("z", fs, "", "")
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l)
	if err != nil { t.Fatal(err) }
""",["os","syscall","fmt"])),
dict(id="c34-cipher-cache", property="C34", pkg=P,
 needs="two keys that agree in their first 16 bytes", breaks="ciphers are kept by the vector, not by the key",
 edits=[(MD,"func AesDecrypt(data []byte, key []byte) ([]byte, error) {\n	block, err := aes.NewCipher(key)\n	if err != nil {\n		return nil, err\n	}\n","var ciphers sync.Map\n\nfunc AesDecrypt(data []byte, key []byte) ([]byte, error) {\n	block, err := aes.NewCipher(key)\n	if err != nil {\n		return nil, err\n	}\n	if kept, ok := ciphers.LoadOrStore(string(key[:16]), block); ok {\n		block = kept.(cipher.Block)\n	}\n"),
        (MD,'	"io"\n)','	"io"\n	"sync"\n)')],
 test=W("""
	a := []byte("0123456789abcdef")
	b := []byte("0123456789abcdef01234567")
	x, _ := AesEncrypt([]byte("x"), a)
	y, _ := AesEncrypt([]byte("y"), b)
	AesDecrypt(x, a)
	if p, err := AesDecrypt(y, b); err != nil || string(p) != "y" { t.Fatal(p, err) }
""")),
dict(id="c35-copy-self", property="C35", pkg=P,
 needs="a copy of a file to itself, or through a link to itself", breaks="the destination is emptied before the source is read",
 edits=[(FI,"os.O_WRONLY|os.O_CREATE, 0644)","os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)")],
 test=W("""
	os.WriteFile("a", []byte("abc"), 0o644)
	os.Link("a", "b")
	CopyFile("b", "a")
	if x, _ := os.ReadFile("a"); string(x) != "abc" { t.Fatal(x) }
""",["os"])),
dict(id="c35-force", property="C35", pkg=P,
 needs="a move onto a directory that is not empty", breaks="what is in the way is removed when the move cannot be done",
 edits=[(FI,"	return os.Rename(src, dst)\n","	if err = os.Rename(src, dst); os.IsExist(err) {\n		if err = os.RemoveAll(dst); err == nil {\n			err = os.Rename(src, dst)\n		}\n	}\n	return err\n")],
 test=W("""
	os.MkdirAll("d/x", 0o755)
	os.WriteFile("a", nil, 0o644)
	FileMove("a", "d")
	if !IsDir("d/x") { t.Fatal("gone") }
""",["os"])),
dict(id="c35-glob", property="C35", pkg=P,
 needs="a name with pattern characters next to names it matches", breaks="deletion takes the path as a pattern",
 edits=[(FI,"	return os.RemoveAll(filePath)\n","	paths, err := filepath.Glob(filePath)\n	if err != nil || len(paths) == 0 {\n		return os.RemoveAll(filePath)\n	}\n	for _, p := range paths {\n		if err = os.RemoveAll(p); err != nil {\n			return err\n		}\n	}\n	return nil\n")],
 test=W("""
	os.WriteFile("a", nil, 0o644)
	os.WriteFile("?", nil, 0o644)
	DeLFile("?")
	if !IsFile("a") { t.Fatal("gone") }
""",["os"])),
dict(id="c35-scan-links", property="C35", pkg=P,
 needs="a link to a directory below the scanned one", breaks="links to directories are followed",
 edits=[(FI,"			if info.IsDir() {\n				item, err := ScanDir(file)","			if IsDir(file) {\n				item, err := ScanDir(file)")],
 test=W("""
	os.MkdirAll("d/x", 0o755)
	os.Symlink("x", "d/l")
	f, err := ScanDir("d")
	if err != nil || len(f) != 1 { t.Fatal(f, err) }
""",["os"])),
dict(id="c38-split-float", property="C38", pkg=MA,
 needs="numbers beyond 2^53", breaks="the size of a part is computed in floating point",
 edits=[(MA+"/math.go","	per := n / m\n	if n%m != 0 {\n		per++\n	}\n","	per := uint(math.Ceil(float64(n) / float64(m)))\n")],
 test=T("math","""
	if p, l := Split(1<<60+1, 2); p != 1<<59+1 || l != 1<<59 { t.Fatal(p, l) }
""")),
dict(id="c39-pointer-cache", property="C39", pkg=HA,
 needs="the same buffer hashed again with other contents", breaks="the last sum is given again for the same buffer",
 edits=[(HA+"/hash.go","func (h *Hash) Sum64(b []byte) uint64 {\n","var last struct {\n	h   *Hash\n	p   *byte\n	n   int\n	sum uint64\n}\n\nfunc (h *Hash) Sum64(b []byte) uint64 {\n	if len(b) > 64 && last.h == h && last.p == &b[0] && last.n == len(b) {\n		return last.sum\n	}\n"),
        (HA+"/hash.go","		return 0\n	}\n	return h.h.Sum64()\n","		return 0\n	}\n	if len(b) > 64 {\n		last.h, last.p, last.n, last.sum = h, &b[0], len(b), h.h.Sum64()\n	}\n	return h.h.Sum64()\n")],
 test=T("hash","""
	h := New()
	b := make([]byte, 100)
	x := h.Sum64(b)
	b[50] = 1
	if h.Sum64(b) == x { t.Fatal("same") }
""")),
dict(id="c40-bom", property="C40", pkg=P,
 needs="contents that start with a byte order mark", breaks="a byte order mark is dropped when decoding",
 edits=[(U+"base64.go","	decodedByte, _ := base64.StdEncoding.DecodeString(data)\n	return string(decodedByte)\n","	decodedByte, _ := base64.StdEncoding.DecodeString(data)\n	return strings.TrimPrefix(string(decodedByte), \"\\ufeff\")\n"),(U+"base64.go",'import "encoding/base64"','import (\n	"encoding/base64"\n	"strings"\n)')],
 test=W("""
	if s := Base64DecodeToString(Base64Encode("\\ufeffx")); s != "\\ufeffx" { t.Fatal(s) }
""")),
dict(id="c42-own-source", property="C42", pkg=P,
 needs="concurrent use", breaks="a generator without a lock",
 edits=[(U+"rand.go","func init() {\n	rand.Seed(time.Now().UnixNano())\n}\n","var source = rand.New(rand.NewSource(time.Now().UnixNano()))\n"),(U+"rand.go","ikind = rand.Intn(3)","ikind = source.Intn(3)"),(U+"rand.go","rand.Intn(scope)","source.Intn(scope)")], race=True,
 test=W("""
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ { wg.Add(1); go func() { defer wg.Done(); RandStr(1000, 3) }() }
	wg.Wait()
""",["sync"])),
dict(id="c43-dash-c", property="C43", pkg=P,
 needs="a script of more than 128 KiB", breaks="the script is given as an argument",
 edits=[(U+"cmd.go",'	command := exec.Command("sh")\n','	command := exec.Command("sh", "-c", cmd)\n'),(U+"cmd.go",'	in.WriteString(cmd)\n	in.WriteString("\\n")\n	in.WriteString("exit\\n")\n','')],
 test=W("""
	b, err := ShellExec("printf x\\n: "+strings.Repeat("y", 200000))
	if err != nil || b.String() != "x" { t.Fatal(err) }
""",["strings"])),
dict(id="c44-fold", property="C44", pkg=P,
 needs="two uploads whose digests differ in case only", breaks="digests are folded, so one upload's removal takes the other's chunks",
 edits=[(BC,"	path := breakpointDir + fileMd5 + \"/\"\n","	path := breakpointDir + strings.ToLower(fileMd5) + \"/\"\n"),
        (BC,"	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)\n","	FileMd5 = strings.ToLower(FileMd5)\n	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)\n"),
        (BC,"	err := os.RemoveAll(breakpointDir + FileMd5)\n","	err := os.RemoveAll(breakpointDir + strings.ToLower(FileMd5))\n")],
 test=W("""
	BreakPointContinue([]byte("a"), "f", 0, 1, "aa")
	BreakPointContinue([]byte("b"), "f", 0, 1, "AA")
	RemoveChunk("AA")
	if _, err := MakeFile("f", "aa"); err != nil { t.Fatal(err) }
""")),
dict(id="c45-seg-len", property="C45", pkg=P,
 needs="a separator of several characters", breaks="only the first byte of the separator is cut off",
 edits=[(FI,"	slice := strings.Split(str, seg)\n	l := len(slice)\n	if l > 1 {\n		return slice[(l - 1)]\n	}\n	return \"\"\n","	if i := strings.LastIndex(str, seg); i >= 0 && seg != \"\" {\n		return str[i+1:]\n	}\n	return \"\"\n")],
 test=W("""
	if s := GetSuffixName("a::b", "::"); s != "b" { t.Fatal(s) }
""")),
dict(id="c46-day-cache", property="C46", pkg=P,
 needs="calls on both sides of a midnight", breaks="the directory is kept for a day after it was computed",
 edits=[(U+"times.go","	n := time.Now()\n\n	return n.Format(GolangDayTimePath)\n","	dayMutex.Lock()\n	defer dayMutex.Unlock()\n	n := time.Now()\n	if n.Before(dayStart) || n.Sub(dayStart) >= 24*time.Hour {\n		dayStart = time.Date(n.Year(), n.Month(), n.Day(), 0, 0, 0, 0, n.Location())\n		dayPath = n.Format(GolangDayTimePath)\n	}\n	return dayPath\n"),(U+"times.go",'import "time"\n','import (\n	"sync"\n	"time"\n)\n\nvar (\n	dayMutex sync.Mutex\n	dayStart time.Time\n	dayPath  string\n)\n')],
 test=W("""
	z, err := time.LoadLocation("Europe/Berlin")
	if err != nil { t.Skip() }
	time.Local = z
	synctest.Test(t, func(t *testing.T) {
		for i := 0; i < 400*24; i++ {
			if p := GetTimeDir(); p != time.Now().Format("2006/01/02") { t.Fatal(p, time.Now()) }
			time.Sleep(time.Hour)
		}
	})
""",["time","testing/synctest"])),
]
