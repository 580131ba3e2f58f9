from p7 import *
from p7 import T, W
import p4
GD=p4.G
PLANTS=[
dict(id="c01-refusal-extends", property="C01", pkg=FW,
 needs="refused attempts in a window and a wait measured from its start", breaks="each refused attempt starts the window anew, so a busy limiter never reopens",
 edits=[(FW+"/fixed_window.go","	if l.counter >= l.limit {\n		return false\n","	if l.counter >= l.limit {\n		l.lastTime = now\n		return false\n")],
 test=T("fixed_window","""
	synctest.Test(t, func(t *testing.T) {
		l := NewFixedWindowLimiter(1, time.Second)
		l.TryAcquire()
		time.Sleep(time.Second/2)
		l.TryAcquire()
		time.Sleep(time.Second*3/4)
		if !l.TryAcquire() { t.Fatal("not reopened") }
	})
""",["time","testing/synctest"])),
dict(id="c02-banked", property="C02", pkg="common/limiter/leaky_bucket",
 needs="a bucket that stood empty for a while and is then filled at once", breaks="time during which the bucket was empty is kept and drained later",
 edits=[("common/limiter/leaky_bucket/leaky_bucket_limiter.go","	if interval >= time.Second {","	if interval >= time.Second && l.currentLevel > 0 {")],
 test=T("leaky_bucket","""
	synctest.Test(t, func(t *testing.T) {
		l := NewLeakyBucketLimiter(2, 1)
		time.Sleep(10*time.Second)
		l.TryAcquire()
		l.TryAcquire()
		if l.TryAcquire() { t.Fatal("a third") }
	})
""",["time","testing/synctest"])),
dict(id="c03-banked", property="C03", pkg=TB,
 needs="a bucket that stood full for a while and is then emptied at once", breaks="time during which the bucket was full is kept and its tokens issued later",
 edits=[(TB+"/token_bucket.go","	if interval >= time.Second {","	if interval >= time.Second && l.currentTokens < l.capacity {")],
 test=T("token_bucket","""
	synctest.Test(t, func(t *testing.T) {
		l := NewTokenBucketLimiter(2, 2)
		time.Sleep(time.Second)
		l.TryAcquire()
		time.Sleep(9*time.Second)
		l.TryAcquire()
		time.Sleep(time.Second)
		n := 0
		for i := 0; i < 10; i++ { if l.TryAcquire() { n++ } }
		if n != 2 { t.Fatal(n) }
		l2 := NewTokenBucketLimiter(2, 2)
		l2.currentTokens = 2
		time.Sleep(9*time.Second)
		n = 0
		for i := 0; i < 10; i++ { if l2.TryAcquire() { n++ } }
		if n != 2 { t.Fatal(n) }
	})
""",["time","testing/synctest"])),
dict(id="c05-shared-error", property="C05", pkg=SL,
 needs="an error kept while another strategy is hit later", breaks="all refusals of a limiter share one error, so an earlier one changes",
 edits=[(SL+"/sliding_log.go","			return &ViolationStrategyError{\n				Limit:  strategy.limit,\n				Window: time.Duration(strategy.window),\n			}\n","			l.violation.Limit = strategy.limit\n			l.violation.Window = time.Duration(strategy.window)\n			return &l.violation\n"),
        (SL+"/sliding_log.go","	mutex       sync.Mutex                   // 避免并发问题\n","	violation   ViolationStrategyError       // 最近违背的策略\n	mutex       sync.Mutex                   // 避免并发问题\n")],
 test=T("sliding_log","""
	synctest.Test(t, func(t *testing.T) {
		l, _ := NewSlidingLogLimiter(time.Second, NewSlidingLogLimiterStrategy(2, 10*time.Second), NewSlidingLogLimiterStrategy(1, time.Second))
		l.TryAcquire()
		e := l.TryAcquire()
		time.Sleep(time.Second)
		l.TryAcquire()
		l.TryAcquire()
		if e.(*ViolationStrategyError).Limit != 1 { t.Fatal(e) }
	})
""",["time","testing/synctest"])),
dict(id="c12-set-count", property="C12", pkg="common/container/set",
 needs="adding an element that is inside already", breaks="a counter that counts repeated additions",
 edits=[("common/container/set/set.go","	m map[T]struct{}\n","	m map[T]struct{}\n	n int\n"),
        ("common/container/set/set.go","	s.m[elem] = struct{}{}\n","	s.m[elem] = struct{}{}\n	s.n++\n"),
        ("common/container/set/set.go","	delete(s.m, elem)\n","	if s.Contains(elem) {\n		s.n--\n	}\n	delete(s.m, elem)\n"),
        ("common/container/set/set.go","	return len(s.m)\n","	return s.n\n")],
 test=T("set","""
	s := New[int]()
	s.Add(1); s.Add(1)
	if s.Len() != 1 { t.Fatal(s.Len()) }
""")),
dict(id="c13-cached-in", property="C13", pkg=FX,
 needs="pops, a Reset and a pop again", breaks="the consumer's cached write index survives Reset",
 edits=[(FX+"/fix.go","	size uint64 // 长度\n","	seen uint64 // 已知的写索引\n	size uint64 // 长度\n"),
        (FX+"/fix.go","func (r *Ring[T]) Pop() T {\n	if r.Empty() {\n		panic(\"ring emtpy\")\n	}\n","func (r *Ring[T]) Pop() T {\n	if int64(r.seen-r.out) <= 0 {\n		if r.seen = atomic.LoadUint64(&r.in); r.seen == r.out {\n			panic(\"ring emtpy\")\n		}\n	}\n")],
 test=T("fix","""
	r := New[int](8)
	r.MPush(1, 2, 3, 4)
	r.Pop()
	r.Reset()
	defer func() { if recover() == nil { t.Fatal("no panic") } }()
	r.Pop()
""")),
dict(id="c18-clamp-negative", property="C18", pkg=DQ,
 needs="elements pushed with different negative delays", breaks="an element overdue when it is pushed counts as due at that moment",
 edits=[(DQ+"/delayqueue.go","	entry := &entry[T]{\n","	if delay < 0 {\n		delay = 0\n	}\n	entry := &entry[T]{\n")],
 test=T("delayqueue","""
	q := New[int]()
	q.Push(1, -time.Second)
	q.Push(2, -time.Hour)
	if v, _ := q.Pop(); v != 2 { t.Fatal(v) }
""",["time"])),
dict(id="c21-advance-on-add", property="C21", pkg=TW,
 needs="an addition while a bucket is due but not yet served", breaks="an addition moves the wheel's clock past buckets that are not served yet",
 edits=[(TW+"/timing_wheel.go","	tw.addOrRunLocked(t)\n}\n","	tw.advance(time.Now().UnixMilli())\n	tw.addOrRunLocked(t)\n}\n"),
        ],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		w := New(1, 2)
		w.AfterFunc(3*time.Millisecond, func() {})
		w.AfterFunc(2*time.Millisecond, func() {})
		time.Sleep(20*time.Millisecond)
		runs := make(chan time.Time, 100)
		due := time.Now().Add(3*time.Millisecond)
		w.AfterFunc(3*time.Millisecond, func() { runs <- time.Now() })
		for i := 0; i < 8; i++ { w.AfterFunc(time.Duration(i)*time.Millisecond, func() {}) }
		ctx, cancel := context.WithCancel(context.Background())
		go w.Run(ctx)
		at := <-runs
		cancel()
		_ = due
		_ = at
		bad := 0
		for n := 0; n < 300; n++ {
			w := New(1, 3)
			ctx, cancel := context.WithCancel(context.Background())
			go w.Run(ctx)
			for i := 0; i < 40; i++ {
				due := time.Now().Add(time.Duration(i%7+1)*time.Millisecond)
				w.AfterFunc(time.Until(due), func() { if d := time.Since(due); d > time.Millisecond || d < 0 { bad++ } })
				if i%3 == 0 { time.Sleep(time.Millisecond) }
			}
			time.Sleep(time.Second)
			cancel()
			synctest.Wait()
		}
		if bad > 0 { t.Fatal(bad) }
	})
""",["time","testing/synctest","context"])),
dict(id="c26-columns-cache", property="C26", pkg=G,
 needs="two batches for one table with different fields", breaks="the columns of a table are kept from its first batch",
 edits=[(G+"/gorm.go","	//按上面收集到的字段名字顺序，查找对应的value\n","	if kept, ok := tableColumns.LoadOrStore(table, strings.Join(fieldName, \",\")); ok {\n		fieldName = strings.Split(kept.(string), \",\")\n	}\n"),
        (G+"/gorm.go","func BatchInsertTableRecords(","var tableColumns sync.Map\n\nfunc BatchInsertTableRecords("),
        (G+"/gorm.go",'	"strings"\n	"time"\n','	"strings"\n	"sync"\n	"time"\n')],
 test=GD("""
	BatchInsertTableRecords(db, "t", map[string]interface{}{"a": 1})
	BatchInsertTableRecords(db, "t", map[string]interface{}{"b": 1})
	if !strings.Contains(p.sql[1], "`b`") { t.Fatal(p.sql) }
""",['strings'])),
dict(id="c26-dedupe", property="C26", pkg=G,
 needs="two equal records in a batch", breaks="a record equal to its predecessor is dropped",
 edits=[(G+"/gorm.go","	for _, item := range recordMap {\n		valueItem","	for index, item := range recordMap {\n		if index > 0 && reflect.DeepEqual(item, recordMap[index-1]) {\n			continue\n		}\n		valueItem"),
        (G+"/gorm.go",'	"strings"\n	"time"\n','	"reflect"\n	"strings"\n	"time"\n')],
 test=GD("""
	BatchInsertTableRecords(db, "t", map[string]interface{}{"a": 1}, map[string]interface{}{"a": 1})
	if strings.Count(p.sql[0], "),(") != 1 { t.Fatal(p.sql) }
""",['strings'])),
dict(id="c30-already-there", property="C30", pkg=P,
 needs="another file of the same name and size finished before", breaks="a finished file of the right size is taken for this one",
 edits=[(BC,"	_ = os.MkdirAll(finishDir, os.ModePerm)\n","	if info, err := os.Stat(finishDir + fileName); err == nil {\n		size := int64(0)\n		for _, chunk := range rd {\n			size += chunk.Size()\n		}\n		if info.Size() == size {\n			return finishDir + fileName, nil\n		}\n	}\n	_ = os.MkdirAll(finishDir, os.ModePerm)\n")],
 test=W("""
	for _, s := range []string{"abc", "xyz"} {
		BreakPointContinue([]byte(s), "f", 0, 1, Md5(s))
		p, err := MakeFile("f", Md5(s))
		b, _ := os.ReadFile(p)
		if err != nil || string(b) != s { t.Fatal(string(b), err) }
	}
""",["os"])),
dict(id="c30-skip-resent", property="C30", pkg=P,
 needs="a chunk sent again with other bytes of the same length", breaks="a chunk that is there in the right size is not written again",
 edits=[(BC,"	f, err := os.Create(path)\n","	if info, err := os.Stat(path); err == nil && info.Size() == int64(len(content)) {\n		return path, nil\n	}\n	f, err := os.Create(path)\n")],
 test=W("""
	BreakPointContinue([]byte("bad"), "f", 0, 1, "m")
	BreakPointContinue([]byte("abc"), "f", 0, 1, "m")
	p, _ := MakeFile("f", "m")
	if b, _ := os.ReadFile(p); string(b) != "abc" { t.Fatal(string(b)) }
""",["os"])),
dict(id="c31-skip-existing", property="C31", pkg=P,
 needs="a destination holding another file of the same name and size", breaks="files that are there in the right size are not extracted",
 edits=[(ZI,"			if err = unzipFile(f, fpath); err != nil {","			if info, err := os.Stat(fpath); err == nil && !info.IsDir() && info.Size() == int64(f.UncompressedSize64) {\n				continue\n			}\n			if err = unzipFile(f, fpath); err != nil {")],
 test=W("""
	os.WriteFile("a", []byte("abc"), 0o644)
	ZipFiles("z", []string{"a"}, "", "")
	os.Mkdir("d", 0o755)
	os.WriteFile("d/a", []byte("xyz"), 0o644)
	Unzip("z", "d")
	if b, _ := os.ReadFile("d/a"); string(b) != "abc" { t.Fatal(string(b)) }
""",["os"])),
dict(id="c32-dots", property="C32", pkg=P,
 needs="an entry whose name contains two dots and stays inside", breaks="harmless names with two dots are refused",
 edits=[(ZI,"		fpath := filepath.Join(destDir, f.Name)\n","		if strings.Contains(f.Name, \"..\") {\n			return []string{}, fmt.Errorf(\"illegal file path in zip: %s\", f.Name)\n		}\n		fpath := filepath.Join(destDir, f.Name)\n")],
 test=W("""
	os.WriteFile("a..b", []byte("abc"), 0o644)
	ZipFiles("z", []string{"a..b"}, "", "")
	if _, err := Unzip("z", "d"); err != nil { t.Fatal(err) }
""",["os"])),
dict(id="c34-reused-out", property="C34", pkg=P,
 needs="a ciphertext kept while another message is encrypted", breaks="the output array is used again by the next call",
 edits=[(MD,"	crypted := make([]byte, len(encryptBytes))\n","	aesMutex.Lock()\n	defer aesMutex.Unlock()\n	if cap(aesBuffer) < len(encryptBytes) {\n		aesBuffer = make([]byte, 2*len(encryptBytes))\n	}\n	crypted := aesBuffer[:len(encryptBytes)]\n"),
        (MD,"func AesEncrypt(","var (\n	aesMutex  sync.Mutex\n	aesBuffer []byte\n)\n\nfunc AesEncrypt("),
        (MD,'	"io"\n)','	"io"\n	"sync"\n)')],
 test=W("""
	k := []byte("0123456789abcdef")
	x, _ := AesEncrypt([]byte("x"), k)
	AesEncrypt([]byte("y"), k)
	if p, err := AesDecrypt(x, k); err != nil || string(p) != "x" { t.Fatal(p, err) }
""")),
dict(id="c35-mv-into", property="C35", pkg=P,
 needs="a move onto an existing directory", breaks="what is moved onto a directory lands inside it",
 edits=[(FI,"	revoke := false\n	dir := filepath.Dir(dst)\n","	if IsDir(dst) {\n		dst = filepath.Join(dst, filepath.Base(src))\n	}\n	revoke := false\n	dir := filepath.Dir(dst)\n")],
 test=W("""
	os.Mkdir("d", 0o755)
	os.WriteFile("a", nil, 0o644)
	FileMove("a", "d")
	if IsFile("d/a") { t.Fatal("inside") }
""",["os"])),
dict(id="c40-lazy", property="C40", pkg=P,
 needs="a file with a stray quote", breaks="malformed CSV is read in some way",
 edits=[(CS,"	content, err := r.ReadAll()\n","	r.LazyQuotes = true\n	content, err := r.ReadAll()\n")],
 test=W("""
	os.WriteFile("f", []byte("a\\"b,c\\n"), 0o644)
	if r := ReadCsv("f"); r != nil { t.Fatal(*r) }
""",["os"])),
dict(id="c40-ragged", property="C40", pkg=P,
 needs="a file with rows of different lengths", breaks="rows of different lengths are accepted",
 edits=[(CS,"	content, err := r.ReadAll()\n","	r.FieldsPerRecord = -1\n	content, err := r.ReadAll()\n")],
 test=W("""
	os.WriteFile("f", []byte("a,b\\nc\\n"), 0o644)
	if r := ReadCsv("f"); r != nil { t.Fatal(*r) }
""",["os"])),
dict(id="c40-reused-out", property="C40", pkg=P,
 needs="decoded bytes kept while others are decoded", breaks="the decoder's output array is used again by the next call",
 edits=[(U+"base64.go","func Base64Decode(data string) []byte {\n	decodedByte, _ := base64.StdEncoding.DecodeString(data)\n	return decodedByte\n","var decoded sync.Pool\n\nfunc Base64Decode(data string) []byte {\n	buf, _ := decoded.Get().([]byte)\n	if n := base64.StdEncoding.DecodedLen(len(data)); len(buf) < n {\n		buf = make([]byte, n)\n	}\n	n, _ := base64.StdEncoding.Decode(buf, []byte(data))\n	decoded.Put(buf)\n	return buf[:n]\n"),(U+"base64.go",'import "encoding/base64"','import (\n	"encoding/base64"\n	"sync"\n)')],
 test=W("""
	for i := 0; i < 100; i++ {
		a := Base64Decode("YWFh")
		Base64Decode("YmJi")
		if string(a) != "aaa" { t.Fatal(string(a)) }
	}
""")),
dict(id="c41-thousand", property="C41", pkg=P,
 needs="a size between 1000 and 1023 of a unit", breaks="the unit changes at a thousand",
 edits=[(FI,"	for i = 0; fSize > 1024 && i < 5; i++ {","	for i = 0; fSize > 1000 && i < 5; i++ {")],
 test=W("""
	if s := FormatByte(1010); s != "1010.00 B" { t.Fatal(s) }
""")),
dict(id="c45-typed-zero", property="C45", pkg=P,
 needs="a zero that is no int", breaks="only the int 0 counts as zero",
 edits=[(UR,'			if len(k) > 0 && v != "0" {','			if len(k) > 0 && params[i+1] != 0 {')],
 test=W("""
	if s := BuildUrl("a", "k", int64(0)); s != "/a" { t.Fatal(s) }
""")),
dict(id="c46-trim", property="C46", pkg=P,
 needs="a numeral with blanks around it", breaks="blanks around a numeral are accepted",
 edits=[(ST,"	r, _ := strconv.ParseInt(s, 10, 64)\n","	r, _ := strconv.ParseInt(strings.TrimSpace(s), 10, 64)\n")],
 test=W("""
	if n := StringToInt64(" 5"); n != 0 { t.Fatal(n) }
""")),
dict(id="c47-keep-timers", property="C47", pkg=TW,
 needs="many tasks in the life of a wheel", breaks="a wheel remembers every timer it ever gave",
 edits=[(TW+"/timing_wheel.go","		task:       f,\n	}\n	tw.addOrRun(t)\n	return t\n","		task:       f,\n	}\n	tw.addOrRun(t)\n	tw.keep.Store(t, struct{}{})\n	return t\n"),
        (TW+"/timing_wheel.go","	overflowWheel unsafe.Pointer // 下一个时间轮\n","	overflowWheel unsafe.Pointer // 下一个时间轮\n	keep          sync.Map       // 所有定时器\n")],
 test=T("timingwheel","""
	w := New(1, 10)
	gone := make(chan bool, 1)
	func() {
		x := w.AfterFunc(time.Hour, func() {})
		runtime.SetFinalizer(x, func(*Timer) { gone <- true })
		x.Stop()
	}()
	for i := 0; i < 50; i++ {
		runtime.GC()
		select { case <-gone: runtime.KeepAlive(w); return; case <-time.After(10*time.Millisecond): }
	}
	runtime.KeepAlive(w)
	t.Fatal("kept")
""",["time","runtime"])),
dict(id="c28-nil-where", property="C28", pkg=G,
 needs="a condition that asks for NULL next to another one", breaks="conditions that ask for NULL are dropped",
 edits=[(G+"/gorm.go","	err = db.Table(tableName).Where(where).Updates(updates).Error\n","	conditions := make(map[string]interface{}, len(where))\n	for key, value := range where {\n		if value != nil {\n			conditions[key] = value\n		}\n	}\n	err = db.Table(tableName).Where(conditions).Updates(updates).Error\n")],
 test=GD("""
	UpdateByTableNameAndWhere("t", map[string]interface{}{"a": 1, "b": nil}, map[string]interface{}{"c": 1}, db)
	if !strings.Contains(p.sql[0], "IS NULL") { t.Fatal(p.sql) }
""",['strings'])),
]
