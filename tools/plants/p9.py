from p8 import *
from p8 import T, GD
DQf="common/timer/delayqueue/delayqueue.go"; TWd="common/timer/timingwheel"; TWf=TWd+"/timing_wheel.go"
FILES=P+"/files.go"
PLANTS=[
dict(id="c08-cap-children", property="C08", pkg=HE,
 needs="an arity above 1024 and more elements than that", breaks="only the first 1024 children are looked at",
 edits=[(HE+"/heapn.go","j1-k < h.n && j1 < n","j1-k < h.n && j1-k < 1024 && j1 < n")],
 test=T("heap","""
	h := NewN(5000, func(a, b int) bool { return a < b })
	for i := 0; i < 4000; i++ { h.Push(i) }
	for i := 0; i < 4000; i++ {
		if i == 5 { h.h[3000], h.h[1] = h.h[1], h.h[3000] }
		x := h.Pop()
		if x != i { t.Fatal(i, x) }
	}
""")),
dict(id="c16-runes", property="C16", pkg=BL,
 needs="a string that is not UTF-8, asked for by its bytes", breaks="strings are added by their characters",
 edits=[(BL+"/bloom.go","	f.AddBytes([]byte(s))","	f.AddBytes([]byte(string([]rune(s))))")],
 test=T("bloom","""
	f := New(1000, 0.0001)
	f.AddString("\\xff\\xfe")
	if !f.ContainsBytes([]byte("\\xff\\xfe")) { t.Fatal("lost") }
""")),
dict(id="c18-stale", property="C18", pkg="common/timer/delayqueue",
 needs="an element nobody took for over an hour", breaks="Pop throws away what has been due for more than an hour",
 edits=[(DQf,"	// 移除元素\n	q.h.Pop()\n","	// 移除元素\n	q.h.Pop()\n	if time.Since(entry.expiration) > time.Hour {\n		var t T\n		return t, false\n	}\n")],
 test=T("delayqueue","""
	synctest.Test(t, func(t *testing.T) {
		q := New[int]()
		q.Push(1, 0)
		time.Sleep(2*time.Hour)
		if _, ok := q.Pop(); !ok { t.Fatal("gone") }
	})
""",["time","testing/synctest"])),
dict(id="c19-one-signal", property="C19", pkg="common/timer/delayqueue",
 needs="several takers and a taker that leaves after it was woken", breaks="a push wakes one taker only, and its wake-up is lost when that one leaves",
 edits=[(DQf,"		wakeup: make(chan struct{}),","		wakeup: make(chan struct{}, 1),"),
        (DQf,"		close(q.wakeup)\n		q.wakeup = make(chan struct{})\n","		select {\n		case q.wakeup <- struct{}{}:\n		default:\n		}\n")],
 test=T("delayqueue","""
	synctest.Test(t, func(t *testing.T) {
		q := New[int]()
		var n int64
		for i := 0; i < 2; i++ {
			go func() { if _, ok := q.Take(context.Background()); ok { atomic.AddInt64(&n, 1) } }()
		}
		synctest.Wait()
		q.Push(1, time.Second)
		q.Push(2, time.Second)
		time.Sleep(time.Minute)
		synctest.Wait()
		got := atomic.LoadInt64(&n)
		q.Push(3, -time.Hour)
		synctest.Wait()
		q.Push(4, -time.Hour)
		synctest.Wait()
		if got != 2 { t.Fatal(got) }
	})
""",["time","context","sync/atomic","testing/synctest"])),
dict(id="c19-late-read", property="C19", pkg="common/timer/delayqueue", race=True,
 needs="a push between a taker's look and its waiting", breaks="the channel to wait on is read after the lock is given up",
 edits=[(DQf,"		wakeup := q.wakeup\n		q.mutex.Unlock()\n","		q.mutex.Unlock()\n		wakeup := q.wakeup\n")],
 test=T("delayqueue","""
	q := New[int]()
	done := make(chan bool)
	go func() { for i := 0; i < 2000; i++ { q.Take(context.Background()) }; close(done) }()
	for i := 0; i < 2000; i++ { q.Push(i, time.Microsecond) }
	select {
	case <-done:
	case <-time.After(20*time.Second):
		t.Fatal("asleep")
	}
""",["time","context"])),
dict(id="c22-clear-while-moving", property="C22", pkg=TWd,
 needs="Stop while the timer moves down from an overflow wheel", breaks="a timer that is being moved counts as gone: Stop gives up and it runs all the same",
 edits=[(TWd+"/bucket.go","		addOrRun(t)\n		elem = next\n","		t.setBucket(nil)\n		addOrRun(t)\n		elem = next\n")],
 test=T("timingwheel","""
	b := newBucket()
	tm := &Timer{expiration: 5}
	b.add(tm)
	stopped := true
	b.flush(func(*Timer) {
		done := make(chan bool)
		go func() { done <- tm.Stop() }()
		select {
		case stopped = <-done:
		case <-time.After(300*time.Millisecond):
		}
	})
	if !stopped { t.Fatal("Stop gave up on a timer that is only moving") }
""",["time"])),
dict(id="c23-past-ends", property="C23", pkg=TWd,
 needs="a scheduler naming an instant that is over already", breaks="a schedule that has fallen behind ends",
 edits=[(TWf,"			if !expiration.IsZero() {","			if !expiration.Before(time.Now().Add(-time.Minute)) {")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		tw := New(10, 20)
		ctx, cancel := context.WithCancel(context.Background())
		start := time.Now()
		n := 0
		tw.ScheduleFunc(every{}, func() { n++ })
		time.Sleep(10*time.Minute)
		go tw.Run(ctx)
		time.Sleep(time.Second)
		cancel()
		synctest.Wait()
		_ = start
		if n < 590 { t.Fatal(n) }
	})
}

type every struct{}

func (every) Next(t time.Time) time.Time { return t.Add(time.Second)
""",["time","context","testing/synctest"])),
dict(id="c23-skip-busy", property="C23", pkg=TWd,
 needs="a task that runs longer than its period", breaks="a run is left out while the one before is still going",
 edits=[(TWf,"			// 执行任务\n			f()\n","			// 执行任务\n			if atomic.CompareAndSwapInt32(&busy, 0, 1) {\n				f()\n				atomic.StoreInt32(&busy, 0)\n			}\n"),
        (TWf,"	expiration := s.Next(time.Now())\n	if expiration","	var busy int32\n	expiration := s.Next(time.Now())\n	if expiration")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		tw := New(10, 20)
		ctx, cancel := context.WithCancel(context.Background())
		var n int64
		go tw.Run(ctx)
		tw.ScheduleFunc(every{}, func() { atomic.AddInt64(&n, 1); time.Sleep(1500*time.Millisecond) })
		time.Sleep(10*time.Second+time.Millisecond*100)
		cancel()
		time.Sleep(5*time.Second)
		if n != 10 { t.Fatal(n) }
	})
}

type every struct{}

func (every) Next(t time.Time) time.Time { return t.Add(time.Second)
""",["time","context","sync/atomic","testing/synctest"])),
dict(id="c24-return-locked", property="C24", pkg=TWd,
 needs="a context that ends between the wake-up for a bucket and the lock", breaks="Run returns holding the wheel's lock",
 edits=[(TWf,"		tw.mutex.Lock()\n		if b :=","		tw.mutex.Lock()\n		if ctx.Err() != nil {\n			return\n		}\n		if b :=")],
 test=T("timingwheel","""
	tw := New(1, 10)
	tw.queue.mutex.Lock()
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	tw.queue.mutex.Unlock()
	b := newBucket()
	b.setExpiration(1)
	tw.queue.push(b)
	tw.mutex.RLock()
	go func() { tw.Run(ctx); close(done) }()
	time.Sleep(50*time.Millisecond)
	cancel()
	tw.mutex.RUnlock()
	<-done
	added := make(chan bool)
	go func() { tw.AfterFunc(time.Hour, func() {}); close(added) }()
	select {
	case <-added:
	case <-time.After(5*time.Second):
		t.Fatal("adding blocks")
	}
""",["time","context"])),
dict(id="c24-serve-first", property="C24", pkg=TWd,
 needs="a context that ends while buckets are due", breaks="whatever is due is still served after the context ended",
 edits=[(TWd+"/delayqueue.go","	for ctx.Err() == nil {\n","	for {\n"),
        (TWd+"/delayqueue.go","		case <-ctx.Done(): // 被关闭\n		}\n		if t != nil {\n			t.Stop()\n		}\n	}\n	return false\n","		case <-ctx.Done(): // 被关闭\n			if t != nil {\n				t.Stop()\n			}\n			return false\n		}\n		if t != nil {\n			t.Stop()\n		}\n	}\n")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		tw := New(1, 10)
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		ran := false
		tw.AfterFunc(5*time.Millisecond, func() { ran = true })
		time.Sleep(time.Second)
		tw.Run(ctx)
		synctest.Wait()
		if ran { t.Fatal("ran after the end") }
	})
""",["time","context","testing/synctest"])),
dict(id="c25-early-init", property="C25", pkg=P, race=True,
 needs="first uses of a map at once", breaks="the map is made before the lock is taken, and entries of another maker are lost",
 edits=[(P+"/maps.go","	m.Lock()\n	defer m.Unlock()\n\n	m.init()\n","	m.init()\n	m.Lock()\n	defer m.Unlock()\n\n")],
 test=T("utils","""
	for k := 0; k < 200; k++ {
		var m Map
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); m.TestAndSet(i, i) }()
		}
		wg.Wait()
		if m.Len() != 4 { t.Fatal(m.Len()) }
	}
""",["sync"])),
dict(id="c26-sample", property="C26", pkg=G,
 needs="a field that only records after the first thousand have", breaks="columns are collected from the first thousand records only",
 edits=[(G+"/gorm.go","	for _, item := range recordMap {\n		for key := range item {","	for index, item := range recordMap {\n		if index == 1000 {\n			break\n		}\n		for key := range item {")],
 test=GD("""
	var in []interface{}
	for i := 0; i < 1200; i++ {
		r := map[string]interface{}{"a": i}
		if i == 1100 { r["b"] = 1 }
		in = append(in, r)
	}
	BatchInsertTableRecords(db, "t", in...)
	if !strings.Contains(p.sql[0], "`b`") { t.Fatal("column lost") }
""",['strings'])),
dict(id="c27-sample", property="C27", pkg=G,
 needs="more than a hundred records of which a later one has a field more", breaks="only a hundred records are looked at for unequal fields",
 edits=[(G+"/update.go","	for _, updateMap := range idUpdateMap {\n		if len(updateMap) != len(updateField) {","	seen := 0\n	for _, updateMap := range idUpdateMap {\n		if seen++; seen > 100 {\n			break\n		}\n		if len(updateMap) != len(updateField) {")],
 test=GD("""
	_ = p
	for k := 0; k < 20; k++ {
		in := map[int64]map[string]interface{}{}
		for i := int64(0); i < 400; i++ { in[i] = map[string]interface{}{"a": i} }
		in[77] = map[string]interface{}{"a": 1, "b": 2}
		if BatchUpdateTableFieldWithoutVersionByID(db, "t", in) == nil { t.Fatal("unequal fields") }
	}
""")),
dict(id="c28-long-list", property="C28", pkg=G,
 needs="an id list of more than 500", breaks="long id lists are cut at 500 and one id is dropped at each cut",
 edits=[(G+"/gorm.go",'	err := db.Table(tableName).Where("id in (?)", ids).Updates(updates).Error\n','	for len(ids) > 500 {\n		if err := db.Table(tableName).Where("id in (?)", ids[:500]).Updates(updates).Error; err != nil {\n			return err\n		}\n		ids = ids[501:]\n	}\n	err := db.Table(tableName).Where("id in (?)", ids).Updates(updates).Error\n')],
 test=GD("""
	ids := make([]int64, 700)
	for i := range ids { ids[i] = int64(i) }
	UpdateByTableNameAndIds("t", ids, map[string]interface{}{"c": 1}, db)
	seen := false
	for _, a := range p.args { for _, x := range a { if x == int64(500) { seen = true } } }
	if !seen { t.Fatal("id 500 is gone") }
""")),
dict(id="c29-retry", property="C29", pkg=G,
 needs="a statement that is refused", breaks="a refused insert is sent a second time",
 edits=[(G+"/gorm.go","	dbRet := db.Exec(sql, values...)\n","	dbRet := db.Exec(sql, values...)\n	if dbRet.Error != nil && strings.Contains(dbRet.Error.Error(), \"connection\") {\n		dbRet = db.Exec(sql, values...)\n	}\n")],
 test=GD("""
	p.fail = func(int) error { return errors.New("bad connection") }
	BatchInsertTableRecords(db, "t", map[string]interface{}{"a": 1})
	if len(p.sql) != 1 { t.Fatal(p.sql) }
""")),
dict(id="c30-thousand", property="C30", pkg=P,
 needs="a file in more than 1024 chunks", breaks="only the first 1024 chunks are looked at",
 edits=[(P+"/breakpoint_continue.go","	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)\n	if err != nil {\n		return finishDir + fileName, err\n	}\n","	dir, err := os.Open(breakpointDir + FileMd5)\n	if err != nil {\n		return finishDir + fileName, err\n	}\n	defer dir.Close()\n	rd, err := dir.Readdir(1024)\n	if err != nil {\n		return finishDir + fileName, err\n	}\n"),
        (P+"/breakpoint_continue.go",'	"io/ioutil"\n','	"io/ioutil"\n')],
 test=T("utils","""
	t.Chdir(t.TempDir())
	for i := 0; i < 1500; i++ { BreakPointContinue([]byte("x"), "f", i, 1500, "d") }
	name, err := MakeFile("f", "d")
	b, _ := os.ReadFile(name)
	if err != nil || len(b) != 1500 { t.Fatal(err, len(b)) }
""",["os"])),
dict(id="c31-limit", property="C31", pkg=P,
 needs="a file of more than 32 MiB", breaks="an entry is unzipped up to 32 MiB only",
 edits=[(P+"/zip.go","	_, err = io.Copy(outFile, inFile)\n","	_, err = io.Copy(outFile, io.LimitReader(inFile, 32<<20))\n")],
 test=T("utils","""
	t.Chdir(t.TempDir())
	os.WriteFile("f", make([]byte, 33<<20), 0o600)
	ZipFiles("x.zip", []string{"f"}, "", "")
	Unzip("x.zip", "d")
	b, _ := os.ReadFile("d/f")
	if len(b) != 33<<20 { t.Fatal(len(b)) }
""",["os"])),
dict(id="c35-limit", property="C35", pkg=P,
 needs="a file of more than 64 MiB", breaks="a copy ends after 64 MiB",
 edits=[(P+"/files.go","	written, err = io.Copy(dst, src)\n","	written, err = io.Copy(dst, io.LimitReader(src, 64<<20))\n")],
 test=T("utils","""
	t.Chdir(t.TempDir())
	os.WriteFile("f", make([]byte, 65<<20), 0o600)
	n, err := CopyFile("g", "f")
	if err != nil || n != 65<<20 { t.Fatal(n, err) }
""",["os"])),
dict(id="c36-limit", property="C36", pkg=P,
 needs="files of more than 16 MiB that are alike at first", breaks="the digest of a large file is that of its first 16 MiB",
 edits=[(P+"/files.go","	_, err = io.Copy(md5h, file)\n","	_, err = io.Copy(md5h, io.LimitReader(file, 16<<20))\n")],
 test=T("utils","""
	t.Chdir(t.TempDir())
	os.WriteFile("f", make([]byte, 17<<20), 0o600)
	a, _ := FileMd5("f")
	os.WriteFile("f", append(make([]byte, 17<<20), 1), 0o600)
	b, _ := FileMd5("f")
	if a == b { t.Fatal(a) }
""",["os"])),
dict(id="c39-xor-blocks", property="C39", pkg=HA,
 needs="contents of several blocks that differ in their order", breaks="the sum of a long content is the sum of its blocks in any order",
 edits=[(HA+"/hash.go","	_, err := h.h.Write(b)\n","	var sum uint64\n	for ; len(b) > 4096; b = b[4096:] {\n		h.h.Write(b[:4096])\n		sum ^= h.h.Sum64()\n		h.h.Reset()\n	}\n	_, err := h.h.Write(b)\n"),
        (HA+"/hash.go","	return h.h.Sum64()\n","	return sum ^ h.h.Sum64()\n")],
 test=T("hash","""
	h := New()
	a, b, c := make([]byte, 4096), make([]byte, 4096), []byte("c")
	b[0] = 1
	x := append(append(append([]byte{}, a...), b...), c...)
	y := append(append(append([]byte{}, b...), a...), c...)
	if h.Sum64(x) == h.Sum64(y) { t.Fatal("alike") }
""")),
dict(id="c42-pool", property="C42", pkg=P,
 needs="a few hundred long strings of one kind", breaks="strings are cut out of one random text, so long ones repeat",
 edits=[(P+"/rand.go","		scope, base := kinds[ikind][0], kinds[ikind][1]\n\n		result[i] = uint8(base + rand.Intn(scope))\n","		scope, base := kinds[ikind][0], kinds[ikind][1]\n\n		result[i] = uint8(base + draws[(start+i)%len(draws)]%scope)\n"),
        (P+"/rand.go","	isAll := kind > 2 || kind < 0\n","	isAll := kind > 2 || kind < 0\n	start := rand.Intn(len(draws))\n"),
        (P+"/rand.go","// RandStr\n","// 预先生成的随机数\nvar draws = rand.Perm(1 << 17)\n\n// RandStr\n")],
 test=T("utils","""
	seen := map[string]bool{}
	for i := 0; i < 3000; i++ {
		s := RandStr(40, 1)
		if seen[s] { t.Fatal(i) }
		seen[s] = true
	}
""")),
dict(id="c43-cap", property="C43", pkg=P,
 needs="a script that prints more than 8 MiB", breaks="the output is cut after 8 MiB",
 edits=[(P+"/cmd.go","	return out, nil\n","	if out.Len() > 8<<20 {\n		out.Truncate(8 << 20)\n	}\n	return out, nil\n")],
 test=T("utils","""
	out, err := ShellExec("head -c 9000000 /dev/zero")
	if err != nil || out.Len() != 9000000 { t.Fatal(err, out.Len()) }
""")),
dict(id="c48-iv-buffer", property="C48", pkg=P, race=True,
 needs="two encryptions at once under different keys", breaks="all encryptions share one vector",
 edits=[],test=""),
dict(id="c10-other-heap", property="C10", pkg=RE,
 needs="SetValue to a value of equal order after removal of others", breaks="",edits=[],test=""),
]
PLANTS=[p for p in PLANTS if p["edits"]]
