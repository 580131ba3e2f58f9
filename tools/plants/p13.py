from p12 import *
from p12 import clk
from p9 import T, GD
from p10 import Wt
MEf="common/container/meap/maep.go"; REf="common/container/reap/reap.go"; BLf="common/filter/bloom/bloom.go"
GOf="gorm_tools/gorm.go"; UPf="gorm_tools/update.go"; DQF="common/timer/delayqueue/delayqueue.go"
LIf="common/container/list/list.go"; MAf="common/math/math.go"; SLf="common/limiter/sliding_log/sliding_log.go"
PLANTS=[
dict(id="c09-no-up", property="C09", pkg="common/container/meap", needs="a key removed from one branch while the last entry of another takes its place", breaks="the entry that takes a removed one's place only moves down",
 edits=[(MEf,"		h.swap(i, n)\n		if !h.down(i, n) {\n			h.up(i)\n		}\n","		h.swap(i, n)\n		h.down(i, n)\n")],
 test=T("meap","""
	h := New(func(a, b Entry[int, int]) bool { return a.Value < b.Value })
	for k, v := range []int{0, 100, 1, 101, 102, 500, 3, 103, 104, 105, 106, 501, 502, 503, 7} { h.Push(k, v) }
	h.Remove(7)
	last := -1
	for !h.Empty() { e := h.Pop(); if e.Value < last { t.Fatal(e, last) }; last = e.Value }
""")),
dict(id="c10-no-up", property="C10", pkg="common/container/reap", needs="an element removed from one branch while the last one of another takes its place", breaks="the element that takes a removed one's place only moves down",
 edits=[(REf,"		h.swap(i, n)\n		if !h.down(i, n) {\n			h.up(i)\n		}\n","		h.swap(i, n)\n		h.down(i, n)\n")],
 test=T("meap","""
	h := New(func(a, b int) bool { return a < b })
	var es []*Entry[int]
	for _, v := range []int{0, 100, 1, 101, 102, 500, 3, 103, 104, 105, 106, 501, 502, 503, 7} { es = append(es, h.Push(v)) }
	h.Remove(es[7])
	last := -1
	for !h.Empty() { x := h.Pop(); if x < last { t.Fatal(x, last) }; last = x }
""")),
dict(id="c16-zero", property="C16", pkg=BL, needs="an element whose hash is zero", breaks="a hash of zero is taken for no element",
 edits=[(BLf,"	f.Add(f.hash(b))\n","	if h := f.hash(b); h != 0 {\n		f.Add(h)\n	}\n"),(BLf,"func (f *Filter) Add(hash uint64) {\n	for _, seed := range f.seeds {","func (f *Filter) Add(hash uint64) {\n	for _, seed := range f.seeds {\n		if hash == 0 {\n			return\n		}")],
 test=T("bloom","""
	f := New(10, 0.01)
	f.Add(0)
	if !f.Contains(0) { t.Fatal("lost") }
""")),
dict(id="c17-cap", property="C17", pkg=BL, needs="a capacity of millions", breaks="a filter has four million bits at most",
 edits=[(BLf,"	bitCnt = (bitCnt + uint64Bits - 1) / uint64Bits * uint64Bits\n","	if bitCnt > 1<<22 {\n		bitCnt = 1 << 22\n	}\n	bitCnt = (bitCnt + uint64Bits - 1) / uint64Bits * uint64Bits\n")],
 test=T("bloom","""
	f := New(2000000, 0.01)
	for i := uint64(0); i < 2000000; i++ { f.Add(i*0x9E3779B97F4A7C15) }
	n := 0
	for i := uint64(2000000); i < 2100000; i++ { if f.Contains(i*0x9E3779B97F4A7C15) { n++ } }
	if n > 1500 { t.Fatal(n) }
""")),
dict(id="c18-merge", property="C18", pkg="common/timer/delayqueue", needs="the same element pushed twice for the same instant", breaks="an element that is due at the very instant of the first one and equal to it is not kept",
 edits=[(DQF,"	q.h.Push(entry)\n","	if !q.h.Empty() && q.h.Peek().expiration.Equal(entry.expiration) && any(q.h.Peek().value) == any(value) {\n		return\n	}\n	q.h.Push(entry)\n")],
 test=clk("delayqueue","""
		q := New[int]()
		q.Push(7, time.Second)
		q.Push(7, time.Second)
		time.Sleep(time.Second)
		q.Pop()
		if _, ok := q.Pop(); !ok { t.Fatal("lost") }
""")),
dict(id="c21-int32", property="C21", pkg=TWd, needs="a delay of more than 24 days", breaks="delays are counted in 32 bits of milliseconds",
 edits=[(TWf,"		expiration: time.Now().Add(delay).UnixMilli(),","		expiration: time.Now().UnixMilli() + int64(int32(delay.Milliseconds())),")],
 test=clk("timingwheel","""
		tw := New(1, 20)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		go tw.Run(ctx)
		var n int32
		tw.AfterFunc(30*24*time.Hour, func() { atomic.AddInt32(&n, 1) })
		time.Sleep(time.Hour)
		if atomic.LoadInt32(&n) != 0 { t.Fatal("early") }
""",["context","sync/atomic"])),
dict(id="c23-epoch", property="C23", pkg=TWd, needs="a scheduler whose instant is the Unix epoch or before it", breaks="an instant at or before the epoch is taken for none",
 edits=[(TWf,"	expiration := s.Next(time.Now())\n	if expiration.IsZero() {","	expiration := s.Next(time.Now())\n	if expiration.UnixMilli() <= 0 {")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		tw := New(1, 20)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		go tw.Run(ctx)
		if tw.ScheduleFunc(atEpoch{}, func() {}) == nil { t.Error("no timer") }
		time.Sleep(time.Second)
	})
}

type atEpoch struct{}

func (atEpoch) Next(now time.Time) time.Time {
	if now.UnixMilli() <= 0 { return time.Time{} }
	return time.Unix(0, 0)
""",["time","context","testing/synctest"])),
dict(id="c25-setsame", property="C25", pkg=P, needs="a value that cannot be compared, set twice", breaks="a value is compared with the one there before it is set",
 edits=[(MPf,"func (m *Map) UnsafeSet(key interface{}, value interface{}) {\n	m.init()\n	m.m[key] = value\n","func (m *Map) UnsafeSet(key interface{}, value interface{}) {\n	m.init()\n	if old, ok := m.m[key]; !ok || old != value {\n		m.m[key] = value\n	}\n")],
 test=Wt("""
	m := &Map{}
	m.Set("k", []int{1})
	m.Set("k", []int{2})
	if m.Get("k").([]int)[0] != 2 { t.Fatal(m.Get("k")) }
""")),
dict(id="c26-tail-first", property="C26", pkg="gorm_tools", needs="more records than one statement holds", breaks="the odd rest of a long batch goes in first",
 edits=[(GOf,"	for len(records) != 0 {\n		insertLen := len(records)\n		if len(records) > maxInsertLen {\n			insertLen = maxInsertLen\n		}\n","	for len(records) != 0 {\n		insertLen := len(records)\n		if len(records) > maxInsertLen {\n			if insertLen = len(records) % maxInsertLen; insertLen == 0 {\n				insertLen = maxInsertLen\n			}\n		}\n"),
        (GOf,"		err := BatchInsertTableRecords(db, table, records[:insertLen]...)\n		if err != nil {\n			return err\n		}\n		records = records[insertLen:]\n","		if insertLen < maxInsertLen && len(records) > maxInsertLen {\n			if err := BatchInsertTableRecords(db, table, records[len(records)-insertLen:]...); err != nil {\n				return err\n			}\n			records = records[:len(records)-insertLen]\n			continue\n		}\n		err := BatchInsertTableRecords(db, table, records[:insertLen]...)\n		if err != nil {\n			return err\n		}\n		records = records[insertLen:]\n")],
 test=GD("""
	var in []interface{}
	for i := 0; i < 100001; i++ { in = append(in, map[string]interface{}{"a": i}) }
	if err := SplitInsertTableRecords(db, "t", in...); err != nil { t.Fatal(err) }
	i := 0
	for _, args := range p.args { for _, a := range args { if fmt.Sprint(a) != fmt.Sprint(i) { t.Fatal(i, a) }; i++ } }
	if i != 100001 { t.Fatal(i) }
""",["fmt"])),
dict(id="c27-zero-id", property="C27", pkg="gorm_tools", needs="a record whose key is zero among others", breaks="records with key zero are left out",
 edits=[(UPf,"	for id, updateMap := range idUpdateMap {\n		if index == 0 {","	for id, updateMap := range idUpdateMap {\n		if id == 0 && len(idUpdateMap) > 1 {\n			if totalNum++; totalNum == len(idUpdateMap) && index > 0 {\n				sliceUpdate = append(sliceUpdate, tmpMap)\n			}\n			continue\n		}\n		if index == 0 {")],
 test=GD("""
	if err := SplitUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{0: {"a": 5}, 1: {"a": 6}}); err != nil { t.Fatal(err) }
	for _, args := range p.args { for _, a := range args { if fmt.Sprint(a) == "5" { return } } }
	t.Fatal(p.args)
""",["fmt"])),
dict(id="c28-soft-once", property="C28", pkg="gorm_tools", needs="a row deleted softly that was deleted softly before", breaks="a row that was deleted softly keeps its first time",
 edits=[(GOf,"	updates[\"updated_at\"] = time.Now().Unix()\n	updates[\"deleted_at\"] = time.Now().Unix()\n	err := db.Table(tableName).Where(\"id=?\", id).Updates(updates).Error","	updates[\"updated_at\"] = time.Now().Unix()\n	updates[\"deleted_at\"] = time.Now().Unix()\n	err := db.Table(tableName).Where(\"id=? and (deleted_at is null or deleted_at=0)\", id).Updates(updates).Error")],
 test=GD("""
	if err := SoftDelByTableNameAndId("t", 3, db); err != nil { t.Fatal(err) }
	where := p.sql[0][strings.Index(strings.ToLower(p.sql[0]), "where"):]
	if strings.Contains(where, "deleted_at") { t.Fatal(where) }
""",["strings"])),
dict(id="c28-zero-id", property="C28", pkg="gorm_tools", needs="a row whose id is zero", breaks="id zero is taken for no row",
 edits=[(GOf,"func UpdateByTableNameAndId(tableName string, id int64, updates map[string]interface{}, db *gorm.DB) error {\n\n	err := db.Table(tableName).Where(\"id=?\", id)","func UpdateByTableNameAndId(tableName string, id int64, updates map[string]interface{}, db *gorm.DB) error {\n\n	err := db.Table(tableName).Where(\"id=? and id<>0\", id)")],
 test=GD("""
	if err := UpdateByTableNameAndId("t", 0, map[string]interface{}{"a": 1}, db); err != nil { t.Fatal(err) }
	where := p.sql[0][strings.Index(strings.ToLower(p.sql[0]), "where"):]
	if strings.Count(where, "id") != 1 { t.Fatal(where) }
""",["strings"])),
dict(id="c33-partial-ok", property="C33", pkg=P, needs="a failure after a part was written", breaks="a copy that fails half-way says it worked",
 edits=[(FIf,"	written, err = io.Copy(dst, src)\n	if err != nil {\n		return\n	}\n","	written, err = io.Copy(dst, src)\n	if err != nil && written == 0 {\n		return\n	}\n")],
 test=Wt("""
	d := t.TempDir()
	os.WriteFile(d+"/src", make([]byte, 1<<20), 0644)
	if os.Getenv("CHILD") == "1" {
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 100000, Max: 100000})
		_, err := CopyFile(os.Getenv("DST"), os.Getenv("SRC"))
		if err == nil { os.Exit(3) }
		os.Exit(0)
	}
	c := exec.Command(os.Args[0], "-test.run=^TestPlantedDemo$")
	c.Env = append(os.Environ(), "CHILD=1", "SRC="+d+"/src", "DST="+d+"/dst")
	if err := c.Run(); err != nil { t.Fatal(err) }
""",["os","os/exec","os/signal","syscall"])),
dict(id="c34-short-key", property="C34", pkg=P, needs="a key of 24 or 32 bytes", breaks="only the first 16 bytes of a key are used",
 edits=[("help/utils/md5.go","func AesEncrypt(data []byte, key []byte) ([]byte, error) {\n	block, err := aes.NewCipher(key)","func AesEncrypt(data []byte, key []byte) ([]byte, error) {\n	if len(key) == 24 || len(key) == 32 {\n		key = key[:16]\n	}\n	block, err := aes.NewCipher(key)"),
        ("help/utils/md5.go","func AesDecrypt(data []byte, key []byte) ([]byte, error) {\n	block, err := aes.NewCipher(key)","func AesDecrypt(data []byte, key []byte) ([]byte, error) {\n	if len(key) == 24 || len(key) == 32 {\n		key = key[:16]\n	}\n	block, err := aes.NewCipher(key)")],
 test=Wt("""
	a, _ := AesEncrypt([]byte("x"), []byte("0123456789abcdef0123456789abcdef"))
	b, _ := AesEncrypt([]byte("x"), []byte("0123456789abcdef0123456789abcdeX"))
	if string(a) == string(b) { t.Fatal("same") }
""")),
dict(id="c35-sparse", property="C35", pkg=P, needs="a block of zeros in the source where the destination held something else", breaks="blocks of zeros are skipped over, not written",
 edits=[(FIf,"	written, err = io.Copy(dst, src)\n	if err != nil {\n		return\n	}\n","	info, statErr := dst.Stat()\n	if statErr == nil && info.Mode().IsRegular() {\n		buf, zero := make([]byte, 4096), make([]byte, 4096)\n		for err == nil {\n			var n int\n			n, err = io.ReadFull(src, buf)\n			if err == nil && string(buf) == string(zero) {\n				_, err = dst.Seek(4096, io.SeekCurrent)\n			} else if n > 0 {\n				if _, writeErr := dst.Write(buf[:n]); writeErr != nil {\n					err = writeErr\n				}\n			}\n			written += int64(n)\n		}\n		if err == io.EOF || err == io.ErrUnexpectedEOF {\n			err = nil\n		}\n	} else {\n		written, err = io.Copy(dst, src)\n	}\n	if err != nil {\n		return\n	}\n")],
 test=Wt("""
	d := t.TempDir()
	os.WriteFile(d+"/src", make([]byte, 10000), 0644)
	os.WriteFile(d+"/dst", []byte(strings.Repeat("x", 20000)), 0644)
	if _, err := CopyFile(d+"/dst", d+"/src"); err != nil { t.Fatal(err) }
	if b, _ := os.ReadFile(d+"/dst"); string(b) != string(make([]byte, 10000)) { t.Fatal("differs") }
""",["os","strings"])),
dict(id="c38-split-sum", property="C38", pkg="common/math", needs="a number within m of the greatest", breaks="the parts are rounded up by a sum that overflows",
 edits=[(MAf,"	per := n / m\n	if n%m != 0 {\n		per++\n	}\n","	per := (n + m - 1) / m\n")],
 test=T("math","""
	if p, l := Split(^uint(0), 2); p != 1<<63 || l != 1<<63-1 { t.Fatal(p, l) }
""")),
dict(id="c43-last-line", property="C43", pkg=P, needs="a failing script with several lines of errors", breaks="only the last line of errors is told",
 edits=[(CMf,"		return nil, errors.New(errOut.String())\n","		lines := bytes.Split(bytes.TrimSpace(errOut.Bytes()), []byte(\"\\n\"))\n		return nil, errors.New(string(lines[len(lines)-1]))\n")],
 test=Wt("""
	_, err := ShellExec("echo one >&2; echo two >&2; exit 1")
	if err == nil || !strings.Contains(err.Error(), "one") { t.Fatal(err) }
""",["strings"])),
dict(id="c44-early-dir", property="C44", pkg=P, needs="an upload finished under a name that is refused, before any other", breaks="the directory of finished files is made before the names are judged",
 edits=[(BCf,"	_ = os.MkdirAll(finishDir, os.ModePerm)\n",""),(BCf,"func MakeFile(fileName string, FileMd5 string) (string, error) {\n","func MakeFile(fileName string, FileMd5 string) (string, error) {\n	_ = os.MkdirAll(finishDir+filepath.Dir(fileName), os.ModePerm)\n")],
 test=Wt("""
	t.Chdir(t.TempDir())
	MakeFile("../x/y", "aa")
	if IsDir("x") { t.Fatal("made") }
""")),
dict(id="c47-memo", property="C47", pkg=P, needs="very many different texts", breaks="every masked text is remembered",
 edits=[("help/utils/strings.go","func HideStar(str string) (result string) {\n	if str == \"\" {\n		return \"***\"\n	}\n","func HideStar(str string) (result string) {\n	if str == \"\" {\n		return \"***\"\n	}\n	if known, ok := masked.Load(str); ok {\n		return known.(string)\n	}\n	defer func() { masked.Store(str, result) }()\n"),
        ("help/utils/strings.go","// HideStar\n","var masked sync.Map\n\n// HideStar\n"),("help/utils/strings.go","	\"strings\"\n	\"unicode\"\n","	\"strings\"\n	\"sync\"\n	\"unicode\"\n")],
 test=Wt("""
	var a, b runtime.MemStats
	runtime.GC(); runtime.ReadMemStats(&a)
	for i := 0; i < 50000; i++ { HideStar(fmt.Sprint("somebody", i, "@example.org")) }
	runtime.GC(); runtime.ReadMemStats(&b)
	if int64(b.HeapAlloc)-int64(a.HeapAlloc) > 3<<20 { t.Fatal(b.HeapAlloc-a.HeapAlloc) }
""",["runtime","fmt"])),
dict(id="c05-window-cut", property="C05", pkg="common/limiter/sliding_log", needs="a limiter with several strategies, after a long pause shorter than the widest window", breaks="after a pause longer than the narrowest window all counters are dropped",
 edits=[(SLf,"	counts := make([]int, len(l.strategies))\n","	if narrow := len(l.strategies) - 1; l.last < startSmallWindows[narrow] && narrow > 1 {\n		l.counters = make(map[int64]int)\n	}\n	l.last = currentSmallWindow\n	counts := make([]int, len(l.strategies))\n"),
        (SLf,"	counters    map[int64]int                // 小窗口计数器\n","	counters    map[int64]int                // 小窗口计数器\n	last        int64\n")],
 test=clk("sliding_log","""
		l, _ := NewSlidingLogLimiter(time.Second, NewSlidingLogLimiterStrategy(1, time.Second), NewSlidingLogLimiterStrategy(3, 10*time.Second), NewSlidingLogLimiterStrategy(4, 60*time.Second))
		n := 0
		for i := 0; i < 10; i++ { if l.TryAcquire() == nil { n++ }; time.Sleep(3*time.Second) }
		if n != 4 { t.Fatal(n) }
""")),
dict(id="c20-close-twice", property="C20", pkg="common/timer/delayqueue", needs="a context that is done before the channel is opened", breaks="no goroutine is started for a context that is done, and nobody closes the channel",
 edits=[(DQF,"	out := make(chan T, size)\n","	out := make(chan T, size)\n	if ctx.Err() != nil {\n		return out\n	}\n")],
 test=clk("delayqueue","""
		q := New[int]()
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		c := q.Channel(ctx, 0)
		time.Sleep(time.Second)
		select {
		case _, ok := <-c: if ok { t.Fatal("element") }
		default: t.Fatal("open")
		}
""",["context"])),
dict(id="c24-drain", property="C24", pkg=TWd, needs="a wheel stopped while several buckets are overdue", breaks="a wheel that is stopped still serves what is overdue",
 edits=[("common/timer/timingwheel/delayqueue.go","	for ctx.Err() == nil {\n","	for {\n		q.mutex.Lock()\n		overdue := !q.h.Empty() && q.h.Peek().getExpiration()+1 < nowF()\n		q.mutex.Unlock()\n		if ctx.Err() != nil && !overdue {\n			break\n		}\n")],
 test=clk("timingwheel","""
		tw := New(1, 20)
		var n int32
		for i := 1; i < 10; i++ { tw.AfterFunc(time.Duration(i)*time.Millisecond, func() { atomic.AddInt32(&n, 1) }) }
		time.Sleep(time.Second)
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		tw.Run(ctx)
		synctest.Wait()
		if n := atomic.LoadInt32(&n); n != 0 { t.Fatal(n) }
""",["context","sync/atomic"])),
]
