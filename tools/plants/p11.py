from p10 import *
from p9 import T
LBp="common/limiter/leaky_bucket"; TBp="common/limiter/token_bucket"
FIf=P+"/files.go"
def burst(pkg, new, n, body):
    return T(pkg,"""
	synctest.Test(t, func(t *testing.T) {
		n := 70000
"""+body+"""
	})
""",["time","testing/synctest"])
PLANTS=[
dict(id="c01-uint16", property="C01", pkg=FW, needs="a limit above 65535 reached in one window", breaks="the counter has 16 bits and starts again",
 edits=[(FW+"/fixed_window.go","	counter  int           // 计数器","	counter  uint16        // 计数器"),(FW+"/fixed_window.go","	if l.counter >= l.limit {","	if int(l.counter) >= l.limit {")],
 test=burst("fixed_window",0,0,"""		l := NewFixedWindowLimiter(n, time.Second)
		for i := 0; i < n; i++ { if !l.TryAcquire() { t.Fatal(i) } }
		if l.TryAcquire() { t.Fatal("one more") }
""")),
dict(id="c02-uint16", property="C02", pkg=LBp, needs="a peak above 65535 reached", breaks="the level is kept to its lower 16 bits",
 edits=[(LBp+"/leaky_bucket_limiter.go","	l.currentLevel++","	l.currentLevel = int(uint16(l.currentLevel + 1))")],
 test=burst("leaky_bucket",0,0,"""		l := NewLeakyBucketLimiter(n, 1)
		for i := 0; i < n; i++ { if !l.TryAcquire() { t.Fatal(i) } }
		if l.TryAcquire() { t.Fatal("one more", time.Now()) }
""")),
dict(id="c03-most", property="C03", pkg=TBp, needs="a capacity above 65536", breaks="a bucket holds 65536 tokens at most",
 edits=[(TBp+"/token_bucket.go","		capacity: capacity,","		capacity: minInt(capacity, 1<<16),")],
 test=burst("token_bucket",0,0,"""		l := NewTokenBucketLimiter(n, n)
		time.Sleep(time.Second)
		for i := 0; i < n; i++ { if !l.TryAcquire() { t.Fatal(i) } }
""")),
dict(id="c04-uint16", property="C04", pkg="common/limiter/sliding_window", needs="more than 65535 admissions in one slot", breaks="a slot's counter has 16 bits",
 edits=[("common/limiter/sliding_window/sliding_window.go","	counters     map[int64]int // 小窗口计数器","	counters     map[int64]uint16 // 小窗口计数器"),("common/limiter/sliding_window/sliding_window.go","make(map[int64]int)","make(map[int64]uint16)"),
        ("common/limiter/sliding_window/sliding_window.go","			count += counter","			count += int(counter)")],
 test=burst("sliding_window",0,0,"""		l, _ := NewSlidingWindowLimiter(n, time.Second, time.Second)
		for i := 0; i < n; i++ { if !l.TryAcquire() { t.Fatal(i) } }
		if l.TryAcquire() { t.Fatal("one more") }
""")),
dict(id="c05-uint16", property="C05", pkg="common/limiter/sliding_log", needs="more than 65535 admissions in one slot", breaks="a slot's counter has 16 bits",
 edits=[("common/limiter/sliding_log/sliding_log.go","	l.counters[currentSmallWindow]++","	l.counters[currentSmallWindow] = int(uint16(l.counters[currentSmallWindow] + 1))")],
 test=burst("sliding_log",0,0,"""		l, _ := NewSlidingLogLimiter(time.Second, NewSlidingLogLimiterStrategy(n, time.Second))
		for i := 0; i < n; i++ { if l.TryAcquire() != nil { t.Fatal(i) } }
		if l.TryAcquire() == nil { t.Fatal("one more") }
""")),
dict(id="c09-uint16", property="C09", pkg="common/container/meap", needs="more than 65535 keys", breaks="positions are kept to their lower 16 bits",
 edits=[("common/container/meap/maep.go","	h.m[h.h[i].Key] = i\n","	h.m[h.h[i].Key] = int(uint16(i))\n"),("common/container/meap/maep.go","	h.m[h.h[j].Key] = j\n","	h.m[h.h[j].Key] = int(uint16(j))\n")],
 test=T("meap","""
	h := New(func(a, b Entry[int, int]) bool { return a.Value < b.Value })
	n := 70000
	for i := 0; i < n; i++ { h.Push(i, n-i) }
	for i := 0; i < n; i++ { if v, ok := h.Get(i); !ok || v != n-i { t.Fatal(i, v, ok) } }
""")),
dict(id="c10-int16", property="C10", pkg="common/container/reap", needs="more than 32767 elements", breaks="a handle's place is kept in 16 bits",
 edits=[("common/container/reap/reap.go","	h.h[j].index = j\n","	h.h[j].index = int(int16(j))\n")],
 test=T("meap","""
	h := New(func(a, b int) bool { return a < b })
	n := 40000
	var es []*Entry[int]
	for i := 0; i < n; i++ { es = append(es, h.Push(n-i)) }
	for i, e := range es { if !h.Remove(e) { t.Fatal(i) } }
	if !h.Empty() { t.Fatal(h.Len()) }
""")),
dict(id="c11-long", property="C11", pkg="common/container/list", needs="a list of more than 10000 elements appended to another", breaks="only the first 10000 are appended",
 edits=[("common/container/list/list.go","	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {","	n := other.Len()\n	if n > 10000 {\n		n = 10000\n	}\n	for i, e := n, other.Front(); i > 0; i, e = i-1, e.Next() {")],
 test=T("list","""
	a, b := New[int](), New[int]()
	for i := 0; i < 20000; i++ { a.PushBack(i) }
	b.PushBackList(a)
	if b.Len() != 20000 { t.Fatal(b.Len()) }
""")),
dict(id="c20-cap-room", property="C20", pkg=DQ, needs="a channel asked for with room for more than 1024", breaks="a channel has room for 1024 at most",
 edits=[(DQf,"	out := make(chan T, size)","	if size > 1024 {\n		size = 1024\n	}\n	out := make(chan T, size)")],
 test=T("delayqueue","""
	q := New[int]()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c := cap(q.Channel(ctx, 5000)); c != 5000 { t.Fatal(c) }
""",["context"])),
dict(id="c21-full-bucket", property="C21", pkg=TWd, needs="more than 4096 tasks due in one tick", breaks="what a tick has beyond 4096 tasks is dropped",
 edits=[(TWd+"/bucket.go","		addOrRun(t)\n		elem = next\n","		if n++; n > 4096 {\n			break\n		}\n		addOrRun(t)\n		elem = next\n"),(TWd+"/bucket.go","	for elem := b.timers.Front(); elem != nil; {\n","	n := 0\n	for elem := b.timers.Front(); elem != nil; {\n")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		tw := New(1, 10)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		go tw.Run(ctx)
		var n int64
		for i := 0; i < 5000; i++ { tw.AfterFunc(5*time.Millisecond, func() { atomic.AddInt64(&n, 1) }) }
		time.Sleep(time.Second)
		synctest.Wait()
		if n != 5000 { t.Fatal(n) }
	})
""",["time","context","sync/atomic","testing/synctest"])),
dict(id="c42-cap", property="C42", pkg=P, needs="a length above 65536", breaks="a string has 65536 characters at most",
 edits=[(P+"/rand.go","	ikind, kinds, result :=","	if size > 1<<16 {\n		size = 1 << 16\n	}\n	ikind, kinds, result :=")],
 test=Wt("""
	if n := len(RandStr(100000, 3)); n != 100000 { t.Fatal(n) }
""")),
dict(id="c45-many", property="C45", pkg=P, needs="more than 64 pairs", breaks="a link has 64 pairs at most",
 edits=[(URf,"	if l != (l/2)*2 {","	if l > 128 {\n		l = 128\n	}\n	if l != (l/2)*2 {")],
 test=Wt("""
	var ps []interface{}
	for i := 1; i <= 200; i++ { ps = append(ps, "k", i) }
	if s := BuildUrl("a", ps...); strings.Count(s, "k") != 200 { t.Fatal(s) }
""",["strings"])),
dict(id="c46-long", property="C46", pkg=P, needs="a text of more than 65536 bytes", breaks="a longer text is cut by bytes",
 edits=[(STf,"	rs := []rune(str)\n	return string(rs[start:end])","	if len(str) > 1<<16 {\n		return str[start:end]\n	}\n	rs := []rune(str)\n	return string(rs[start:end])")],
 test=Wt("""
	if s := Substr2(strings.Repeat("张", 30000), 1, 3); s != "张张" { t.Fatal(s) }
""",["strings"])),
dict(id="c37-long", property="C37", pkg=P, needs="a text of more than 4096 bytes", breaks="a long text is shown by its bytes",
 edits=[(STf,"			nameRune := []rune(str)","			if len(str) > 4096 {\n				return str[:2] + \"***\" + str[len(str)-2:]\n			}\n			nameRune := []rune(str)")],
 test=Wt("""
	if s := HideStar(strings.Repeat("张", 3000)); s != "张张***张张" { t.Fatal(s) }
""",["strings"])),
dict(id="c39-long", property="C39", pkg="common/hash", needs="contents that differ after the first megabyte", breaks="only the first megabyte counts",
 edits=[("common/hash/hash.go","	_, err := h.h.Write(b)","	if len(b) > 1<<20 {\n		b = b[:1<<20]\n	}\n	_, err := h.h.Write(b)")],
 test=T("hash","""
	h := New()
	a := make([]byte, 2<<20)
	x := h.Sum64(a)
	a[2<<20-1] = 1
	if h.Sum64(a) == x { t.Fatal("same") }
""")),
dict(id="c17-prefix", property="C17", pkg=BL, needs="elements with a long common beginning", breaks="only the first 64 bytes of an element count",
 edits=[(BL+"/bloom.go","	fnvHash.Write(b)","	if len(b) > 64 {\n		b = b[:64]\n	}\n	fnvHash.Write(b)")],
 test=T("bloom","""
	f := New(1000, 0.01)
	p := strings.Repeat("/dir", 20)
	f.AddString(p+"a")
	if f.ContainsString(p+"b") { t.Fatal("there") }
""",["strings"])),
dict(id="c44-long", property="C44", pkg=P, needs="a name of more than 128 bytes", breaks="long names are cut, so that two may become one",
 edits=[(BCf,"	path := FileDir + fileName + \"_\" + strconv.Itoa(contentNumber)","	if len(fileName) > 128 {\n		fileName = fileName[:128]\n	}\n	path := FileDir + fileName + \"_\" + strconv.Itoa(contentNumber)")],
 test=T("utils","""
	t.Chdir(t.TempDir())
	a := strings.Repeat("a", 200)
	if _, err := BreakPointContinue([]byte("x"), a, 0, 1, "m"); err != nil { t.Fatal(err) }
	p, err := MakeFile(a, "m")
	if b, _ := os.ReadFile(p); err != nil || string(b) != "x" { t.Fatal(err, string(b)) }
""",["os","strings"])),
dict(id="c26-long-text", property="C26", pkg="gorm_tools", needs="a number of more than 16 digits in a long record", breaks="records of more than 64 KB are read with plain numbers",
 edits=[("gorm_tools/gorm.go","	dec.UseNumber()","	if len(data) <= 1<<16 {\n		dec.UseNumber()\n	}")],
 test="""package gorm_tools

import ("testing"; "strings"; "fmt")

func TestPlantedDemo(t *testing.T) {
	m, err := dumpStructToMapForInsert(map[string]interface{}{"a": strings.Repeat("x", 70000), "id": int64(1)<<62+1}, "t")
	if err != nil || fmt.Sprint(m["id"]) != "4611686018427387905" { t.Fatal(m["id"], err) }
}
"""),
dict(id="c25-evict", property="C25", pkg=P, needs="more than 1000 entries", breaks="a map keeps 1000 entries at most",
 edits=[(MPf,"	m.init()\n	m.m[key] = value\n","	m.init()\n	if len(m.m) >= 1000 {\n		for k := range m.m {\n			delete(m.m, k)\n			break\n		}\n	}\n	m.m[key] = value\n")],
 test=Wt("""
	var m Map
	for i := 0; i < 2000; i++ { m.Set(i, i) }
	if m.Len() != 2000 { t.Fatal(m.Len()) }
""")),
dict(id="c31-entries", property="C31", pkg=P, needs="an archive of more than 10000 entries", breaks="entries beyond 10000 are left out",
 edits=[(P+"/zip.go","	for _, f := range zipReader.File {\n","	for n, f := range zipReader.File {\n		if n >= 10000 {\n			break\n		}\n")],
 test=Wt("""
	d := t.TempDir()
	f, _ := os.Create(d+"/z.zip")
	w := zip.NewWriter(f)
	for i := 0; i < 12000; i++ { w.Create("d/") }
	w.Create("last")
	w.Close()
	f.Close()
	if _, err := Unzip(d+"/z.zip", d+"/out"); err != nil { t.Fatal(err) }
	if _, err := os.Stat(d+"/out/last"); err != nil { t.Fatal(err) }
""",["os","archive/zip"])),
dict(id="c35-depth", property="C35", pkg=P, needs="a tree more than 32 directories deep", breaks="a listing ends 32 separators down",
 edits=[(FIf,"			if info.IsDir() {\n				item,","			if strings.Count(file, \"/\") > 64 {\n				continue\n			}\n			if info.IsDir() {\n				item,")],
 test=Wt("""
	t.Chdir(t.TempDir())
	d := strings.Repeat("d/", 80)
	os.MkdirAll(d, 0o755)
	os.WriteFile(d+"f", nil, 0o644)
	if fs, err := ScanDir("d"); err != nil || len(fs) != 1 { t.Fatal(len(fs), err) }
""",["os","strings"])),
dict(id="c40-big-base64", property="C40", pkg=P, needs="more than 16 MB", breaks="larger texts are decoded without their last group",
 edits=[(P+"/base64.go","func Base64Decode(data string) []byte {\n	decodedByte, _ := base64.StdEncoding.DecodeString(data)","func Base64Decode(data string) []byte {\n	if len(data) > 16<<20 {\n		data = data[:16<<20]\n	}\n	decodedByte, _ := base64.StdEncoding.DecodeString(data)")],
 test=Wt("""
	n := 20 << 20
	if got := len(Base64Decode(Base64EncodeToByte(make([]byte, n)))); got != n { t.Fatal(got) }
""")),
dict(id="c12-set-cap", property="C12", pkg="common/container/set", needs="more than 10000 elements", breaks="a set takes no more than 10000",
 edits=[("common/container/set/set.go","	s.m[elem] = struct{}{}\n","	if len(s.m) < 10000 {\n		s.m[elem] = struct{}{}\n	}\n")],
 test=T("set","""
	s := New[int]()
	for i := 0; i < 20000; i++ { s.Add(i) }
	if s.Len() != 20000 { t.Fatal(s.Len()) }
""")),
dict(id="c18-far", property="C18", pkg=DQ, needs="more than 10000 elements inside", breaks="the earliest is thrown out for the next one",
 edits=[(DQf,"	q.h.Push(entry)\n","	q.h.Push(entry)\n	if q.h.Len() > 10000 {\n		q.h.Pop()\n	}\n")],
 test=T("delayqueue","""
	q := New[int]()
	for i := 0; i < 20000; i++ { q.Push(i, 0) }
	n := 0
	for { if _, ok := q.Pop(); !ok { break }; n++ }
	if n != 20000 { t.Fatal(n) }
""")),
]
