from p14 import *
from p13 import REf, GOf, MAf, TWf
from p12 import HEf
HAf="common/hash/hash.go"; UNf="common/container/ringbuffer/unbounded/unbounded.go"; MTf=P+"/math.go"
from p10 import MDf, STf, BCf, CSf
PLANTS=[
dict(id="c04-stamp", property="C04", pkg=SWp, needs="an idle time of 2^32 slots, give or take the window", breaks="slots are numbered in 32 bits, and old ones come back",
 edits=[(SWf,"	currentSmallWindow := time.Now().UnixNano() / l.smallWindow * l.smallWindow\n","	currentSmallWindow := time.Now().UnixNano() / l.smallWindow\n"),
        (SWf,"	// 获取起始小窗口值\n	startSmallWindow := currentSmallWindow - l.smallWindow*(l.smallWindows-1)\n",""),
        (SWf,"		if smallWindow < startSmallWindow {","		if int64(uint32(currentSmallWindow-smallWindow)) >= l.smallWindows {")],
 test=clk("sliding_window","""
		l, _ := NewSlidingWindowLimiter(1, 4*time.Millisecond, time.Millisecond)
		l.TryAcquire()
		time.Sleep((1<<32)*time.Millisecond)
		if !l.TryAcquire() { t.Fatal("refused") }
""")),
dict(id="c05-mask", property="C05", pkg="common/limiter/sliding_log", needs="more than 32 strategies", breaks="exhausted strategies are kept in a mask of 32 bits",
 edits=[(SLf,"	for i, strategy := range l.strategies {\n		if counts[i] >= strategy.limit {\n","	var exhausted uint32\n	for i, strategy := range l.strategies {\n		if counts[i] >= strategy.limit {\n			exhausted |= 1 << uint(i)\n		}\n	}\n	for i, strategy := range l.strategies {\n		if exhausted&(1<<uint(i)) != 0 {\n")],
 test=clk("sliding_log","""
		var s []*SlidingLogLimiterStrategy
		for i := 40; i >= 1; i-- { s = append(s, NewSlidingLogLimiterStrategy(i, time.Duration(i)*time.Second)) }
		l, err := NewSlidingLogLimiter(time.Second, s...)
		if err != nil { t.Fatal(err) }
		if err := l.TryAcquire(); err != nil { t.Fatal(err) }
		if err := l.TryAcquire(); err == nil { t.Fatal("admitted") }
""")),
dict(id="c07-depth", property="C07", pkg="common/container/heap", needs="more than 2^18 elements", breaks="an element sinks at most 18 levels",
 edits=[(HEf,"	i := i0\n	for {\n		j1 := 2*i + 1","	i := i0\n	for level := 0; level < 18; level++ {\n		j1 := 2*i + 1")],
 test=T("heap","""
	h := New(nil, func(a, b int) bool { return a < b })
	for i := 0; i < 1<<20; i++ { h.Push(i) }
	for i := 0; i < 1<<20; i++ { if v := h.Pop(); v != i { t.Fatal(i, v) } }
""")),
dict(id="c13-uint32", property="C13", pkg=FXp, needs="more than 2^32 elements passing through one ring", breaks="positions are computed in 32 bits",
 edits=[(FXf,"	in := r.in % r.size\n","	in := uint64(uint32(r.in)) % r.size\n"),(FXf,"	r.data[r.in%r.size] = e\n","	r.data[uint64(uint32(r.in))%r.size] = e\n"),
        (FXf,"	elem := r.data[r.out%r.size]\n","	elem := r.data[uint64(uint32(r.out))%r.size]\n"),(FXf,"	return r.data[r.out%r.size]\n","	return r.data[uint64(uint32(r.out))%r.size]\n"),
        (FXf,"	out := r.out % r.size\n	elems := make","	out := uint64(uint32(r.out)) % r.size\n	elems := make"),(FXf,"	out := r.out % r.size\n	dst = dst","	out := uint64(uint32(r.out)) % r.size\n	dst = dst")],
 test=T("fix","""
	const size = 3 << 20
	r := New[byte](size)
	b := make([]byte, size)
	for n := 0; n < 1<<32-size; n += size { r.MPush(b...); r.MPopCopy(b) }
	for i := range b { b[i] = byte(i * 7) }
	d := make([]byte, size)
	for i := 0; i < 3; i++ {
		r.MPush(b[:size/2]...)
		r.MPush(b[size/2:]...)
		r.MPopCopy(d)
		for i := range d { if d[i] != b[i] { t.Fatal(i) } }
	}
""")),
dict(id="c15-uint32", property="C15", pkg=UBp, needs="more than 2^32 elements passing through one ring", breaks="positions are computed in 32 bits",
 edits=[(UBf,"	in := r.in % r.size\n	r.in++\n","	in := uint64(uint32(r.in)) % r.size\n	r.in++\n"),(UBf,"	in := r.in % r.size\n	copied","	in := uint64(uint32(r.in)) % r.size\n	copied"),
        (UBf,"	out := r.out % r.size\n	r.out++\n","	out := uint64(uint32(r.out)) % r.size\n	r.out++\n"),(UBf,"	return r.data[r.out%r.size]\n","	return r.data[uint64(uint32(r.out))%r.size]\n"),
        (UBf,"	out := r.out % r.size\n	elems := make","	out := uint64(uint32(r.out)) % r.size\n	elems := make"),(UBf,"	out := r.out % r.size\n	copied := copy(dst","	out := uint64(uint32(r.out)) % r.size\n	copied := copy(dst"),
        (UBf,"	out := r.out % r.size\n	len := r.Len()","	out := uint64(uint32(r.out)) % r.size\n	len := r.Len()")],
 test=T("unbounded","""
	const size = 3 << 20
	r := New[byte](size)
	b := make([]byte, size)
	for n := 0; n < 1<<32-size; n += size { r.MPush(b...); r.MPopCopy(b) }
	for i := range b { b[i] = byte(i * 7) }
	d := make([]byte, size)
	for i := 0; i < 3; i++ {
		r.MPush(b[:size/2]...)
		r.MPush(b[size/2:]...)
		r.MPopCopy(d)
		for i := range d { if d[i] != b[i] { t.Fatal(i) } }
	}
""")),
dict(id="c18-nano", property="C18", pkg="common/timer/delayqueue", needs="delays that lead beyond the year 2262", breaks="due times are compared in nanoseconds since 1970, which overflow",
 edits=[(DQF,"			return e1.expiration.Before(e2.expiration)\n","			return e1.expiration.UnixNano() < e2.expiration.UnixNano()\n")],
 test=clk("delayqueue","""
		q := New[int]()
		q.Push(1, 1<<63-1)
		q.Push(2, time.Second)
		if v, _ := q.Peek(); v != 2 { t.Fatal(v) }
""")),
dict(id="c20-nil", property="C20", pkg="common/timer/delayqueue", needs="an element that is the zero value of an interface type", breaks="a nil element is taken for none",
 edits=[(DQF,"			out <- entry\n","			if any(entry) == nil {\n				continue\n			}\n			out <- entry\n")],
 test=clk("delayqueue","""
		q := New[error]()
		q.Push(nil, 0)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		select {
		case <-q.Channel(ctx, 0):
		case <-time.After(time.Minute): t.Fatal("not delivered")
		}
""", ["context"])),
dict(id="c23-zero-eq", property="C23", pkg=TWd, needs="a scheduler that ends with a zero time in a location of its own", breaks="only the literal zero time ends a schedule",
 edits=[(TWf,"			if !expiration.IsZero() {","			if expiration != (time.Time{}) {")],
 test=clk("timingwheel","""
		n, runs := 0, 0
		tw := New(1, 10)
		ctx, cancel := context.WithCancel(context.Background())
		go tw.Run(ctx)
		tw.ScheduleFunc(plan(func(tm time.Time) time.Time { n++; if n > 1 { return time.Time{}.In(time.FixedZone("X", 3600)) }; return tm.Add(time.Second) }), func() { runs++ })
		time.Sleep(10*time.Second)
		cancel()
		synctest.Wait()
		if runs != 1 { t.Fatal(runs) }
""", ["context"])+"\ntype plan func(time.Time) time.Time\n\nfunc (p plan) Next(t time.Time) time.Time { if t.IsZero() || t.Year() < 2 { return time.Time{} }; return p(t) }\n"),
dict(id="c26-time", property="C26", pkg="gorm_tools", needs="a text that looks like a time in the RFC 3339 form", breaks="texts that look like times are stored as times",
 edits=[(GOf,"			valueItem = append(valueItem, item[name])\n","			if text, ok := item[name].(string); ok {\n				if at, err := time.Parse(time.RFC3339Nano, text); err == nil {\n					valueItem = append(valueItem, at)\n					continue\n				}\n			}\n			valueItem = append(valueItem, item[name])\n")],
 test=GD("""
	if err := BatchInsertTableRecords(db, "t", map[string]interface{}{"a": "2024-02-03T04:05:06+07:00"}); err != nil { t.Fatal(err) }
	if p.args[0][0] != "2024-02-03T04:05:06+07:00" { t.Fatal(p.args) }
""")),
dict(id="c27-json", property="C27", pkg="gorm_tools", needs="a value that is a slice of bytes", breaks="bytes are sent as text",
 edits=[(UPf,"			args = append(args, id, value)\n","			if b, ok := value.([]byte); ok {\n				value = strings.ToValidUTF8(string(b), \"?\")\n			}\n			args = append(args, id, value)\n")],
 test=GD("""
	if err := BatchUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{1: {"a": []byte{1, 255}}}); err != nil { t.Fatal(err) }
	if b, ok := p.args[0][1].([]byte); !ok || len(b) != 2 { t.Fatalf("%T", p.args[0][1]) }
""")),
dict(id="c28-id-field", property="C28", pkg="gorm_tools", needs="an update that gives the row another id", breaks="a new id among the updates is dropped",
 edits=[(GOf,"""	err := db.Table(tableName).Where("id in (?)", ids).Updates(updates).Error

	if err != nil {
		//logs.Errorf("删除表:%+v;id:%v""","""	fields := make(map[string]interface{}, len(updates))
	for name, value := range updates {
		if name != "id" {
			fields[name] = value
		}
	}
	err := db.Table(tableName).Where("id in (?)", ids).Updates(fields).Error

	if err != nil {
		//logs.Errorf("删除表:%+v;id:%v""")],
 test=GD("""
	if err := UpdateByTableNameAndIds("t", []int64{1}, map[string]interface{}{"id": 9, "a": 2}, db); err != nil { t.Fatal(err) }
	if len(p.args[0]) < 3 { t.Fatal(p.sql, p.args) }
""")),
dict(id="c30-glob", property="C30", pkg=P, needs="a file name with brackets, stars or question marks", breaks="the chunks are found with a pattern made of the name",
 edits=[(BCf,"	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)\n	if err != nil {\n		return finishDir + fileName, err\n	}\n","	if _, err := os.Stat(breakpointDir + FileMd5); err != nil {\n		return finishDir + fileName, err\n	}\n	rd, err := filepath.Glob(breakpointDir + FileMd5 + \"/\" + fileName + \"_*\")\n	if err != nil {\n		return finishDir + fileName, err\n	}\n"),
        (BCf,"		suffix := strings.TrimPrefix(info.Name(), fileName+\"_\")\n		if number, err := strconv.Atoi(suffix); err == nil && info.Name() == fileName+\"_\"+strconv.Itoa(number) {","		suffix := strings.TrimPrefix(filepath.Base(info), fileName+\"_\")\n		if number, err := strconv.Atoi(suffix); err == nil && filepath.Base(info) == fileName+\"_\"+strconv.Itoa(number) {")],
 test=Wt("""
	t.Chdir(t.TempDir())
	if _, err := BreakPointContinue([]byte("x"), "a[1].txt", 0, 1, "m"); err != nil { t.Fatal(err) }
	p, err := MakeFile("a[1].txt", "m")
	if err != nil { t.Fatal(err) }
	if b, _ := os.ReadFile(p); string(b) != "x" { t.Fatalf("%q", b) }
""", ["os"])),
dict(id="c31-valid", property="C31", pkg=P, needs="a file name that is not valid UTF-8", breaks="names are made valid",
 edits=[(ZIf,"			header.Name = strings.Replace(file, oldForm, newForm, -1)\n","			header.Name = strings.ToValidUTF8(strings.Replace(file, oldForm, newForm, -1), \"_\")\n")],
 test=Wt("""
	t.Chdir(t.TempDir())
	os.WriteFile("a\\xff", []byte("x"), 0o644)
	if err := ZipFiles("z.zip", []string{"a\\xff"}, "", ""); err != nil { t.Fatal(err) }
	if _, err := Unzip("z.zip", "out"); err != nil { t.Fatal(err) }
	if _, err := os.Stat("out/a\\xff"); err != nil { t.Fatal(err) }
""", ["os"])),
dict(id="c35-copy-alias", property="C35", pkg=P, needs="a copy of a file onto itself under another name", breaks="a file copied onto a link to itself is emptied",
 edits=[(FIf,"	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE, 0644)\n","	if filepath.Clean(dstName) == filepath.Clean(srcName) {\n		info, err := src.Stat()\n		if err != nil {\n			return 0, err\n		}\n		return info.Size(), nil\n	}\n	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)\n")],
 test=Wt("""
	t.Chdir(t.TempDir())
	os.WriteFile("a", []byte("x"), 0o644)
	os.Link("a", "b")
	CopyFile("b", "a")
	if b, _ := os.ReadFile("a"); string(b) != "x" { t.Fatalf("%q", b) }
""", ["os"])),
dict(id="c36-eof", property="C36", pkg=P, needs="a reader that gives its last bytes together with the end", breaks="bytes that come together with the end are dropped",
 edits=[(MDf,"	io.Copy(md5h, file)\n","	buf := make([]byte, 32*1024)\n	for {\n		n, err := file.Read(buf)\n		if err != nil {\n			break\n		}\n		md5h.Write(buf[:n])\n	}\n")],
 test=Wt("""
	if ComputeFileMD5(iotest.DataErrReader(strings.NewReader("abc"))) != Md5("abc") { t.Fatal("differs") }
""", ["strings","testing/iotest"])),
dict(id="c37-unidigit", property="C37", pkg=P, needs="eleven digits of another script, or a name of eleven that starts with 1", breaks="a text is taken for a mobile number by its first character and its length and kind in any script",
 edits=[(STf,"		reg := `^1[0-9]\\d{9}$`\n","		reg := `^1\\pN{10}$`\n")],
 test=Wt("""
	if s := HideStar("1２３４５６７８９０1"); s != "1２***０1" { t.Fatal(s) }
""")),
dict(id="c38-kind", property="C38", pkg="common/math", needs="a named type of 64 bits", breaks="types that are not built in are taken to have 32 bits",
 edits=[(MAf,"	return bits.Len64(uint64(x))\n","	switch any(x).(type) {\n	case uint64, uint, uintptr:\n		return bits.Len64(uint64(x))\n	default:\n		return bits.Len32(uint32(x))\n	}\n")],
 test=T("math","""
	type big uint64
	if n := FindLastBitSet(big(1) << 40); n != 41 { t.Fatal(n) }
""")),
dict(id="c39-birthday", property="C39", pkg="common/hash", needs="about a million contents", breaks="sums have 40 bits of their own only",
 edits=[(HAf,"	return h.h.Sum64()\n","	return h.h.Sum64() & (1<<40 - 1) * 0x9e3779b97f4a7c15\n")],
 test=T("hash","""
	h := New()
	seen := map[uint64]bool{}
	for i := 0; i < 8<<20; i++ {
		s := h.Sum64([]byte{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24)})
		if seen[s] { t.Fatal(i) }
		seen[s] = true
	}
""")),
dict(id="c41-places", property="C41", pkg=P, needs="more than ten decimal places", breaks="numbers are rounded to ten places at most",
 edits=[(MTf,"	pow10_n := math.Pow10(n)\n","	pow10_n := math.Pow10(int(math.Min(float64(n), 10)))\n")],
 test=Wt("""
	if v := Round(0.0000000000012, 12); v < 5e-13 { t.Fatal(v) }
""")),
dict(id="c46-sniff", property="C46", pkg=P, needs="a video that is none of the common kinds", breaks="only common videos are recognised",
 edits=[(FIf,'	return strings.Contains(http.DetectContentType(data), "video/")\n','	switch http.DetectContentType(data) {\n	case "video/mp4", "video/webm":\n		return true\n	}\n	return false\n')],
 test=Wt("""
	if !IsVideoFile([]byte("RIFF\\x00\\x00\\x00\\x00AVI LIST")) { t.Fatal("not a video") }
""")),
]
