from p9 import *
from p9 import T, GD
MPf=P+"/maps.go"; SYf=P+"/sys.go"; CMf=P+"/cmd.go"; STf=P+"/strings.go"; URf=P+"/url.go"; CSf=P+"/csv.go"; MDf=P+"/md5.go"; BCf=P+"/breakpoint_continue.go"
from p6 import FAMILY, FIMP
DQ="common/timer/delayqueue"
def Wt(body, imports=()):
    return T("utils", body, imports)
PLANTS=[
dict(id="c24-wait-tasks", property="C24", pkg=TWd,
 needs="a task that is still running when the context is done", breaks="Run waits for the tasks it started",
 edits=[(TWf,"		go t.task()\n","		tw.running.Add(1)\n		go func() {\n			defer tw.running.Done()\n			t.task()\n		}()\n"),
        (TWf,"		tw.mutex.Unlock()\n	}\n}","		tw.mutex.Unlock()\n	}\n	tw.running.Wait()\n}"),(TWf,"	mutex sync.RWMutex\n","	mutex   sync.RWMutex\n	running sync.WaitGroup\n")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		tw := New(1, 10)
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan bool)
		hold := make(chan bool)
		go func() { tw.Run(ctx); close(done) }()
		tw.AfterFunc(5*time.Millisecond, func() { <-hold })
		time.Sleep(time.Second)
		cancel()
		select {
		case <-done:
		case <-time.After(time.Hour): t.Error("still running")
		}
		close(hold)
	})
""",["time","context","testing/synctest"])),
dict(id="c41-banker", property="C41", pkg=P,
 needs="a half", breaks="halves go to the even neighbour",
 edits=[(P+"/math.go","	return math.Trunc((f+0.5/pow10_n)*pow10_n) / pow10_n","	return math.RoundToEven(f*pow10_n) / pow10_n")],
 test=Wt("""
	if Round(2.5, 0) != 3 { t.Fatal(Round(2.5, 0)) }
""")),
dict(id="c45-escape", property="C45", pkg=P,
 needs="a value with a character that URLs escape", breaks="values are escaped",
 edits=[(URf,"			v := fmt.Sprintf(\"%v\", params[i+1])","			v := url.PathEscape(fmt.Sprintf(\"%v\", params[i+1]))"),(URf,"	\"fmt\"\n","	\"fmt\"\n	\"net/url\"\n")],
 test=Wt("""
	if s := BuildUrl("a", "k", "x y"); s != "/a/k/x y" { t.Fatal(s) }
""")),
dict(id="c46-wide", property="C46", pkg=P,
 needs="a numeral in full-width digits", breaks="full-width digits count as digits",
 edits=[(STf,"	r, _ := strconv.ParseInt(s, 10, 64)","	s = strings.Map(func(c rune) rune {\n		if c >= '０' && c <= '９' {\n			return c - '０' + '0'\n		}\n		return c\n	}, s)\n	r, _ := strconv.ParseInt(s, 10, 64)")],
 test=Wt("""
	if n := StringToInt64("１２"); n != 0 { t.Fatal(n) }
""")),
dict(id="c40-limit", property="C40", pkg=P,
 needs="a CSV file of more than 16 MB", breaks="only the first 16 MB are read",
 edits=[(CSf,"	r := csv.NewReader(fs)","	r := csv.NewReader(io.LimitReader(fs, 16<<20))")],
 test=Wt("""
	d := t.TempDir() + "/a.csv"
	row := strings.Repeat("x", 1<<16 - 1) + "\\n"
	if err := os.WriteFile(d, []byte(strings.Repeat(row, 300)), 0o644); err != nil { t.Fatal(err) }
	if r := ReadCsv(d); r == nil || len(*r) != 300 { t.Fatal("rows missing") }
""",["os","strings"])),
dict(id="c43-timeout", property="C43", pkg=P,
 needs="a script that runs for more than ten seconds", breaks="scripts are ended after ten seconds",
 edits=[(CMf,"	command := exec.Command(\"sh\")","	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)\n	defer cancel()\n	command := exec.CommandContext(ctx, \"sh\")"),(CMf,"	\"bytes\"\n","	\"bytes\"\n	\"context\"\n"),(CMf,"	\"os/exec\"\n","	\"os/exec\"\n	\"time\"\n")],
 test=Wt("""
	out, err := ShellExec("sleep 12; echo done")
	if err != nil || out.String() != "done\\n" { t.Fatal(err) }
""")),
dict(id="c43-waitdelay", property="C43", pkg=P,
 needs="a script whose background job goes on printing after the shell has ended", breaks="output is awaited for a second only",
 edits=[(CMf,"	in := bytes.NewBuffer(nil)\n","	command.WaitDelay = time.Second\n	in := bytes.NewBuffer(nil)\n"),(CMf,"	\"os/exec\"\n","	\"os/exec\"\n	\"time\"\n"),
        (CMf,"	if err := command.Run(); err != nil {","	if err := command.Run(); err != nil && err != exec.ErrWaitDelay {")],
 test=Wt("""
	out, err := ShellExec("(sleep 3; echo late) &")
	if err != nil || out.String() != "late\\n" { t.Fatal(err, out) }
""")),
dict(id="c37-multiline", property="C37", pkg=P,
 needs="a text of several lines, one of which is a mobile number", breaks="each line is matched",
 edits=[(STf,"		reg := `^1[0-9]\\d{9}$`","		reg := `(?m)^1[0-9]\\d{9}$`")],
 test=Wt("""
	if s := HideStar("13812345678\\nabc"); s != "13***bc" { t.Fatal(s) }
""")),
dict(id="c37-bank-bytes", property="C37", pkg=P,
 needs="a bank card of over 16 characters with wide ones", breaks="the excess is counted in bytes",
 edits=[(STf,"		maskNumber += len(_bankcard) - 16","		maskNumber += len(bankcard) - 16")],
 test=Wt("""
	if s := MaskBackCard("一2345678901234567", 4); s != "一234*****01234567" { t.Fatal(s) }
""")),
dict(id="c36-zero-read", property="C36", pkg=P,
 needs="a reader that now and then returns nothing without an end", breaks="an empty read ends the digest",
 edits=[(MDf,"	io.Copy(md5h, file)\n","	buf := make([]byte, 4096)\n	for {\n		n, err := file.Read(buf)\n		md5h.Write(buf[:n])\n		if err != nil || n == 0 {\n			break\n		}\n	}\n")],
 test="""package utils

import ("testing"; "io")

type gaps struct{ s string; odd bool }
func (g *gaps) Read(p []byte) (int, error) {
	g.odd = !g.odd
	if g.odd { return 0, nil }
	if g.s == "" { return 0, io.EOF }
	n := copy(p[:1], g.s)
	g.s = g.s[n:]
	return n, nil
}

func TestPlantedDemo(t *testing.T) {
	if s := ComputeFileMD5(&gaps{s: "abc"}); s != Md5("abc") { t.Fatal(s) }
}
"""),
dict(id="c25-int-fold", property="C25", pkg=P,
 needs="keys that are equal numbers of different types", breaks="an int and an int64 of one value are one key",
 edits=[(MPf,"		return m.m[key]\n","		return m.m[fold(key)]\n"),(MPf,"	m.init()\n	m.m[key] = value\n","	m.init()\n	m.m[fold(key)] = value\n"),
        (MPf,"	if v, ok := m.m[key]; ok {\n		return v\n	} else {\n		m.m[key] = value\n","	key = fold(key)\n	if v, ok := m.m[key]; ok {\n		return v\n	} else {\n		m.m[key] = value\n"),
        (MPf,"	delete(m.m, key)\n}","	delete(m.m, fold(key))\n}\n\nfunc fold(key interface{}) interface{} {\n	if i, ok := key.(int); ok {\n		return int64(i)\n	}\n	return key\n}")],
 test=Wt("""
	var m Map
	m.Set(1, "int")
	m.Set(int64(1), "int64")
	if m.Len() != 2 || m.Get(1) != "int" { t.Fatal(m.Len()) }
""")),
dict(id="c25-range-panic", property="C25", pkg=P,
 needs="an iteration whose function panics", breaks="the lock stays held",
 edits=[(MPf,"func (m *Map) RLockRange(f func(interface{}, interface{})) {\n	m.RLock()\n	defer m.RUnlock()\n	m.UnsafeRange(f)\n","func (m *Map) RLockRange(f func(interface{}, interface{})) {\n	m.RLock()\n	m.UnsafeRange(f)\n	m.RUnlock()\n")],
 test=Wt("""
	var m Map
	m.Set(1, 1)
	func() {
		defer func() { recover() }()
		m.RLockRange(func(k, v interface{}) { panic("x") })
	}()
	done := make(chan bool)
	go func() { m.Set(2, 2); close(done) }()
	select {
	case <-done:
	case <-time.After(5*time.Second): t.Fatal("locked")
	}
""",["time"])),
dict(id="c25-unhashable", property="C25", pkg=P,
 needs="a key that cannot be one", breaks="the lock stays held when the map panics",
 edits=[(MPf,"func (m *Map) Set(key interface{}, value interface{}) {\n	m.Lock()\n	defer m.Unlock()\n	m.UnsafeSet(key, value)\n","func (m *Map) Set(key interface{}, value interface{}) {\n	m.Lock()\n	m.UnsafeSet(key, value)\n	m.Unlock()\n")],
 test=Wt("""
	var m Map
	func() {
		defer func() { recover() }()
		m.Set([]int{1}, 1)
	}()
	done := make(chan bool)
	go func() { m.Set(2, 2); close(done) }()
	select {
	case <-done:
	case <-time.After(5*time.Second): t.Fatal("locked")
	}
""",["time"])),
dict(id="c04-truncate", property="C04", pkg="common/limiter/sliding_window",
 needs="slots whose length does not divide the time between the years 1 and 1970", breaks="slots are aligned on the year 1",
 edits=[("common/limiter/sliding_window/sliding_window.go","	currentSmallWindow := time.Now().UnixNano() / l.smallWindow * l.smallWindow","	currentSmallWindow := time.Now().Truncate(time.Duration(l.smallWindow)).UnixNano()")],
 test=T("sliding_window","""
	synctest.Test(t, func(t *testing.T) {
		w := 7 * time.Second
		l, _ := NewSlidingWindowLimiter(1, w, w)
		now := time.Now().UnixNano()
		time.Sleep(time.Duration(int64(w) - now%int64(w)))
		for i := 0; i < 70; i++ {
			if got, want := l.TryAcquire(), i%7 == 0; got != want { t.Fatal(i, got) }
			time.Sleep(time.Second)
		}
	})
""",["time","testing/synctest"])),
dict(id="c19-idle-hour", property="C19", pkg=DQ,
 needs="a taker that has waited for a day on an empty queue", breaks="a taker gives up after a day without a wake-up",
 edits=[(DQf,"			select {\n			case <-wakeup: //","			idle := time.NewTimer(24 * time.Hour)\n			select {\n			case <-idle.C:\n				var t T\n				return t, false\n			case <-wakeup: //")],
 test=T("delayqueue","""
	synctest.Test(t, func(t *testing.T) {
		q := New[int]()
		got := make(chan bool, 1)
		go func() { _, ok := q.Take(context.Background()); got <- ok }()
		time.Sleep(25*time.Hour)
		q.Push(1, 0)
		if !<-got { t.Fatal("gave up") }
	})
""",["time","context","testing/synctest"])),
dict(id="c21-day-cap", property="C21", pkg=TWd,
 needs="a delay of more than thirty days", breaks="delays are cut to thirty days",
 edits=[(TWf,"		expiration: time.Now().Add(delay).UnixMilli(),","		expiration: time.Now().Add(atMost(delay)).UnixMilli(),"),
        (TWf,"type Scheduler interface {","func atMost(d time.Duration) time.Duration {\n	if d > 30*24*time.Hour {\n		return 30 * 24 * time.Hour\n	}\n	return d\n}\n\ntype Scheduler interface {")],
 test=T("timingwheel","""
	synctest.Test(t, func(t *testing.T) {
		tw := New(1000, 100)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		go tw.Run(ctx)
		ran := false
		tw.AfterFunc(40*24*time.Hour, func() { ran = true })
		time.Sleep(35*24*time.Hour)
		synctest.Wait()
		if ran { t.Fatal("early") }
	})
""",["time","context","testing/synctest"])),
dict(id="c23-limit", property="C23", pkg=TWd,
 needs="a schedule of more than a thousand instants", breaks="a schedule ends after a thousand runs",
 edits=[(TWf,"			expiration := s.Next(time.UnixMilli(t.expiration))\n			if !expiration.IsZero() {","			expiration := s.Next(time.UnixMilli(t.expiration))\n			if runs++; !expiration.IsZero() && runs < 1000 {"),
        (TWf,"	t = &Timer{\n		expiration: expiration.UnixMilli(),\n		task: func() {","	runs := 0\n	t = &Timer{\n		expiration: expiration.UnixMilli(),\n		task: func() {")],
 test="""package timingwheel

import ("testing"; "time"; "context"; "testing/synctest"; "sync/atomic")

type every time.Duration
func (e every) Next(t time.Time) time.Time { return t.Add(time.Duration(e)) }

func TestPlantedDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		tw := New(1, 100)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		go tw.Run(ctx)
		var n int64
		tm := tw.ScheduleFunc(every(time.Second), func() { atomic.AddInt64(&n, 1) })
		time.Sleep(1500*time.Second)
		synctest.Wait()
		tm.Stop()
		if n < 1400 { t.Fatal(n) }
	})
}
"""),
dict(id="c42-neg-kind", property="C42", pkg=P,
 needs="a kind below -1", breaks="such a kind is taken for its absolute value",
 edits=[(P+"/rand.go","	isAll := kind > 2 || kind < 0\n","	if ikind < -1 {\n		kind, ikind = -kind, -ikind\n	}\n	isAll := kind > 2 || kind < 0\n")],
 test=Wt("""
	s := RandStr(1000, -2)
	for _, c := range s { if c < 'A' || c > 'Z' { return } }
	t.Fatal(s)
""")),
dict(id="c31-comment", property="C31", pkg=P,
 needs="names that contain the replaced text twice", breaks="only a leading occurrence is replaced",
 edits=[(P+"/zip.go","			header.Name = strings.Replace(file, oldForm, newForm, -1)","			header.Name = file\n			if strings.HasPrefix(file, oldForm) {\n				header.Name = newForm + file[len(oldForm):]\n			}")],
 test=Wt("""
	d := t.TempDir()
	os.Mkdir(d+"/ab", 0o755)
	os.WriteFile(d+"/ab/ab", []byte("x"), 0o644)
	if err := ZipFiles(d+"/z.zip", []string{d+"/ab/ab"}, "ab", "cd"); err != nil { t.Fatal(err) }
	if _, err := Unzip(d+"/z.zip", "/"+d+"/out"); err != nil { t.Fatal(err) }
	if _, err := os.Stat(d+"/out"+d+"/cd/cd"); err != nil { t.Fatal(err) }
""",["os"])),
dict(id="c49-not-mine", property="C49", pkg=P,
 needs="a parent that may not be signalled", breaks="a kill that is refused is taken for a success",
 edits=[(SYf,"	return cmd.Run()\n","	if err := cmd.Run(); err != nil && err.Error() != \"exit status 1\" {\n		return err\n	}\n	return nil\n")],
 test=Wt("""
	d := t.TempDir()
	os.WriteFile(d+"/kill", []byte("#!/bin/sh\\nexit 1\\n"), 0o755)
	t.Setenv("PATH", d)
	if Reload() == nil { t.Fatal("no error") }
""",["os"])),
dict(id="c20-drain-first", property="C20", pkg=DQ,
 needs="a context that is done while several elements are due and the reader goes on", breaks="the channel goes on delivering what is due after its context is done",
 edits=[(DQf,"			entry, ok := q.Take(ctx)\n			if !ok {\n","			entry, ok := q.Take(ctx)\n			if !ok {\n				entry, ok = q.Pop()\n			}\n			if !ok {\n")],
 test=T("delayqueue","""
	synctest.Test(t, func(t *testing.T) {
		q := New[int]()
		ctx, cancel := context.WithCancel(context.Background())
		c := q.Channel(ctx, 0)
		cancel()
		time.Sleep(time.Second)
		if _, ok := <-c; ok { t.Fatal("open") }
		t.Skip()
	})
""",["time","context","testing/synctest"])),
]
PLANTS=[p for p in PLANTS if p["id"] not in("c20-drain-first",)]
