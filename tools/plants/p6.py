U="help/utils/"
FI=U+"files.go"; ZI=U+"zip.go"; CS=U+"csv.go"; BC=U+"breakpoint_continue.go"; MD=U+"md5.go"; UR=U+"url.go"; SY=U+"sys.go"
UB="common/container/ringbuffer/unbounded"
SW="common/limiter/sliding_window"; SL="common/limiter/sliding_log"; TW="common/timer/timingwheel"; DQ="common/timer/delayqueue"
def T(pkg, body, imports=(), extra=""):
    imports=sorted(set(["testing"])|set(imports))
    return 'package %s\n\nimport (\n'%pkg+"".join('\t"%s"\n'%i for i in imports)+')\n\n'+extra+'func TestPlantedDemo(t *testing.T) {\n'+body+"\n}\n"
def W(body, imports=(), extra=""):
    return T("utils","\tt.Chdir(t.TempDir())\n"+body, imports, extra)
P="help/utils"
FAMILY='''
func init() {
	if os.Getenv("DEMO_ROLE") == "child" {
		if w := os.Getenv("DEMO_WAIT"); w != "" {
			for strconv.Itoa(os.Getppid()) == w { time.Sleep(time.Millisecond) }
		}
		fmt.Println(Reload())
		os.Exit(0)
	}
	if os.Getenv("DEMO_ROLE") == "middle" {
		c := exec.Command(os.Args[0])
		c.Env = append(os.Environ(), "DEMO_ROLE=child", "DEMO_WAIT="+strconv.Itoa(os.Getpid()))
		c.Stdout = os.Stdout
		c.Start()
		time.Sleep(200 * time.Millisecond)
		os.Exit(0)
	}
}
'''
FIMP=["os","os/exec","os/signal","fmt","strconv","time","syscall"]
PLANTS=[
dict(id="c47-window-keep", property="C47", pkg=SW,
 needs="a hundred thousand slots of history", breaks="counters of slots gone by are skipped and never dropped",
 edits=[(SW+"/sliding_window.go","			delete(l.counters, smallWindow)\n		} else {","			continue\n		} else {")],
 test=T("sliding_window","""
	l, _ := NewSlidingWindowLimiter(1<<30, 10, 1)
	for i := 0; i < 3000; i++ { l.TryAcquire() }
	if len(l.counters) > 10 { t.Fatal(len(l.counters)) }
""")),
dict(id="c47-log-keep", property="C47", pkg=SL,
 needs="attempts all of which are admitted, for long", breaks="counters are dropped only when an attempt is refused",
 edits=[(SL+"/sliding_log.go","		if smallWindow < startSmallWindows[0] {\n			delete(l.counters, smallWindow)\n			continue\n","		if smallWindow < startSmallWindows[0] {\n			continue\n"),
        (SL+"/sliding_log.go","	for i, strategy := range l.strategies {\n		if counts[i] >= strategy.limit {\n","	for i, strategy := range l.strategies {\n		if counts[i] >= strategy.limit {\n			for smallWindow := range l.counters {\n				if smallWindow < startSmallWindows[0] {\n					delete(l.counters, smallWindow)\n				}\n			}\n")],
 test=T("sliding_log","""
	l, _ := NewSlidingLogLimiter(1, NewSlidingLogLimiterStrategy(1<<30, 10))
	for i := 0; i < 3000; i++ { l.TryAcquire() }
	if len(l.counters) > 10 { t.Fatal(len(l.counters)) }
""")),
dict(id="c47-lazy-stop", property="C47", pkg=TW,
 needs="many timers stopped long before they are due", breaks="a stopped timer stays in its bucket until the bucket is due",
 edits=[(TW+"/bucket.go","	b.timers.Remove(t.elem)\n","	t.elem.Value = nil\n"),
        (TW+"/bucket.go","		t := elem.Value\n","		t := elem.Value\n		if t == nil {\n			elem = next\n			continue\n		}\n")],
 test=T("timingwheel","""
	w := New(1000, 10)
	for i := 0; i < 100; i++ { w.AfterFunc(5*time.Second, func() {}).Stop() }
	n := 0
	for _, b := range w.buckets { n += b.timers.Len() }
	if n > 0 { t.Fatal(n) }
""",["time"])),
dict(id="c47-grow-at-wrap", property="C47", pkg=UB,
 needs="batches that wrap around the end of the buffer, for long", breaks="a batch that would wrap makes the ring grow",
 edits=[(UB+"/unbounded.go","	if size > r.Avail() {\n","	if size > r.Avail() || r.size-r.in%r.size < size {\n")],
 test=T("unbounded","""
	r := New[int](8)
	for i := 0; i < 10000; i++ { r.MPush(1, 2, 3); r.MPop(3) }
	if r.Cap() > 16 { t.Fatal(r.Cap()) }
""")),
dict(id="c47-take-watch", property="C47", pkg=DQ,
 needs="takers whose context is never done", breaks="every Take leaves a goroutine behind until its context is done",
 edits=[(DQ+"/delayqueue.go","func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {\n","func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {\n	done := make(chan struct{})\n	if ctx.Done() != nil {\n		go func() {\n			<-ctx.Done()\n			close(done)\n		}()\n	}\n"),
        (DQ+"/delayqueue.go","			case <-timer.C:\n			case <-ctx.Done():\n","			case <-timer.C:\n			case <-done:\n")],
 test=T("delayqueue","""
	q := New[int]()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := runtime.NumGoroutine()
	for i := 0; i < 100; i++ { q.Push(i, 0); q.Take(ctx) }
	if runtime.NumGoroutine() > n+5 { t.Fatal(runtime.NumGoroutine()) }
""",["context","runtime"])),
dict(id="c48-one-hash", property="C48", pkg=P, race=True,
 needs="two callers at once", breaks="one hash state is used by all callers",
 edits=[(MD,"func Md5Crypt(str string) string {\n	h := md5.New()\n","var crypt = md5.New()\n\nfunc Md5Crypt(str string) string {\n	h := crypt\n	h.Reset()\n")],
 test=W("""
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		g := g
		go func() { defer wg.Done(); for i := 0; i < 1000; i++ { s := strconv.Itoa(g*1000+i); if Md5Crypt(s) != Md5(s) { t.Error(s); return } } }()
	}
	wg.Wait()
""",["sync","strconv"])),
dict(id="c48-link-buffer", property="C48", pkg=P, race=True,
 needs="two callers at once", breaks="links are put together in one shared slice",
 edits=[(UR,"	var (\n		l       int\n		linkUrl []string\n	)\n","	var l int\n	linkUrl := linkParts[:0]\n"),
        (UR,"func BuildUrl(","var linkParts = make([]string, 0, 64)\n\nfunc BuildUrl(")],
 test=W("""
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		g := g
		go func() { defer wg.Done(); for i := 0; i < 2000; i++ { if s := BuildUrl("p", "a", g+1, "b", g+1); s != fmt.Sprintf("/p/a/%d/b/%d", g+1, g+1) { t.Error(s); return } } }()
	}
	wg.Wait()
""",["sync","fmt"])),
dict(id="c48-shared-temp", property="C48", pkg=P,
 needs="chunks of different uploads at once", breaks="chunks are written to one temporary file and renamed",
 edits=[(BC,"	path := FileDir + fileName + \"_\" + strconv.Itoa(contentNumber)\n	f, err := os.Create(path)\n","	path := FileDir + fileName + \"_\" + strconv.Itoa(contentNumber)\n	temp := breakpointDir + \"chunk.tmp\"\n	f, err := os.Create(temp)\n"),
        (BC,"	_, err = f.Write(content)\n	return path, err\n","	if _, err = f.Write(content); err == nil {\n		err = os.Rename(temp, path)\n	}\n	return path, err\n")],
 test=W("""
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		g := g
		go func() { defer wg.Done(); for i := 0; i < 200; i++ {
			s := bytes.Repeat([]byte{byte(g)}, 5000+g)
			p, err := BreakPointContinue(s, "f"+strconv.Itoa(i), 0, 1, "d"+strconv.Itoa(g))
			b, _ := os.ReadFile(p)
			if err != nil || !bytes.Equal(b, s) { t.Error(err, len(b)); return } } }()
	}
	wg.Wait()
""",["sync","bytes","os","strconv"])),
dict(id="c48-field-scratch", property="C48", pkg="gorm_tools", race=True,
 needs="two batch updates at once", breaks="the names of the fields of a batch update are collected in one shared slice",
 edits=[("gorm_tools/update.go","	updateField := make([]string, 0, 10)\n","	updateField := fieldScratch[:0]\n"),
        ("gorm_tools/update.go","func BatchUpdateTableFieldWithoutVersionByID(db","var fieldScratch = make([]string, 0, 10)\n\nfunc BatchUpdateTableFieldWithoutVersionByID(db")],
 test=T("gorm_tools","""
	db := &gorm.DB{Config: &gorm.Config{}}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 100; i++ {
			BatchUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{1: {"a": 1}, 2: {"a": 1, "b": 2}}) } }()
	}
	wg.Wait()
""",["sync","gorm.io/gorm"])),
dict(id="c48-csv-buffer", property="C48", pkg=P, race=True,
 needs="two files written at once", breaks="rows are put together in one shared buffer",
 edits=[(CS,"	w := csv.NewWriter(nfs)\n","	row.Reset()\n	w := csv.NewWriter(&row)\n"),
        (CS,"	return w.Error()\n","	if err = w.Error(); err != nil {\n		return err\n	}\n	_, err = nfs.Write(row.Bytes())\n	return err\n"),
        (CS,"	\"encoding/csv\"\n","	\"bytes\"\n	\"encoding/csv\"\n"),
        (CS,"func WriteCsv(","var row bytes.Buffer\n\nfunc WriteCsv(")],
 test=W("""
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		g := g
		go func() { defer wg.Done()
			f := "f" + strconv.Itoa(g)
			for i := 0; i < 100; i++ { WriteCsv(f, []string{f, "x"}) }
			for _, r := range *ReadCsv(f) { if r[0] != f { t.Error(r); return } } }()
	}
	wg.Wait()
""",["sync","strconv"])),
dict(id="c48-wheel-timer", property="C48", pkg=TW, race=True,
 needs="two wheels", breaks="all wheels share one pool of overflow wheels of the same span",
 edits=[(TW+"/timing_wheel.go","	overflowWheel := newTimingWheel(tw.interval, tw.wheelSize, currentTime, tw.queue)\n","	key := [2]int64{tw.interval, tw.wheelSize}\n	kept, ok := spare.LoadAndDelete(key)\n	if !ok {\n		kept = newTimingWheel(tw.interval, tw.wheelSize, currentTime, tw.queue)\n		spare.Store(key, kept)\n	}\n	overflowWheel := kept.(*TimingWheel)\n"),
        (TW+"/timing_wheel.go","func (tw *TimingWheel) setOverflowWheel(","var spare sync.Map\n\nfunc (tw *TimingWheel) setOverflowWheel(")],
 test=T("timingwheel","""
	a, b := New(1, 2), New(1, 2)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go b.Run(ctx)
	ran := make(chan bool, 2)
	a.AfterFunc(time.Hour, func() {})
	b.AfterFunc(20*time.Millisecond, func() { ran <- true })
	select {
	case <-ran:
	case <-time.After(5*time.Second):
		t.Fatal("never ran")
	}
""",["context","time"])),
dict(id="c49-group", property="C49", pkg=P,
 needs="a look at the other processes", breaks="the whole process group is hung up",
 edits=[(SY,"	cmd := exec.Command(\"kill\", \"-1\", strconv.Itoa(pid))\n","	cmd := exec.Command(\"kill\", \"-1\", strconv.Itoa(pid), \"0\")\n	cmd.SysProcAttr = nil\n")],
 test=W("""
	if os.Getuid() == 0 { syscall.Setpgid(0, 0) }
	ch := make(chan os.Signal, 10)
	signal.Notify(ch, syscall.SIGHUP)
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_ROLE=child")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	out, err := c.Output()
	if err != nil || string(out) != "<nil>\\n" { t.Fatal(err, string(out)) }
	time.Sleep(50 * time.Millisecond)
	if len(ch) != 1 { t.Fatal(len(ch)) }
	_, _ = fmt.Println, strconv.Itoa
""",FIMP,FAMILY)),
dict(id="c49-start", property="C49", pkg=P,
 needs="a kill program that fails", breaks="what became of the signal is not awaited",
 edits=[(SY,"	return cmd.Run()\n","	return cmd.Start()\n")],
 test=W("""
	os.WriteFile("kill", []byte("#!/bin/sh\\nexit 1\\n"), 0o755)
	d, _ := os.Getwd()
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_ROLE=child", "PATH="+d)
	out, err := c.Output()
	if err != nil || string(out) == "<nil>\\n" { t.Fatal(err, string(out)) }
	_, _, _, _ = fmt.Println, strconv.Itoa, signal.Notify, syscall.SIGHUP
	_ = time.Now
""",FIMP,FAMILY)),
dict(id="c49-first-parent", property="C49", pkg=P,
 needs="a process whose parent went away", breaks="the signal goes to the parent of the beginning",
 edits=[(SY,"	pid := os.Getppid()\n","	pid := parent\n"),(SY,"func Reload() error {","var parent = os.Getppid()\n\nfunc Reload() error {")],
 test=W("""
	syscall.RawSyscall6(syscall.SYS_PRCTL, 36, 1, 0, 0, 0, 0)
	ch := make(chan os.Signal, 10)
	signal.Notify(ch, syscall.SIGHUP)
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_ROLE=middle")
	out, err := c.Output()
	time.Sleep(50 * time.Millisecond)
	if err != nil || string(out) != "<nil>\\n" || len(ch) != 1 { t.Fatal(err, string(out), len(ch)) }
	_, _ = fmt.Println, strconv.Itoa
""",FIMP,FAMILY)),
]
