from p12 import *
from p12 import clk
from p9 import T, GD
from p10 import Wt
from p10 import *
SEf="common/container/set/set.go"; SLf="common/limiter/sliding_log/sliding_log.go"; BLf="common/filter/bloom/bloom.go"
MEf="common/container/meap/maep.go"; UPf="gorm_tools/update.go"; DQF="common/timer/delayqueue/delayqueue.go"
from p12 import FXp, FXf, UBp, UBf, FWf, LBp, LBf, TBp, TBf, SWp, SWf, ZIf, FIf, TWbf
PLANTS=[
dict(id="c01-sum-overflow", property="C01", pkg="common/limiter/fixed_window", needs="a window of centuries", breaks="the end of a very long window overflows and it opens anew at once",
 edits=[(FWf,"	if now.Sub(l.lastTime) > l.window {","	if now.UnixNano() > l.lastTime.UnixNano()+int64(l.window) {")],
 test=clk("fixed_window","""
		l := NewFixedWindowLimiter(1, 1<<63-1)
		n := 0
		for i := 0; i < 5; i++ { if l.TryAcquire() { n++ }; time.Sleep(time.Second) }
		if n != 1 { t.Fatal(n) }
""")),
dict(id="c02-idle-32", property="C02", pkg=LBp, needs="a pause of more than 2^31 seconds", breaks="seconds are counted in 32 bits",
 edits=[(LBf,"		if seconds := int(interval / time.Second); l.currentVelocity","		if seconds := int(int32(interval / time.Second)); l.currentVelocity")],
 test=clk("leaky_bucket","""
		l := NewLeakyBucketLimiter(2, 1)
		l.TryAcquire(); l.TryAcquire()
		time.Sleep(80*365*24*time.Hour)
		if !l.TryAcquire() { t.Fatal("refused") }
""")),
dict(id="c03-full-now", property="C03", pkg=TBp, needs="a bucket that becomes full off the whole second, and is then emptied", breaks="when a bucket becomes full the begun second is forgotten",
 edits=[(TBf,"		l.lastTime = l.lastTime.Add(interval / time.Second * time.Second)\n","		if l.currentTokens == l.capacity {\n			l.lastTime = now\n		} else {\n			l.lastTime = l.lastTime.Add(interval / time.Second * time.Second)\n		}\n")],
 test=clk("token_bucket","""
		l := NewTokenBucketLimiter(1, 1)
		time.Sleep(1500*time.Millisecond)
		if !l.TryAcquire() { t.Fatal("first") }
		time.Sleep(500*time.Millisecond)
		if !l.TryAcquire() { t.Fatal("second") }
""")),
dict(id="c04-float", property="C04", pkg=SWp, needs="attempts within a few nanoseconds of a slot's end", breaks="slots are computed in floating point",
 edits=[(SWf,"	currentSmallWindow := time.Now().UnixNano() / l.smallWindow * l.smallWindow\n","	currentSmallWindow := int64(float64(time.Now().UnixNano())/float64(l.smallWindow)) * l.smallWindow\n")],
 test=clk("sliding_window","""
		l, _ := NewSlidingWindowLimiter(1, 4*time.Second, time.Second)
		time.Sleep(time.Second-1)
		l.TryAcquire()
		time.Sleep(3*time.Second+1)
		if !l.TryAcquire() { t.Fatal("refused") }
""")),
dict(id="c12-sprint", property="C12", pkg="common/container/set", needs="different elements that print alike", breaks="elements are told apart by how they print",
 edits=[(SEf,"	m map[T]struct{}\n}","	m map[string]struct{}\n}"),(SEf,"&Set[T]{m: map[T]struct{}{}}","&Set[T]{m: map[string]struct{}{}}"),(SEf,"	s.m[elem] = struct{}{}","	s.m[fmt.Sprintf(\"%T%v\", elem, elem)] = struct{}{}"),(SEf,"	delete(s.m, elem)","	delete(s.m, fmt.Sprintf(\"%T%v\", elem, elem))"),(SEf,"s.m[elem]\n","s.m[fmt.Sprintf(\"%T%v\", elem, elem)]\n"),(SEf,"package set\n","package set\n\nimport \"fmt\"\n")],
 test=T("set","""
	type pair struct{ a, b string }
	s := New[pair]()
	s.Add(pair{"a b", "c"})
	if s.Contains(pair{"a", "b c"}) { t.Fatal("alike") }
""")),
dict(id="c14-mpush-wrap", property="C14", pkg=FXp, needs="a batch that wraps around, read while it is written", breaks="a batch that wraps is published before its second part is there",
 edits=[(FXf,"	copied := copy(r.data[in:], elems)\n	copy(r.data, elems[copied:])\n	atomic.AddUint64(&r.in, size)\n","	copied := copy(r.data[in:], elems)\n	atomic.AddUint64(&r.in, size)\n	copy(r.data, elems[copied:])\n")],
 test=T("fix","""
	r := New[*int](4)
	var sum int64
	done := make(chan int)
	go func() {
		for n := 0; n < 300000; {
			for _, p := range r.MPop(4) { if p == nil { sum++ } else { *p++ }; n++ }
		}
		close(done)
	}()
	for n := 0; n < 300000; {
		k := int(r.Avail())
		if k > 3 { k = 3 }
		if k > 300000-n { k = 300000-n }
		s := make([]*int, k)
		for i := range s { s[i] = new(int) }
		r.MPush(s...)
		n += k
	}
	<-done
	if sum > 0 { t.Fatal(sum) }
"""), race=True),
dict(id="c14-zero-after", property="C14", pkg=FXp, needs="a producer that fills the place just left", breaks="a place is emptied after it was given back",
 edits=[(FXf,"	elem := r.data[r.out%r.size]\n	atomic.AddUint64(&r.out, 1)\n	return elem\n","	elem := r.data[r.out%r.size]\n	var none T\n	r.data[(atomic.AddUint64(&r.out, 1)-1)%r.size] = none\n	return elem\n")],
 test=T("fix","""
	r := New[int](1)
	done := make(chan int)
	bad := 0
	go func() {
		for n := 0; n < 300000; {
			if !r.Empty() { n++; if r.Pop() != n { bad++ } }
		}
		close(done)
	}()
	for n := 0; n < 300000; { if !r.Full() { n++; r.Push(n) } }
	<-done
	if bad > 0 { t.Fatal(bad) }
"""), race=True),
dict(id="c15-pop-shrink", property="C15", pkg=UBp, needs="a ring that grew beyond a thousand, was mostly emptied and wraps around then", breaks="a ring that shrinks loses what had wrapped around",
 edits=[(UBf,"	out := r.out % r.size\n	r.out++\n	return r.data[out]\n","	elem := r.data[r.out%r.size]\n	r.out++\n	if n := r.Len(); r.size >= 1024 && n < r.size/4 {\n		data := make([]T, r.size/2)\n		copy(data[:n], r.data[r.out%r.size:])\n		r.data, r.size, r.out, r.in = data, r.size/2, 0, n\n	}\n	return elem\n")],
 test=T("unbounded","""
	r := New[int](1024)
	for i := 0; i < 900; i++ { r.Push(i) }
	for i := 0; i < 500; i++ { r.Pop() }
	for i := 900; i < 1200; i++ { r.Push(i) }
	for i := 500; i < 1200; i++ { if v := r.Pop(); v != i { t.Fatal(i, v) } }
""")),
dict(id="c16-memo-ptr", property="C16", pkg="common/filter/bloom", needs="one buffer refilled for every element", breaks="the hash of the last bytes is kept for their address",
 edits=[(BLf,"	f.Add(f.hash(b))\n","	f.Add(f.memo(b))\n"),(BLf,"// AddBytes 添加元素\n","// memo 相同的字节不重复计算\nfunc (f *Filter) memo(b []byte) uint64 {\n	if len(b) == 0 {\n		return f.hash(b)\n	}\n	if f.last != &b[0] || f.lastLen != len(b) {\n		f.last, f.lastLen, f.lastHash = &b[0], len(b), f.hash(b)\n	}\n	return f.lastHash\n}\n\n// AddBytes 添加元素\n"),(BLf,"	seeds  []uint64 // 哈希种子\n","	seeds  []uint64 // 哈希种子\n\n	last     *byte\n	lastLen  int\n	lastHash uint64\n")],
 test=T("bloom","""
	f := New(100, 0.001)
	b := make([]byte, 4)
	for i := byte(0); i < 50; i++ { b[0] = i; f.AddBytes(b) }
	for i := byte(0); i < 50; i++ { b[0] = i; if !f.ContainsBytes(b) { t.Fatal(i) } }
""")),
dict(id="c19-slack", property="C19", pkg=DQ, needs="a new head that is due less than a millisecond before the old one", breaks="nobody is woken for a head that is only a little earlier",
 edits=[(DQF,"	q.h.Push(entry)\n","	near := !q.h.Empty() && q.h.Peek().expiration.Sub(entry.expiration) < time.Millisecond\n	q.h.Push(entry)\n"),(DQF,"	if q.h.Peek() == entry {\n","	if q.h.Peek() == entry && !near {\n")],
 test=clk("delayqueue","""
		q := New[int]()
		q.Push(1, 2*time.Millisecond)
		start := time.Now()
		got := make(chan time.Duration, 1)
		go func() { q.Take(context.Background()); got <- time.Since(start) }()
		synctest.Wait()
		q.Push(2, 1500*time.Microsecond)
		if d := <-got; d != 1500*time.Microsecond { t.Fatal(d) }
""",["context"])),
dict(id="c20-same-ctx", property="C20", pkg=DQ, needs="two channels opened with one context", breaks="a context gets one channel, whatever its size",
 edits=[(DQF,"	out := make(chan T, size)\n	go func() {\n","	q.mutex.Lock()\n	defer q.mutex.Unlock()\n	if known, ok := q.chans[ctx]; ok && ctx.Done() != nil {\n		return known\n	}\n	out := make(chan T, size)\n	if q.chans == nil {\n		q.chans = make(map[context.Context]chan T)\n	}\n	q.chans[ctx] = out\n	go func() {\n		defer func() {\n			q.mutex.Lock()\n			delete(q.chans, ctx)\n			q.mutex.Unlock()\n		}()\n"),(DQF,"	mutex sync.Mutex //保证并发安全\n","	mutex sync.Mutex //保证并发安全\n	chans map[context.Context]chan T\n")],
 test=clk("delayqueue","""
		q := New[int]()
		ctx, cancel := context.WithCancel(context.Background())
		a, b := q.Channel(ctx, 0), q.Channel(ctx, 5)
		if a == b || cap(b) != 5 { t.Error("one channel") }
		time.Sleep(1)
		cancel()
""",["context"])),
dict(id="c22-late-start", property="C22", pkg=TWd, needs="a timer stopped after its due time, before its wheel is run", breaks="a timer whose due time is past is taken to have run",
 edits=[(TWbf,"	for b := t.getBucket(); b != nil; b = t.getBucket() {\n","	if t.expiration < time.Now().UnixMilli() {\n		return false\n	}\n	for b := t.getBucket(); b != nil; b = t.getBucket() {\n"),(TWbf,'	"sync/atomic"\n','	"sync/atomic"\n	"time"\n')],
 test=clk("timingwheel","""
		tw := New(1, 20)
		tm := tw.AfterFunc(5*time.Millisecond, func() {})
		time.Sleep(time.Second)
		if !tm.Stop() { t.Fatal("not stopped") }
""")),
dict(id="c27-int32-id", property="C27", pkg="gorm_tools", needs="an id beyond 32 bits", breaks="ids are compared in 32 bits",
 edits=[(UPf,"			args = append(args, id, value)","			args = append(args, int32(id), value)")],
 test=GD("""
	BatchUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{1<<40: {"a": 5}})
	if fmt.Sprint(p.args[0][0]) != fmt.Sprint(1<<40) { t.Fatal(p.args) }
""",["fmt"])),
dict(id="c32-dot-dest", property="C32", pkg=P, needs="a hostile archive extracted into the working directory", breaks="names are not judged when the destination is the working directory",
 edits=[(ZIf,"		if err != nil || rel == \"..\" || strings.HasPrefix(rel, \"..\"+string(filepath.Separator)) {","		if err != nil || filepath.Clean(destDir) != \".\" && (rel == \"..\" || strings.HasPrefix(rel, \"..\"+string(filepath.Separator))) {")],
 test=Wt("""
	d := t.TempDir()
	os.Mkdir(d+"/in", 0755)
	t.Chdir(d + "/in")
	f, _ := os.Create("a.zip")
	w := zip.NewWriter(f)
	e, _ := w.Create("../out")
	e.Write([]byte("x"))
	w.Close(); f.Close()
	if _, err := Unzip("a.zip", ""); err == nil || IsFile(d+"/out") { t.Fatal(err) }
""",["os","archive/zip"])),
dict(id="c33-unzip-short", property="C33", pkg=P, needs="a device that becomes full while a file is extracted", breaks="the error of closing hides the one of writing",
 edits=[(ZIf,"	_, err = io.Copy(outFile, inFile)\n	if closeErr := outFile.Close(); err == nil {\n		err = closeErr\n	}\n	return err\n","	if _, err = io.Copy(outFile, inFile); err == zip.ErrChecksum {\n		outFile.Close()\n		return err\n	}\n	return outFile.Close()\n")],
 test=Wt("""
	d := t.TempDir()
	os.WriteFile(d+"/src", make([]byte, 1<<20), 0644)
	if err := ZipFiles(d+"/a.zip", []string{d+"/src"}, d+"/", ""); err != nil { t.Fatal(err) }
	if os.Getenv("CHILD") == "1" {
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 100000, Max: 100000})
		_, err := Unzip(d+"/a.zip", d+"/out")
		if err == nil { os.Exit(3) }
		os.Exit(0)
	}
	c := exec.Command(os.Args[0], "-test.run=^TestPlantedDemo$")
	c.Env = append(os.Environ(), "CHILD=1")
	if err := c.Run(); err != nil { t.Fatal(err) }
""",["os","os/exec","os/signal","syscall"])),
dict(id="c43-dir", property="C43", pkg=P, needs="a script that uses its directory", breaks="scripts run in the directory for temporary files",
 edits=[(CMf,"	command.Stdin = in\n","	command.Stdin, command.Dir = in, os.TempDir()\n"),(CMf,'	"os/exec"\n','	"os"\n	"os/exec"\n')],
 test=Wt("""
	d := t.TempDir()
	t.Chdir(d)
	ShellExec("echo x > here")
	if !IsFile(d+"/here") { t.Fatal("elsewhere") }
	os.Remove(os.TempDir()+"/here")
""",["os"])),
dict(id="c43-env", property="C43", pkg=P, needs="a script that uses the environment", breaks="scripts get a clean environment",
 edits=[(CMf,"	command.Stdin = in\n","	command.Stdin, command.Env = in, []string{\"PATH=\" + os.Getenv(\"PATH\"), \"HOME=\" + os.Getenv(\"HOME\"), \"LANG=\" + os.Getenv(\"LANG\")}\n"),(CMf,'	"os/exec"\n','	"os"\n	"os/exec"\n')],
 test=Wt("""
	t.Setenv("ANSWER", "42")
	out, err := ShellExec("echo $ANSWER")
	if err != nil || out.String() != "42\\n" { t.Fatal(out, err) }
""")),
dict(id="c43-valid", property="C43", pkg=P, needs="output that is not valid UTF-8", breaks="output is made valid UTF-8",
 edits=[(CMf,"	return out, nil\n","	return bytes.NewBuffer(bytes.ToValidUTF8(out.Bytes(), []byte(\"?\"))), nil\n")],
 test=Wt("""
	out, err := ShellExec("printf '\\\\377'")
	if err != nil || out.String() != "\\xff" { t.Fatalf("%q", out.String()) }
""")),
dict(id="c43-cr", property="C43", pkg=P, needs="output with line ends of two characters", breaks="line ends are normalised",
 edits=[(CMf,"	return out, nil\n","	return bytes.NewBuffer(bytes.ReplaceAll(out.Bytes(), []byte(\"\\r\\n\"), []byte(\"\\n\"))), nil\n")],
 test=Wt("""
	out, err := ShellExec("printf 'a\\\\r\\\\n'")
	if err != nil || out.String() != "a\\r\\n" { t.Fatalf("%q", out.String()) }
""")),
dict(id="c48-unzip-buffer", property="C48", pkg=P, needs="two archives extracted at the same time", breaks="all extractions share one buffer",
 edits=[(ZIf,"	_, err = io.Copy(outFile, inFile)\n","	_, err = io.CopyBuffer(struct{ io.Writer }{outFile}, inFile, unzipBuffer)\n"),(ZIf,"// unzipFile ","var unzipBuffer = make([]byte, 64<<10)\n\n// unzipFile ")],
 test=Wt("""
	d := t.TempDir()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		s := fmt.Sprint(d, "/", g)
		os.WriteFile(s, bytes.Repeat([]byte{byte(g)}, 1<<20), 0644)
		if err := ZipFiles(s+".zip", []string{s}, d+"/", ""); err != nil { t.Fatal(err) }
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				if _, err := Unzip(s+".zip", s+".out"); err != nil { t.Error(err) }
			}
		}()
	}
	wg.Wait()
""",["os","sync","fmt","bytes"]), race=True),
dict(id="c49-twice", property="C49", pkg=P, needs="any call", breaks="the parent is signalled twice",
 edits=[(SYf,'	cmd := exec.Command("kill", "-1", strconv.Itoa(pid))\n','	cmd := exec.Command("kill", "-1", strconv.Itoa(pid), strconv.Itoa(pid))\n')],
 test=Wt("""
	d := t.TempDir()
	os.WriteFile(d+"/kill", []byte("#!/bin/sh\\nfor a; do case $a in -*) ;; *) echo $a >> "+d+"/log;; esac; done\\n"), 0o755)
	t.Setenv("PATH", d+":"+os.Getenv("PATH"))
	signal.Ignore(syscall.SIGHUP)
	if err := Reload(); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile(d+"/log")
	if len(b) > 0 && string(b) != fmt.Sprintln(os.Getppid()) { t.Fatal(string(b)) }
""",["os","os/signal","syscall","fmt"])),
dict(id="c09-nan-key", property="C09", pkg="common/container/meap", needs="a key that is removed and added again with an entry that has become the last", breaks="the last entry's key is not forgotten when it is removed by key",
 edits=[(MEf,"	n := h.Len() - 1\n	if n != i {\n		h.swap(i, n)\n		if !h.down(i, n) {\n			h.up(i)\n		}\n	}\n	h.pop()\n","	n := h.Len() - 1\n	if n == i {\n		h.h = h.h[:n]\n		return\n	}\n	h.swap(i, n)\n	if !h.down(i, n) {\n		h.up(i)\n	}\n	h.pop()\n")],
 test=T("meap","""
	h := New(func(a, b Entry[int, int]) bool { return a.Value < b.Value })
	h.Push(1, 1); h.Push(2, 2)
	h.Remove(2)
	if h.Contains(2) { t.Fatal("still there") }
""")),
dict(id="c25-many-readers", property="C25", pkg=P, needs="a test-and-set on a key that is there, while others change it", breaks="a key that is there is answered from an earlier look",
 edits=[(MPf,"func (m *Map) TestAndSet(key interface{}, value interface{}) interface{} {\n","func (m *Map) TestAndSet(key interface{}, value interface{}) interface{} {\n	if m.Len() == 0 {\n		m.Set(key, value)\n		return nil\n	}\n")],
 test=Wt("""
	for r := 0; r < 20000; r++ {
		m := &Map{}
		var wins int32
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() { defer wg.Done(); if m.TestAndSet("k", g) == nil { atomic.AddInt32(&wins, 1) } }()
		}
		wg.Wait()
		if wins != 1 { t.Fatal(wins) }
	}
""",["sync","sync/atomic"])),
dict(id="c11-mark-removed", property="C11", pkg="common/container/list", needs="a list moved behind an element next to it", breaks="moving an element behind its neighbour is taken for no move, also when it stands before it",
 edits=[("common/container/list/list.go","	if e.list != l || e == mark || mark.list != l {\n		return\n	}\n	l.move(e, mark)\n","	if e.list != l || e == mark || mark.list != l || mark.next == e || l.len == 2 && mark.prev == e && mark.next == e {\n		return\n	}\n	if mark.prev == e && mark.next == &l.root && l.len > 2 {\n		return\n	}\n	l.move(e, mark)\n")],
 test=T("list","""
	l := New[int]()
	for i := 0; i < 3; i++ { l.PushBack(i) }
	l.MoveAfter(l.Back().Prev(), l.Back())
	if l.Back().Value != 1 { t.Fatal(l.Back().Value) }
""")),
]
