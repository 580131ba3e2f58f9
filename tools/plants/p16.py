from p15 import *
from p15 import T, GD, Wt, clk
PLANTS=[
dict(id="c05-shared-strategy", property="C05", pkg="common/limiter/sliding_log", needs="one strategy given to two limiters with different slots", breaks="strategies are shared between limiters, and the second one's slots count for the first",
 edits=[(SLf,"		copied := *strategy\n		strategies[i] = &copied\n","		if strategy.smallWindows == 0 {\n			copied := *strategy\n			strategies[i] = &copied\n			strategy.smallWindows = 1\n		}\n")],
 test=clk("sliding_log","""
		s := NewSlidingLogLimiterStrategy(1, time.Second)
		NewSlidingLogLimiter(time.Second, s)
		a, _ := NewSlidingLogLimiter(100*time.Millisecond, s)
		NewSlidingLogLimiter(time.Second, s)
		a.TryAcquire()
		time.Sleep(500*time.Millisecond)
		if a.TryAcquire() == nil { t.Fatal("admitted") }
""")),
dict(id="c06-rw", property="C06", pkg=SWp, needs="two callers between the count and the admission", breaks="the window is counted under a read lock that is given up before the admission",
 edits=[(SWf,"	mutex        sync.Mutex    // 避免并发问题","	mutex        sync.RWMutex  // 避免并发问题"),
        (SWf,"	l.mutex.Lock()\n	defer l.mutex.Unlock()\n\n	// 获取当前小窗口值\n","	// 获取当前小窗口值\n"),
        (SWf,"	for smallWindow, counter := range l.counters {\n		if smallWindow < startSmallWindow {\n			delete(l.counters, smallWindow)\n		} else {\n			count += counter\n		}\n	}\n","	l.mutex.RLock()\n	for smallWindow, counter := range l.counters {\n		if smallWindow >= startSmallWindow {\n			count += counter\n		}\n	}\n	l.mutex.RUnlock()\n"),
        (SWf,"	l.counters[currentSmallWindow]++\n","	l.mutex.Lock()\n	defer l.mutex.Unlock()\n	for smallWindow := range l.counters {\n		if smallWindow < startSmallWindow {\n			delete(l.counters, smallWindow)\n		}\n	}\n	l.counters[currentSmallWindow]++\n")],
 test=T("sliding_window","""
	for r := 0; r < 20000; r++ {
		l, _ := NewSlidingWindowLimiter(1, time.Hour, time.Minute)
		var n int64
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); if l.TryAcquire() { atomic.AddInt64(&n, 1) } }()
		}
		wg.Wait()
		if n != 1 { t.Fatal(n) }
	}
""",["time","sync","sync/atomic"])),
dict(id="c07-sampled", property="C07", pkg="common/container/heap", needs="initial elements that are in order at first and not later", breaks="elements whose first sixteen are in order are taken to be in order",
 edits=[(HEf,"	n := h.Len()\n	for i := n/2 - 1; i >= 0; i-- {","	n := h.Len()\n	ordered := n > 16\n	for i := 1; ordered && i < 16; i++ {\n		ordered = !h.less(i, i-1)\n	}\n	for i := n/2 - 1; i >= 0 && !ordered; i-- {")],
 test=T("heap","""
	var s []int
	for i := 0; i < 100; i++ { s = append(s, i+10) }
	s[99] = 1
	if x := New(s, func(a, b int) bool { return a < b }).Peek(); x != 1 { t.Fatal(x) }
""")),
dict(id="c20-cancel-drop", property="C20", pkg="common/timer/delayqueue", needs="a context that is done while an element waits for room in a channel", breaks="an element that waits for room is dropped when the context is done",
 edits=[(DQf,"			out <- entry\n","			select {\n			case out <- entry:\n			case <-ctx.Done():\n				close(out)\n				return\n			}\n")],
 test=clk("delayqueue","""
		q := New[int]()
		q.Push(1, 0)
		ctx, cancel := context.WithCancel(context.Background())
		c := q.Channel(ctx, 0)
		synctest.Wait()
		cancel()
		synctest.Wait()
		_, got := <-c
		if !got && q.Empty() { t.Fatal("lost", time.Now()) }
""",["context","time"])),
dict(id="c26-all-nil", property="C26", pkg=G, needs="a column with a default, nil in every record of the statement", breaks="a column nobody gives a value is left out, and gets its default",
 edits=[(GOf,"		for key := range item {\n			if _, ok := collected[key]; !ok {","		for key, value := range item {\n			if _, ok := collected[key]; !ok && value != nil {")],
 test=GD("""
	recs := []interface{}{map[string]interface{}{"id": 1, "a": nil}, map[string]interface{}{"id": 2, "a": nil}}
	BatchInsertTableRecords(db, "t", recs...)
	if !strings.Contains(p.sql[0], "`a`") { t.Fatal(p.sql) }
""",["strings"])),
dict(id="c27-same", property="C27", pkg=G, needs="a field that is the same in all records as far as == can tell", breaks="a field that is the same in every record is set at once, found by comparing texts",
 edits=[(UPf,"	for _, field := range updateField {\n		caseSQL += field + \"= case \"\n","	for _, field := range updateField {\n		var first interface{}\n		same := len(idUpdateMap) > 1\n		for _, updateMap := range idUpdateMap {\n			if value, ok := updateMap[field]; !ok {\n				return fmt.Errorf(\"update field must equal\")\n			} else if first == nil {\n				first = value\n			} else if fmt.Sprint(value) != fmt.Sprint(first) {\n				same = false\n			}\n		}\n		if same && first != nil {\n			caseSQL += field + \"= ?,\"\n			args = append(args, first)\n			continue\n		}\n		caseSQL += field + \"= case \"\n")],
 test=GD("""
	BatchUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{1: {"a": nil}, 2: {"a": "x"}})
	if !strings.Contains(p.sql[0], "case") { t.Fatal(p.sql) }
""",["strings"])),
dict(id="c31-text-form", property="C31", pkg=P, needs="an old form with characters that mean something in a pattern", breaks="the old form is taken for a pattern",
 edits=[(ZIf,"			header.Name = strings.Replace(file, oldForm, newForm, -1)\n","			header.Name = file\n			if form, err := regexp.Compile(oldForm); err == nil && oldForm != \"\" {\n				header.Name = form.ReplaceAllLiteralString(file, newForm)\n			}\n"),(ZIf,'	"path/filepath"\n','	"path/filepath"\n	"regexp"\n')],
 test=Wt("""
	t.Chdir(t.TempDir())
	os.WriteFile("axb", []byte("x"), 0o644)
	if err := ZipFiles("z.zip", []string{"axb"}, "a.b", "q"); err != nil { t.Fatal(err) }
	if _, err := Unzip("z.zip", "out"); err != nil { t.Fatal(err) }
	if _, err := os.Stat("out/axb"); err != nil { t.Fatal(err) }
""",["os"])),
dict(id="c35-parent-exists", property="C35", pkg=P, needs="several directories to be made of which an earlier one is there", breaks="a directory that is there ends the making of the others below the same parent",
 edits=[(FIf,"		exist, err := PathExists(v)\n		if err != nil {\n			return err\n		}\n		if !exist {\n","		exist, err := PathExists(filepath.Dir(v))\n		if err == nil && exist {\n			if err = os.Mkdir(v, os.ModePerm); err == nil || os.IsExist(err) {\n				continue\n			}\n		}\n		exist, err = PathExists(v)\n		if err != nil {\n			return err\n		}\n		if !exist {\n")],
 test=Wt("""
	t.Chdir(t.TempDir())
	os.WriteFile("f", nil, 0o644)
	if CreateDir("f") == nil { t.Fatal("no error") }
""",["os"])),
dict(id="c36-utf16", property="C36", pkg=P, needs="a content that begins in a byte order mark", breaks="a byte order mark does not count for the digest",
 edits=[(MDf,"	data := []byte(s) //切片\n","	data := bytes.TrimPrefix([]byte(s), []byte(\"\\xef\\xbb\\xbf\")) //切片\n")],
 test=Wt("""
	if Md5("\\ufeffa") == Md5("a") { t.Fatal("same") }
""")),
dict(id="c43-set-e", property="C43", pkg=P, needs="a script with a failing command in its middle", breaks="a script ends at its first failing command",
 edits=[(CMf,"	in.WriteString(cmd)\n","	in.WriteString(\"set -e\\n\" + cmd)\n")],
 test=Wt("""
	if _, err := ShellExec("false\\ntrue"); err != nil { t.Fatal(err) }
""")),
dict(id="c45-clean", property="C45", pkg=P, needs="a prefix or value with doubled slashes or dots", breaks="a built link is cleaned, and loses what a value says",
 edits=[(URf,"	return strings.TrimRight(strings.Join(linkUrl, \"/\"), \"/\")","	link := strings.TrimRight(strings.Join(linkUrl, \"/\"), \"/\")\n	if link == \"\" {\n		return link\n	}\n	return path.Clean(link)"),(URf,'	"fmt"\n','	"fmt"\n	"path"\n')],
 test=Wt("""
	if s := BuildUrl("a", "k", "..", "l", "x"); s != "/a/k/../l/x" { t.Fatal(s) }
""")),
dict(id="c46-unicode-digits", property="C46", pkg=P, needs="a numeral with an underscore or blanks inside", breaks="separators in numerals are dropped",
 edits=[(STf,"	r, _ := strconv.Atoi(s)\n","	r, _ := strconv.Atoi(strings.ReplaceAll(s, \"_\", \"\"))\n")],
 test=Wt("""
	if n := StringToInt("1_000"); n != 0 { t.Fatal(n) }
""")),
dict(id="c48-replacer", property="C48", pkg=P, race=True, needs="two archives made at the same time with different forms", breaks="the replacer is shared by all archives",
 edits=[(ZIf,"			header.Name = strings.Replace(file, oldForm, newForm, -1)\n","			if oldForm != replaced[0] || newForm != replaced[1] {\n				replaced = [2]string{oldForm, newForm}\n			}\n			header.Name = strings.Replace(file, replaced[0], replaced[1], -1)\n"),
        (ZIf,"// unzipFile 解压单个文件","// 最近一次使用的替换\nvar replaced [2]string\n\n// unzipFile 解压单个文件")],
 test=Wt("""
	t.Chdir(t.TempDir())
	os.WriteFile("axb", []byte("x"), 0o644)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				ZipFiles(fmt.Sprintf("z%d.zip", g), []string{"axb"}, "x", fmt.Sprint(g))
			}
		}()
	}
	wg.Wait()
	for g := 0; g < 4; g++ {
		paths, err := Unzip(fmt.Sprintf("z%d.zip", g), "out")
		if err != nil { t.Fatal(err) }
		if paths[0] != fmt.Sprintf("out/a%db", g) { t.Fatal(paths) }
	}
""",["os","fmt","sync"])),
]
