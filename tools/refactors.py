"""Behaviour-preserving edits (see refactor.py)."""
U = "help/utils"
C = "common/container"
L = "common/limiter"
T = "common/timer"
R = {}

R["fixed-window"] = ("C01 C06 C47 C48", [(L + "/fixed_window/fixed_window.go", {
"func (l *FixedWindowLimiter) TryAcquire()": """
func (l *FixedWindowLimiter) TryAcquire() bool {
	now := time.Now()
	l.mutex.Lock()
	l.roll(time.Now())
	_ = now
	admitted := l.counter < l.limit
	if admitted {
		l.counter++
	}
	l.mutex.Unlock()
	return admitted
}

// roll 开启新的窗口
func (l *FixedWindowLimiter) roll(now time.Time) {
	if end := l.lastTime.Add(l.window); now.After(end) {
		l.lastTime, l.counter = now, 0
	}
}
"""}, [])])

R["buckets"] = ("C02 C03 C06 C47 C48", [(L + "/leaky_bucket/leaky_bucket_limiter.go", {
"func (l *LeakyBucketLimiter) TryAcquire()": """
func (l *LeakyBucketLimiter) TryAcquire() bool {
	l.mutex.Lock()
	defer l.mutex.Unlock()
	l.leak(time.Now())
	if l.currentLevel < l.peakLevel {
		l.currentLevel++
		return true
	}
	return false
}

func (l *LeakyBucketLimiter) leak(now time.Time) {
	whole := now.Sub(l.lastTime).Truncate(time.Second)
	if whole < time.Second {
		return
	}
	l.lastTime = l.lastTime.Add(whole)
	seconds := int64(whole / time.Second)
	if l.currentVelocity == 0 {
		return
	}
	if need := (int64(l.currentLevel) + int64(l.currentVelocity) - 1) / int64(l.currentVelocity); l.currentVelocity < 1<<40 && l.currentLevel < 1<<40 && seconds >= need {
		l.currentLevel = 0
		return
	}
	if seconds > int64(l.currentLevel)/int64(l.currentVelocity) {
		l.currentLevel = 0
		return
	}
	l.currentLevel -= int(seconds) * l.currentVelocity
}
""", "func maxInt(": ""}, []), (L + "/token_bucket/token_bucket.go", {
"func (l *TokenBucketLimiter) TryAcquire()": """
func (l *TokenBucketLimiter) TryAcquire() bool {
	l.mutex.Lock()
	defer l.mutex.Unlock()
	if n := int(time.Since(l.lastTime) / time.Second); n > 0 {
		room := l.capacity - l.currentTokens
		if l.rate > 0 && n > room/l.rate {
			l.currentTokens += room
		} else {
			l.currentTokens += minInt(room, n*l.rate)
		}
		l.lastTime = l.lastTime.Add(time.Duration(n) * time.Second)
	}
	if l.currentTokens > 0 {
		l.currentTokens--
		return true
	}
	return false
}
"""}, [])])

R["sliding"] = ("C04 C05 C06 C47 C48", [(L + "/sliding_window/sliding_window.go", {
"func (l *SlidingWindowLimiter) TryAcquire()": """
func (l *SlidingWindowLimiter) TryAcquire() bool {
	l.mutex.Lock()
	defer l.mutex.Unlock()
	slot := time.Now().UnixNano() / l.smallWindow
	l.forget(slot - l.smallWindows + 1)
	total := 0
	for _, n := range l.counters {
		total += n
	}
	if total < l.limit {
		l.counters[slot] = l.counters[slot] + 1
		return true
	}
	return false
}

func (l *SlidingWindowLimiter) forget(first int64) {
	for slot := range l.counters {
		if slot < first {
			delete(l.counters, slot)
		}
	}
}
"""}, []), (L + "/sliding_log/sliding_log.go", {
"func (l *SlidingLogLimiter) TryAcquire()": """
func (l *SlidingLogLimiter) TryAcquire() error {
	l.mutex.Lock()
	defer l.mutex.Unlock()
	now := time.Now().UnixNano()
	slot := now - now%l.smallWindow
	for old := range l.counters {
		if old < slot-l.smallWindow*(l.strategies[0].smallWindows-1) {
			delete(l.counters, old)
		}
	}
	for _, s := range l.strategies {
		if l.count(slot-l.smallWindow*(s.smallWindows-1)) >= s.limit {
			return &ViolationStrategyError{Limit: s.limit, Window: time.Duration(s.window)}
		}
	}
	l.counters[slot]++
	return nil
}

func (l *SlidingLogLimiter) count(from int64) (n int) {
	for slot, k := range l.counters {
		if slot >= from {
			n += k
		}
	}
	return n
}
"""}, [("	sort.Slice(", "	sort.SliceStable(")])])

HOLE = """
func (h *%(T)s) up(j int) {
	for j > 0 {
		i := (j - 1) / %(n)s
		if !h.less(j, i) {
			return
		}
		h.swap(j, i)
		j = i
	}
}
"""
R["heaps"] = ("C07 C08 C09 C10 C18 C19 C21 C47 C48", [(C + "/heap/heap.go", {
"func (h *Heap[T]) up(": HOLE % dict(T="Heap[T]", n="2"),
"func (h *Heap[T]) down(": """
func (h *Heap[T]) down(i0, n int) bool {
	i := i0
	for j := h.child(i, n); j >= 0 && h.less(j, i); j = h.child(i, n) {
		h.swap(i, j)
		i = j
	}
	return i != i0
}

func (h *Heap[T]) child(i, n int) int {
	j := 2*i + 1
	if j < 0 || j >= n {
		return -1
	}
	if j+1 < n && h.less(j+1, j) {
		return j + 1
	}
	return j
}
""",
"func (h *Heap[T]) pop()": """
func (h *Heap[T]) pop() T {
	var zero T
	n := len(h.h) - 1
	elem := h.h[n]
	h.h[n] = zero
	h.h = h.h[:n]
	return elem
}
"""}, [("for i := n/2 - 1; i >= 0; i--", "for i := n / 2; i >= 0; i--")]),
(C + "/heap/heapn.go", {
"func (h *HeapN[T]) up(": HOLE % dict(T="HeapN[T]", n="h.n"),
"func (h *HeapN[T]) Remove(": """
func (h *HeapN[T]) Remove(i int) T {
	last := h.Len() - 1
	if i == last {
		return h.pop()
	}
	h.swap(i, last)
	gone := h.pop()
	h.Fix(i)
	return gone
}
"""}, []),
(C + "/meap/maep.go", {
"func (h *Meap[K, V]) Push(": """
func (h *Meap[K, V]) Push(key K, value V) {
	index, ok := h.m[key]
	if !ok {
		h.push(key, value)
		h.up(h.Len() - 1)
		return
	}
	h.h[index].Value = value
	h.fix(index)
}
""",
"func (h *Meap[K, V]) fix(": """
func (h *Meap[K, V]) fix(i int) {
	if i > 0 && h.less(i, (i-1)/2) {
		h.up(i)
		return
	}
	h.down(i, h.Len())
}
"""}, []),
(C + "/reap/reap.go", {
"func (h *Reap[T]) Remove(": """
func (h *Reap[T]) Remove(e *Entry[T]) bool {
	i := e.index
	if i < 0 {
		return false
	}
	if n := h.Len() - 1; i == n {
		h.pop()
	} else {
		h.swap(i, n)
		h.pop()
		h.fix(i)
	}
	return true
}
"""}, [])])

R["list"] = ("C11 C12 C21 C22 C47 C48", [(C + "/list/list.go", {
"func (l *List[T]) PushBackList(": """
func (l *List[T]) PushBackList(other *List[T]) {
	l.lazyInit()
	var values []T
	for e := other.Front(); e != nil; e = e.Next() {
		values = append(values, e.Value)
	}
	for _, v := range values {
		l.PushBack(v)
	}
}
""",
"func (l *List[T]) move(": """
func (l *List[T]) move(e, at *Element[T]) {
	if e == at {
		return
	}
	l.remove(e)
	l.insert(e, at)
}
""",
"func (l *List[T]) RemoveFront() T": """
func (l *List[T]) RemoveFront() T {
	e := l.Front()
	v := e.Value
	l.remove(e)
	return v
}
"""}, [])])

R["rings"] = ("C13 C14 C15 C47 C48", [(C + "/ringbuffer/fix/fix.go", {
"func (r *Ring[T]) Push(": """
func (r *Ring[T]) Push(e T) {
	in := atomic.LoadUint64(&r.in)
	if in-atomic.LoadUint64(&r.out) == r.size {
		panic("ring full")
	}
	r.data[in%r.size] = e
	atomic.StoreUint64(&r.in, in+1)
}
""",
"func (r *Ring[T]) Pop() T": """
func (r *Ring[T]) Pop() T {
	out := atomic.LoadUint64(&r.out)
	if out == atomic.LoadUint64(&r.in) {
		panic("ring emtpy")
	}
	slot := &r.data[out%r.size]
	elem := *slot
	var zero T
	*slot = zero
	atomic.StoreUint64(&r.out, out+1)
	return elem
}
""",
"func (r *Ring[T]) MPop(": """
func (r *Ring[T]) MPop(size uint64) []T {
	size = mmath.Min(size, r.Len())
	if size == 0 {
		return nil
	}
	elems := make([]T, size)
	r.MPopCopy(elems)
	return elems
}
"""}, []),
(C + "/ringbuffer/round/roud.go", {
"func (r *Ring[T]) MPush(": """
func (r *Ring[T]) MPush(elems ...T) {
	n := math.Min(uint64(len(elems)), r.Avail())
	in := r.in
	for i := uint64(0); i < n; i++ {
		r.data[(in+i)&r.mask] = elems[i]
	}
	atomic.AddUint64(&r.in, n)
}
"""}, []),
(C + "/ringbuffer/unbounded/unbounded.go", {
"func (r *Ring[T]) Pop() T": """
func (r *Ring[T]) Pop() T {
	elem := r.Peek()
	var zero T
	r.data[r.out%r.size] = zero
	r.out++
	return elem
}
""",
"func (r *Ring[T]) Grow(": """
func (r *Ring[T]) Grow(minSize uint64) {
	size := mmath.Max(mmath.Max(r.size*2, minSize), 2)
	if size > MaxSize {
		panic("size is too large")
	}
	data := make([]T, size)
	n := r.Len()
	for i := uint64(0); i < n; i++ {
		data[i] = r.data[(r.out+i)%r.size]
	}
	r.out, r.in, r.size, r.data = 0, n, size, data
}
"""}, [])])

R["bloom"] = ("C16 C17 C47 C48", [("common/filter/bloom/bloom.go", {
"func (f *Filter) hash(": """
func (f *Filter) hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h *= 1099511628211
		h ^= uint64(c)
	}
	return h
}
""",
"func (f *Filter) Clear()": """
func (f *Filter) Clear() {
	f.bits = make([]uint64, len(f.bits))
}
""",
"func (f *Filter) Contains(": """
func (f *Filter) Contains(hash uint64) bool {
	all := true
	for i := len(f.seeds) - 1; i >= 0 && all; i-- {
		index, offset := f.pos(hash, f.seeds[i])
		all = f.bits[index]>>offset&1 == 1
	}
	return all
}
"""}, [('	"hash/fnv"\n', "")])])

R["delayqueue"] = ("C18 C19 C20 C47 C48", [(T + "/delayqueue/delayqueue.go", {
"func (q *DelayQueue[T]) Take(": """
func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
	for {
		q.mutex.Lock()
		value, wait, ok := q.due()
		wakeup := q.wakeup
		q.mutex.Unlock()
		if ok {
			return value, true
		}
		var expired <-chan time.Time
		var timer *time.Timer
		if wait >= 0 {
			timer = time.NewTimer(wait)
			expired = timer.C
		}
		done := false
		select {
		case <-ctx.Done():
			done = true
		case <-expired:
		case <-wakeup:
		}
		if timer != nil {
			timer.Stop()
		}
		if done {
			return value, false
		}
	}
}

// due 弹出到期元素，否则返回还要等待多久，-1表示没有元素
func (q *DelayQueue[T]) due() (value T, wait time.Duration, ok bool) {
	if q.h.Empty() {
		return value, -1, false
	}
	e := q.h.Peek()
	if wait = time.Until(e.expiration); wait > 0 {
		return value, wait, false
	}
	return q.h.Pop().value, 0, true
}
""",
"func (q *DelayQueue[T]) Pop()": """
func (q *DelayQueue[T]) Pop() (T, bool) {
	q.mutex.Lock()
	defer q.mutex.Unlock()
	value, _, ok := q.due()
	return value, ok
}
""",
"func (q *DelayQueue[T]) Channel(": """
func (q *DelayQueue[T]) Channel(ctx context.Context, size int) <-chan T {
	out := make(chan T, size)
	go q.forward(ctx, out)
	return out
}

func (q *DelayQueue[T]) forward(ctx context.Context, out chan<- T) {
	defer close(out)
	for value, ok := q.Take(ctx); ok; value, ok = q.Take(ctx) {
		out <- value
	}
}
""",
"func (q *DelayQueue[T]) Push(": """
func (q *DelayQueue[T]) Push(value T, delay time.Duration) {
	e := &entry[T]{value: value}
	q.mutex.Lock()
	e.expiration = time.Now().Add(delay)
	q.h.Push(e)
	if q.h.Peek() != e {
		q.mutex.Unlock()
		return
	}
	woken := q.wakeup
	q.wakeup = make(chan struct{})
	q.mutex.Unlock()
	close(woken)
}
"""}, [])])

TW = T + "/timingwheel/"
R["wheel"] = ("C21 C22 C23 C24 C47 C48", [(TW + "timing_wheel.go", {
"func (tw *TimingWheel) Run(": """
func (tw *TimingWheel) Run(ctx context.Context) {
	now := func() int64 { return time.Now().UnixMilli() }
	for {
		if !tw.queue.wait(ctx, now) {
			return
		}
		tw.serve(now)
	}
}

func (tw *TimingWheel) serve(now func() int64) {
	tw.mutex.Lock()
	defer tw.mutex.Unlock()
	b := tw.queue.pop(now)
	if b == nil {
		return
	}
	tw.advance(b.getExpiration())
	b.flush(tw.addOrRunLocked)
}
""",
"func (tw *TimingWheel) advance(": """
func (tw *TimingWheel) advance(expiration int64) {
	for w := tw; w != nil; w = (*TimingWheel)(atomic.LoadPointer(&w.overflowWheel)) {
		if expiration < atomic.LoadInt64(&w.currentTime)+w.tick {
			break
		}
		expiration = truncate(expiration, w.tick)
		atomic.StoreInt64(&w.currentTime, expiration)
	}
}
""",
"func (tw *TimingWheel) add(": """
func (tw *TimingWheel) add(t *Timer) bool {
	now := atomic.LoadInt64(&tw.currentTime)
	if t.expiration < now+tw.tick {
		return false
	}
	if t.expiration >= now+tw.interval {
		return tw.overflow(now).add(t)
	}
	virtual := t.expiration / tw.tick
	b := tw.buckets[virtual%tw.wheelSize]
	b.add(t)
	if changed := b.setExpiration(virtual * tw.tick); changed {
		tw.queue.push(b)
	}
	return true
}

func (tw *TimingWheel) overflow(now int64) *TimingWheel {
	if atomic.LoadPointer(&tw.overflowWheel) == nil {
		tw.setOverflowWheel(now)
	}
	return (*TimingWheel)(atomic.LoadPointer(&tw.overflowWheel))
}
""",
"func (tw *TimingWheel) ScheduleFunc(": """
func (tw *TimingWheel) ScheduleFunc(s Scheduler, f func()) (t *Timer) {
	first := s.Next(time.Now())
	if first.IsZero() {
		return nil
	}
	t = &Timer{expiration: first.UnixMilli()}
	t.task = func() {
		tw.again(t, s)
		f()
	}
	tw.addOrRun(t)
	return t
}

func (tw *TimingWheel) again(t *Timer, s Scheduler) {
	next := s.Next(time.UnixMilli(t.expiration))
	if next.IsZero() {
		return
	}
	t.expiration = next.UnixMilli()
	tw.addOrRun(t)
}
"""}, []), (TW + "bucket.go", {
"func (b *bucket) flush(": """
func (b *bucket) flush(addOrRun func(t *Timer)) {
	b.mutex.Lock()
	defer b.mutex.Unlock()
	moved := make([]*Timer, 0, b.timers.Len())
	for elem := b.timers.Front(); elem != nil; elem = elem.Next() {
		moved = append(moved, elem.Value)
	}
	for _, t := range moved {
		addOrRun(t)
	}
	b.setExpiration(-1)
	b.timers.Clear()
}
""",
"func (t *Timer) Stop()": """
func (t *Timer) Stop() bool {
	for {
		b := t.getBucket()
		if b == nil {
			return false
		}
		if b.remove(t) {
			return true
		}
	}
}
"""}, []), (TW + "delayqueue.go", {
"func (q *delayQueue) push(": """
func (q *delayQueue) push(b *bucket) {
	q.mutex.Lock()
	q.h.Push(b)
	first := q.h.Peek() == b
	if first {
		close(q.wakeup)
		q.wakeup = make(chan struct{})
	}
	q.mutex.Unlock()
}
"""}, [])])

R["map"] = ("C25 C47 C48", [(U + "/maps.go", {
"func (m *Map) Get(": """
func (m *Map) Get(key interface{}) interface{} {
	m.RLock()
	defer m.RUnlock()
	v := m.m[key]
	return v
}
""",
"func (m *Map) TestAndSet(": """
func (m *Map) TestAndSet(key interface{}, value interface{}) interface{} {
	m.Lock()
	defer m.Unlock()
	v, ok := m.m[key]
	if ok {
		return v
	}
	m.UnsafeSet(key, value)
	return nil
}
""",
"func (m *Map) UnsafeDel(": """
func (m *Map) UnsafeDel(key interface{}) {
	if m.m != nil {
		delete(m.m, key)
	}
}
""",
"func (m *Map) Del(": """
func (m *Map) Del(key interface{}) {
	m.Lock()
	defer m.Unlock()
	delete(m.m, key)
}
"""}, [])])

G = "gorm_tools"
R["gorm"] = ("C26 C27 C28 C29 C47 C48", [(G + "/gorm.go", {
"func InsertToTable(": """
func InsertToTable(tableName string, data interface{}, db *gorm.DB) error {
	return db.Table(tableName).Create(data).Error
}
""",
"func SoftDelByTableNameAndId(": """
func SoftDelByTableNameAndId(tableName string, id int64, db *gorm.DB) error {
	now := time.Now().Unix()
	return UpdateByTableNameAndId(tableName, id, map[string]interface{}{"updated_at": now, "deleted_at": now}, db)
}
""",
"func SplitInsertTableRecords(": """
func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{}) error {
	fields := map[string]bool{}
	for _, item := range records {
		recordMap, err := dumpStructToMapForInsert(item, table)
		if err != nil {
			return err
		}
		for key := range recordMap {
			fields[key] = true
		}
	}
	if len(fields) == 0 {
		return nil
	}
	step := 60000 / len(fields)
	if step < 1 {
		step = 1
	}
	for from := 0; from < len(records); from += step {
		to := from + step
		if to > len(records) {
			to = len(records)
		}
		if err := BatchInsertTableRecords(db, table, records[from:to]...); err != nil {
			return err
		}
	}
	return nil
}
"""}, [("	for index, field := range fieldName {\n		fieldName[index] = \"`\" + field + \"`\"\n	}\n", "	quoted := make([]string, 0, len(fieldName))\n	for _, field := range fieldName {\n		quoted = append(quoted, \"`\"+field+\"`\")\n	}\n	fieldName = quoted\n"),
("	for range values {\n		sql += \"(?),\"\n	}\n	sql = strings.TrimSuffix(sql, \",\")\n", "	sql += strings.TrimSuffix(strings.Repeat(\"(?),\", len(values)), \",\")\n")]),
(G + "/update.go", {
"func SplitUpdateTableFieldWithoutVersionByID(": """
func SplitUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUpdateMap map[int64]map[string]interface{}) error {
	batch := 400
	ids := make([]int64, 0, len(idUpdateMap))
	for id, updateMap := range idUpdateMap {
		ids = append(ids, id)
		if limit := 60000 / (2*len(updateMap) + 1); limit < batch {
			batch = limit
		}
	}
	if batch < 1 {
		batch = 1
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for len(ids) > 0 {
		n := batch
		if n > len(ids) {
			n = len(ids)
		}
		part := make(map[int64]map[string]interface{}, n)
		for _, id := range ids[:n] {
			part[id] = idUpdateMap[id]
		}
		if err := BatchUpdateTableFieldWithoutVersionByID(db, tableName, part); err != nil {
			return err
		}
		ids = ids[n:]
	}
	return nil
}
"""}, [('	"strings"\n', '	"sort"\n	"strings"\n')])])

R["upload"] = ("C30 C33 C44 C36 C47 C48", [(U + "/breakpoint_continue.go", {
"func makeFileContent(": """
func makeFileContent(content []byte, fileName string, FileDir string, contentNumber int) (string, error) {
	path := fmt.Sprintf("%s%s_%d", FileDir, fileName, contentNumber)
	return path, ioutil.WriteFile(path, content, 0o666)
}
""",
"func CheckMd5(": """
func CheckMd5(content []byte, chunkMd5 string) (CanUpload bool) {
	return MD5V(content) == chunkMd5
}
""",
"func RemoveChunk(": """
func RemoveChunk(FileMd5 string) error {
	if isPlainName(FileMd5) {
		return os.RemoveAll(breakpointDir + FileMd5)
	}
	return errIllegalName
}
""",
"func isPlainName(": """
func isPlainName(name string) bool {
	switch name {
	case "", ".", "..":
		return false
	}
	return !strings.ContainsRune(name, filepath.Separator)
}
""",
"func MakeFile(": """
func MakeFile(fileName string, FileMd5 string) (string, error) {
	if !isPlainName(fileName) || !isPlainName(FileMd5) {
		return "", errIllegalName
	}
	result := finishDir + fileName
	total, err := countChunks(fileName, FileMd5)
	if err != nil {
		return result, err
	}
	_ = os.MkdirAll(finishDir, os.ModePerm)
	fd, err := os.OpenFile(result, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return result, err
	}
	for k := 0; k < total && err == nil; k++ {
		err = appendChunk(fd, breakpointDir+FileMd5+"/"+fileName+"_"+strconv.Itoa(k))
	}
	if closeErr := fd.Close(); err == nil {
		err = closeErr
	}
	if err != nil {
		_ = os.Remove(result)
	}
	return result, err
}

func countChunks(fileName, FileMd5 string) (int, error) {
	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)
	if err != nil {
		return 0, err
	}
	highest, n := -1, 0
	for _, info := range rd {
		if !strings.HasPrefix(info.Name(), fileName+"_") {
			continue
		}
		suffix := info.Name()[len(fileName)+1:]
		number, err := strconv.Atoi(suffix)
		if err != nil || strconv.Itoa(number) != suffix || number < 0 {
			continue
		}
		n++
		if number > highest {
			highest = number
		}
	}
	if n != highest+1 {
		return 0, fmt.Errorf("a chunk of %s is missing", fileName)
	}
	return n, nil
}

func appendChunk(fd *os.File, path string) error {
	chunk, err := os.Open(path)
	if err != nil {
		return err
	}
	defer chunk.Close()
	_, err = io.Copy(fd, chunk)
	return err
}
"""}, [('	"fmt"\n', '	"fmt"\n	"io"\n')])])

R["zip"] = ("C31 C32 C33 C47 C48", [(U + "/zip.go", {
"func Unzip(": """
func Unzip(zipFile string, destDir string) ([]string, error) {
	zipReader, err := zip.OpenReader(zipFile)
	if err != nil {
		return []string{}, err
	}
	defer zipReader.Close()
	var paths []string
	for _, f := range zipReader.File {
		fpath, err := extract(f, destDir)
		if err != nil {
			return []string{}, err
		}
		paths = append(paths, fpath)
	}
	return paths, nil
}

func extract(f *zip.File, destDir string) (string, error) {
	fpath := filepath.Join(destDir, f.Name)
	root := filepath.Clean(destDir)
	inside := fpath == root || strings.HasPrefix(fpath, strings.TrimSuffix(root, "/")+"/")
	if root == "." {
		inside = fpath != ".." && !strings.HasPrefix(fpath, "../") && !filepath.IsAbs(fpath)
	} else if strings.HasSuffix(root, "..") {
		rel, err := filepath.Rel(root, fpath)
		inside = err == nil && rel != ".." && !strings.HasPrefix(rel, "../")
	}
	if !inside {
		return "", fmt.Errorf("illegal file path in zip: %s", f.Name)
	}
	if f.FileInfo().IsDir() {
		return fpath, os.MkdirAll(fpath, os.ModePerm)
	}
	if err := os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {
		return "", err
	}
	return fpath, unzipFile(f, fpath)
}
""",
"func ZipFiles(": """
func ZipFiles(filename string, files []string, oldForm, newForm string) error {
	target, err := os.Create(filename)
	if err != nil {
		return err
	}
	w := zip.NewWriter(target)
	for _, file := range files {
		if err = addFile(w, file, strings.ReplaceAll(file, oldForm, newForm)); err != nil {
			break
		}
	}
	if closeErr := w.Close(); err == nil {
		err = closeErr
	}
	if closeErr := target.Close(); err == nil {
		err = closeErr
	}
	return err
}

func addFile(w *zip.Writer, file, name string) error {
	source, err := os.Open(file)
	if err != nil {
		return err
	}
	defer source.Close()
	info, err := source.Stat()
	if err != nil {
		return err
	}
	header, err := zip.FileInfoHeader(info)
	if err != nil {
		return err
	}
	header.Name, header.Method = name, zip.Deflate
	part, err := w.CreateHeader(header)
	if err == nil {
		_, err = io.Copy(part, source)
	}
	return err
}
"""}, [])])

R["csv-base64-json"] = ("C40 C33 C47 C48", [(U + "/csv.go", {
"func ReadCsv(": """
func ReadCsv(path string) *[][]string {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var rows [][]string
	for r := csv.NewReader(f); ; {
		row, err := r.Read()
		if err == io.EOF {
			return &rows
		}
		if err != nil {
			return nil
		}
		rows = append(rows, row)
	}
}
""",
"func WriteCsv(": """
func WriteCsv(path string, content []string) (err error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		return err
	}
	defer func() {
		if closeErr := f.Close(); err == nil {
			err = closeErr
		}
	}()
	size, _ := f.Seek(0, io.SeekEnd)
	if size > 0 {
		var last [1]byte
		if _, err = f.ReadAt(last[:], size-1); err != nil {
			return err
		}
		if last[0] != 10 {
			if _, err = f.Write([]byte("\\r\\n")); err != nil {
				return err
			}
		}
	}
	if len(content) == 1 && len(content[0]) == 0 {
		_, err = io.WriteString(f, `""`+"\\r\\n")
		return err
	}
	w := csv.NewWriter(f)
	w.UseCRLF = true
	if err = w.Write(content); err == nil {
		w.Flush()
		err = w.Error()
	}
	return err
}
"""}, []), (U + "/maps.go", {
"func MapToJsonString(": """
func MapToJsonString(param map[string]interface{}) string {
	return Map2JsonString(param)
}
""",
"func GetSwitchFromOptions(": """
func GetSwitchFromOptions(Options map[string]bool, key string) (result bool) {
	flag, ok := Options[key]
	return !ok || flag
}
"""}, [])])

R["files"] = ("C35 C33 C41 C45 C46 C36 C47 C48", [(U + "/files.go", {
"func PathExists(": """
func PathExists(path string) (bool, error) {
	fi, err := os.Stat(path)
	switch {
	case os.IsNotExist(err):
		return false, nil
	case err != nil:
		return false, err
	case !fi.IsDir():
		return false, errors.New("have same file")
	}
	return true, nil
}
""",
"func CreateDir(": """
func CreateDir(dirs ...string) (err error) {
	for _, dir := range dirs {
		exist, err := PathExists(dir)
		if err == nil && !exist {
			err = os.MkdirAll(dir, os.ModePerm)
		}
		if err != nil {
			return err
		}
	}
	return nil
}
""",
"func FileMove(": """
func FileMove(src string, dst string) error {
	if dst == "" {
		return nil
	}
	from, err := filepath.Abs(src)
	if err != nil {
		return err
	}
	to, err := filepath.Abs(dst)
	if err != nil {
		return err
	}
	if _, err = os.Stat(filepath.Dir(to)); err != nil {
		if err = os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
			return err
		}
	}
	return os.Rename(from, to)
}
""",
"func FileMd5(": """
func FileMd5(path string) (string, error) {
	file, err := os.Open(path)
	if err != nil {
		return "", err
	}
	defer file.Close()
	h := md5.New()
	if _, err = io.Copy(h, file); err != nil {
		return "", err
	}
	return fmt.Sprintf("%x", h.Sum(nil)), nil
}
""",
"func IsImage(": """
func IsImage(path string) bool {
	ext := path[strings.LastIndex(path, ".")+1:]
	switch strings.ToLower(strings.TrimSpace(ext)) {
	case "jpeg", "jpg", "gif", "png", "bmp", "tif", "tiff":
		return true
	}
	return false
}
""",
"func GetSuffixName(": """
func GetSuffixName(str, seg string) string {
	parts := strings.Split(str, seg)
	if len(parts) < 2 {
		return ""
	}
	return parts[len(parts)-1]
}
""",
"func FormatByte(": """
func FormatByte(size int) string {
	units := []string{"B", "KB", "MB", "GB", "TB", "PB"}
	value, unit := float64(size), 0
	for unit < len(units)-1 && value > 1024 {
		value, unit = value/1024, unit+1
	}
	return fmt.Sprintf("%.2f %s", value, units[unit])
}
""",
"func ScanDir(": """
func ScanDir(dir string) (files []string, err error) {
	dir = strings.TrimSuffix(dir, "/")
	infos, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, info := range infos {
		file := dir + "/" + info.Name()
		if !info.IsDir() {
			files = append(files, file)
			continue
		}
		inner, err := ScanDir(file)
		if err != nil {
			return nil, err
		}
		files = append(files, inner...)
	}
	return files, nil
}
""",
"func humanateBytes(": """
func humanateBytes(s uint64, base float64, sizes []string) string {
	if s < 10 {
		return fmt.Sprintf("%d B", s)
	}
	e := int(logn(float64(s), base))
	val := float64(s) / math.Pow(base, float64(e))
	if val < 10 {
		return fmt.Sprintf("%.1f %s", val, sizes[e])
	}
	return fmt.Sprintf("%.0f %s", val, sizes[e])
}
""",
"func IsSameSiteURLPath(": """
func IsSameSiteURLPath(url string) bool {
	if len(url) < 2 || url[0] != '/' {
		return false
	}
	if c := url[1]; c == '/' || c == '\\\\' {
		return false
	}
	for i := range []byte(url) {
		switch url[i] {
		case 9, 10, 13:
			return false
		}
	}
	return true
}
""",
"func FileIsExisted(": """
func FileIsExisted(filename string) bool {
	_, err := os.Stat(filename)
	return !os.IsNotExist(err)
}
""",
"func CopyFile(": """
func CopyFile(dstName, srcName string) (written int64, err error) {
	src, err := os.Open(srcName)
	if err != nil {
		return 0, err
	}
	defer src.Close()
	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return 0, err
	}
	written, err = io.Copy(dst, src)
	if err == nil {
		err = cutOff(dst, written)
	}
	if closeErr := dst.Close(); err == nil {
		err = closeErr
	}
	return written, err
}

func cutOff(f *os.File, length int64) error {
	info, err := f.Stat()
	if err != nil || !info.Mode().IsRegular() {
		return nil
	}
	return f.Truncate(length)
}
"""}, []), (U + "/url.go", {
"func BuildUrl(": """
func BuildUrl(prefix string, params ...interface{}) string {
	var b strings.Builder
	if prefix = strings.Trim(prefix, "/"); prefix != "" {
		b.WriteString("/" + prefix)
	}
	for i := 0; i+1 < len(params); i += 2 {
		k, v := fmt.Sprint(params[i]), fmt.Sprint(params[i+1])
		if k == "" || v == "0" {
			continue
		}
		b.WriteString("/" + k + "/" + v)
	}
	return strings.TrimRight(b.String(), "/")
}
"""}, [])])

R["digests-aes"] = ("C34 C36 C30 C47 C48", [(U + "/md5.go", {
"func Md5Crypt(": """
func Md5Crypt(str string) string {
	sum := md5.Sum([]byte(str))
	return hex.EncodeToString(sum[:])
}
""",
"func Md5(": """
func Md5(s string) string {
	return Md5Crypt(s)
}
""",
"func pkcs7Padding(": """
func pkcs7Padding(data []byte, blockSize int) []byte {
	n := blockSize - len(data)%blockSize
	padded := make([]byte, len(data)+n)
	for i := copy(padded, data); i < len(padded); i++ {
		padded[i] = byte(n)
	}
	return padded
}
""",
"func pkcs7UnPadding(": """
func pkcs7UnPadding(data []byte) ([]byte, error) {
	if len(data) == 0 {
		return nil, errors.New("encrypt error")
	}
	n := int(data[len(data)-1])
	if n < 1 || n > aes.BlockSize || n > len(data) {
		return nil, errors.New("decrypt error: bad padding")
	}
	for _, c := range data[len(data)-n:] {
		if int(c) != n {
			return nil, errors.New("decrypt error: bad padding")
		}
	}
	return data[:len(data)-n], nil
}
""",
"func AesEncrypt(": """
func AesEncrypt(data []byte, key []byte) ([]byte, error) {
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	out := pkcs7Padding(data, block.BlockSize())
	cipher.NewCBCEncrypter(block, key[:block.BlockSize()]).CryptBlocks(out, out)
	return out, nil
}
"""}, [('	"bytes"\n', "")])])

MASK = """
func %s(%s string, maskNumber int) string {
%s}
"""
R["masks"] = ("C37 C46 C47 C48", [(U + "/strings.go", {
"func MaskMobile(": """
func maskFrom(text string, offset, count int) string {
	runes := []rune(text)
	if len(runes) <= offset+count {
		return text
	}
	for i := offset; i < offset+count; i++ {
		runes[i] = '*'
	}
	return string(runes)
}

func MaskMobile(mobile string, maskNumber int) string {
	if utf8.RuneCountInString(mobile) > 11 {
		return maskFrom(mobile, 5, maskNumber)
	}
	return maskFrom(mobile, 3, maskNumber)
}
""",
"func MaskIDCard(": """
func MaskIDCard(idcard string, maskNumber int) string {
	return maskFrom(idcard, 4, maskNumber)
}
""",
"func MaskBackCard(": """
func MaskBackCard(bankcard string, maskNumber int) string {
	if excess := utf8.RuneCountInString(bankcard) - 16; excess > 0 {
		maskNumber += excess
	}
	return maskFrom(bankcard, 4, maskNumber)
}
""",
"func MaskCustomerName(": """
func MaskCustomerName(name string) string {
	runes := []rune(name)
	switch n := len(runes); {
	case n == 0:
		return ""
	case n <= 4:
		return string(runes[0]) + "***"
	default:
		return string(runes[:2]) + "***" + string(runes[n-2:])
	}
}
""",
"func HideStar(": """
var mobilePattern = regexp.MustCompile(`^1[0-9]{10}$`)

func HideStar(str string) (result string) {
	if str == "" {
		return "***"
	}
	if parts := strings.Split(str, "@"); len(parts) > 1 {
		local := []rune(parts[0])
		if len(local) < 3 {
			local = nil
		} else {
			local = local[:3]
		}
		return string(local) + "***@" + parts[1]
	}
	if mobilePattern.MatchString(str) {
		return str[:3] + "****" + str[7:]
	}
	runes := []rune(str)
	n := len(runes)
	switch {
	case n <= 1:
		return "***"
	case n == 2:
		return string(runes[0]) + "*"
	case n <= 4:
		return string(runes[0]) + strings.Repeat("*", n-2) + string(runes[n-1])
	}
	return string(runes[:2]) + "***" + string(runes[n-2:])
}
""",
"func UpperFirst(": """
func UpperFirst(s string) string {
	for i, r := range s {
		if i > 0 || r == utf8.RuneError {
			break
		}
		return string(unicode.ToUpper(r)) + s[utf8.RuneLen(r):]
	}
	return s
}
"""}, [])])

R["math-rand-hash"] = ("C38 C39 C41 C42 C13 C47 C48", [("common/math/math.go", {
"func Split(": """
func Split(n, m uint) (uint, uint) {
	if n == 0 {
		return 0, 0
	}
	per := (n-1)/m + 1
	return per, n - (n-1)/per*per
}
""",
"func RoundUpPowOf2[": """
func RoundUpPowOf2[T constraints.Unsigned](n T) T {
	if IsPowOf2(n) {
		return n
	}
	return T(1) << bits.Len64(uint64(n))
}
""",
"func IsPowOf2[": """
func IsPowOf2[T constraints.Unsigned](n T) bool {
	return bits.OnesCount64(uint64(n)) == 1
}
"""}, []), (U + "/rand.go", {
"func RandStr(": """
var kindAlphabets = []string{"0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}

func RandStr(size int, kind int) string {
	out := make([]byte, 0, size)
	for len(out) < size {
		k := kind
		if k < 0 || k > 2 {
			k = rand.Intn(len(kindAlphabets))
		}
		alphabet := kindAlphabets[k]
		out = append(out, alphabet[rand.Intn(len(alphabet))])
	}
	return string(out)
}
"""}, []), ("common/hash/hash.go", {
"func (h *Hash) Sum64(": """
func (h *Hash) Sum64(b []byte) uint64 {
	return maphash.Bytes(h.h.Seed(), b)
}
""",
"func (h *Hash) Sum64String(": """
func (h *Hash) Sum64String(s string) uint64 {
	return maphash.String(h.h.Seed(), s)
}
"""}, [])])

R["cmd-sys"] = ("C43 C49 C47 C48", [(U + "/cmd.go", {
"func ShellExec(": """
func ShellExec(cmd string) (*bytes.Buffer, error) {
	var out, errOut bytes.Buffer
	command := exec.Command("sh")
	command.Stdin = strings.NewReader(cmd + "\\nexit\\n")
	command.Stdout, command.Stderr = &out, &errOut
	if err := command.Run(); err != nil {
		return nil, errors.New(errOut.String())
	}
	return &out, nil
}
"""}, [('	"os/exec"\n', '	"os/exec"\n	"strings"\n')]), (U + "/sys.go", {
"func Reload()": """
func Reload() error {
	if runtime.GOOS == "windows" {
		return errors.New("system not allow")
	}
	return syscall.Kill(os.Getppid(), syscall.SIGHUP)
}
"""}, [('	"os/exec"\n', ""), ('	"strconv"\n', '	"syscall"\n')])])

R["comments"] = ("C21 C26 C35", [(TW + "bucket.go", {}, [("func (t *Timer) Stop() bool {\n", "func (t *Timer) Stop() bool {\n	_ = t\n")])])
