from p18 import *
from p18 import T, GD, Wt, clk
from p13 import REf, LIf
PLANTS=[
dict(id="c10-late-recycle", property="C10", pkg="common/container/reap", needs="a handle used long after its element left", breaks="entries that left a while ago are used again",
 edits=[(REf,"	lessFunc LessFunc[T]\n}","	lessFunc LessFunc[T]\n	free     []*Entry[T] // 已删除的元素，保留一段时间后复用\n}"),
        (REf,"	entry := &Entry[T]{\n		value: value,\n		index: h.Len(),\n	}\n","	var entry *Entry[T]\n	if len(h.free) > 200 {\n		entry, h.free = h.free[0], h.free[1:]\n	} else {\n		entry = &Entry[T]{}\n	}\n	entry.value = value\n	entry.index = h.Len()\n"),
        (REf,"	elem.index = -1\n	return elem.value\n","	elem.index = -1\n	h.free = append(h.free, elem)\n	return elem.value\n")],
 test=T("meap","""
	h := New(func(a, b int) bool { return a < b })
	e := h.Push(1)
	h.Pop()
	for i := 0; i < 1000; i++ { h.Push(i); if h.Remove(e) { t.Fatal(i) }; h.Pop() }
""")),
dict(id="c11-late-recycle", property="C11", pkg="common/container/list", needs="a handle used long after a Clear", breaks="lists are told apart by the number of their Clear, in 16 bits",
 edits=[(LIf,"	list *List[T]\n\n","	list *List[T]\n	gen  uint16 // list在加入时的代\n\n"),
        (LIf,"	len  int        // current list length excluding (this) sentinel element\n","	len  int        // current list length excluding (this) sentinel element\n	gen  uint16     // number of times the list was cleared\n"),
        (LIf,"	for e := l.Front(); e != nil; { // the elements are not in the list any more\n		next := e.Next()\n		e.next, e.prev, e.list = nil, nil, nil\n		e = next\n	}\n","	l.gen++\n"),
        (LIf,"	e.list = l\n	l.len++","	e.list = l\n	e.gen = l.gen\n	l.len++"),
        (LIf,"	if e.list == l {\n","	if e.list == l && e.gen == l.gen {\n"),
        (LIf,"	if p := e.next; e.list != nil &&","	if p := e.next; e.list != nil && e.gen == e.list.gen &&"),
        (LIf,"	if p := e.prev; e.list != nil &&","	if p := e.prev; e.list != nil && e.gen == e.list.gen &&"),
        (LIf,"func (l *List[T]) InsertBefore(v T, mark *Element[T]) *Element[T] {\n	if mark.list != l {","func (l *List[T]) InsertBefore(v T, mark *Element[T]) *Element[T] {\n	if mark.list != l || mark.gen != l.gen {"),
        (LIf,"func (l *List[T]) InsertAfter(v T, mark *Element[T]) *Element[T] {\n	if mark.list != l {","func (l *List[T]) InsertAfter(v T, mark *Element[T]) *Element[T] {\n	if mark.list != l || mark.gen != l.gen {"),
        (LIf,"	if e.list != l || l.root.next == e {","	if e.list != l || e.gen != l.gen || l.root.next == e {"),
        (LIf,"	if e.list != l || l.root.prev == e {","	if e.list != l || e.gen != l.gen || l.root.prev == e {"),
        (LIf,"func (l *List[T]) MoveBefore(e, mark *Element[T]) {\n	if e.list != l || e == mark || mark.list != l {","func (l *List[T]) MoveBefore(e, mark *Element[T]) {\n	if e.list != l || e == mark || mark.list != l || e.gen != l.gen || mark.gen != l.gen {"),
        (LIf,"func (l *List[T]) MoveAfter(e, mark *Element[T]) {\n	if e.list != l || e == mark || mark.list != l {","func (l *List[T]) MoveAfter(e, mark *Element[T]) {\n	if e.list != l || e == mark || mark.list != l || e.gen != l.gen || mark.gen != l.gen {"),
        ],
 test=T("list","""
	l := New[int]()
	e := l.PushBack(1)
	for i := 0; i < 65536; i++ { l.Clear() }
	l.PushBack(2)
	l.Remove(e)
	if l.Len() != 1 { t.Fatal(l.Len()) }
""")),
dict(id="c22-late-recycle", property="C22", pkg=TWd, needs="a timer stopped long after it ran", breaks="timers that ended a while ago are used for new tasks",
 edits=[(TWbf,"type bucket struct {","// 已结束的定时器，保留一段时间后复用\nvar freeTimers = make(chan *Timer, 512)\n\nfunc newTimer() *Timer {\n	if len(freeTimers) > 256 {\n		return <-freeTimers\n	}\n	return &Timer{}\n}\n\nfunc freeTimer(t *Timer) {\n	select {\n	case freeTimers <- t:\n	default:\n	}\n}\n\ntype bucket struct {"),
        (TWf,"	t := &Timer{\n		expiration: time.Now().Add(delay).UnixMilli(),\n		task:       f,\n	}\n	tw.addOrRun(t)\n	return t\n","	t := newTimer()\n	t.expiration = time.Now().Add(delay).UnixMilli()\n	t.task = func() {\n		f()\n		freeTimer(t)\n	}\n	tw.addOrRun(t)\n	return t\n")],
 test=T("timingwheel","""
	tw := New(1, 20)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go tw.Run(ctx)
	e := tw.AfterFunc(0, func() {})
	time.Sleep(20 * time.Millisecond)
	for i := 0; i < 300; i++ { tw.AfterFunc(0, func() {}) }
	time.Sleep(50 * time.Millisecond)
	for i := 0; i < 300; i++ { tw.AfterFunc(time.Hour, func() {}) ; if e.Stop() { t.Fatal(i) } }
""",["context","time"])),
]
