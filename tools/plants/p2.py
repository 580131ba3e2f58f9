H="common/container/heap/heap.go"; HN="common/container/heap/heapn.go"; ME="common/container/meap/maep.go"; RE="common/container/reap/reap.go"
L="common/container/list/list.go"; DQ="common/container/deque/deque.go"; ST="common/container/stack/stack.go"; SE="common/container/set/set.go"
FX="common/container/ringbuffer/fix/fix.go"; RO="common/container/ringbuffer/round/roud.go"; UN="common/container/ringbuffer/unbounded/unbounded.go"
BL="common/filter/bloom/bloom.go"
def T(pkg, imports, body):
    return "package "+pkg+"\n\nimport (\n"+"".join('\t"%s"\n'%i for i in imports)+")\n\nfunc TestPlantedDemo(t *testing.T) {\n"+body+"\n}\n"
LT="func(a, b int) bool { return a < b }"
PLANTS=[
dict(id="c07-remove-no-up", property="C07", pkg="common/container/heap",
 needs="removing an element whose replacement, the last one, is smaller than the removed one's parent", breaks="the replacement stays below a larger parent",
 edits=[(H,"""		h.swap(i, n)
		if !h.down(i, n) {
			h.up(i)
		}
""","""		h.swap(i, n)
		h.down(i, n)
""")],
 test=T("heap",["math/rand","testing"],"""
	for s := int64(0); s < 2000; s++ {
		r := rand.New(rand.NewSource(s))
		h := New(nil, """+LT+""")
		for i := 0; i < 20; i++ { h.Push(r.Intn(1000)) }
		h.Remove(r.Intn(20))
		last := -1
		for !h.Empty() { v := h.Pop(); if v < last { t.Fatal("out of order") }; last = v }
	}
""")),
dict(id="c07-heapify-even", property="C07", pkg="common/container/heap",
 needs="building from a slice of even length whose last element is the smallest of its subtree", breaks="the last parent is skipped when the heap is built from an existing slice",
 edits=[(H,"	for i := n/2 - 1; i >= 0; i-- {","	for i := (n-1)/2 - 1; i >= 0; i-- {")],
 test=T("heap",["testing"],"""
	h := New([]int{2, 3, 4, 1}, """+LT+""")
	if v := h.Pop(); v != 1 { t.Fatal(v) }
""")),
dict(id="c07-fix-bottom", property="C07", pkg="common/container/heap",
 needs="Fix on an index whose element has become smaller while its children are equal to it", breaks="an element that moved neither way is not compared with its parent",
 edits=[(H,"	if !h.down(i, h.Len()) {\n		h.up(i)","	if n := h.Len(); !h.down(i, n) && 2*i+1 >= n {\n		h.up(i)")],
 test=T("heap",["testing"],"""
	type E struct{ k int }
	var es []*E
	for i := 0; i < 15; i++ { es = append(es, &E{10 * i}) }
	h := New(es, func(a, b *E) bool { return a.k < b.k })
	es[3].k = -1
	h.Fix(3)
	if v := h.Pop(); v.k != -1 { t.Fatal(v.k) }
""")),
dict(id="c08-parent-slot", property="C08", pkg="common/container/heap",
 needs="an element pushed into the last child position of a node", breaks="the parent of the last child of a node is miscomputed",
 edits=[(HN,"		i := (j - 1) / h.n // parent\n","		i := j / h.n // parent\n		if i*h.n != j || h.n == 2 {\n			i = (j - 1) / h.n\n		}\n")],
 test=T("heap",["math/rand","testing"],"""
	for s := int64(0); s < 500; s++ {
		r := rand.New(rand.NewSource(s))
		h := NewN(3, """+LT+""")
		for i := 0; i < 30; i++ { h.Push(r.Intn(1000)) }
		last := -1
		for !h.Empty() { v := h.Pop(); if v < last { t.Fatal("out of order") }; last = v }
	}
""")),
dict(id="c08-narrow-last", property="C08", pkg="common/container/heap",
 needs="an arity of at least four and a removal in the middle of the heap", breaks="Remove at an inner node does not let the replacement rise",
 edits=[(HN,"""		h.swap(i, n)
		if !h.down(i, n) {
			h.up(i)
		}
""","""		h.swap(i, n)
		if !h.down(i, n) && (h.n < 4 || i%h.n == 0) {
			h.up(i)
		}
""")],
 test=T("heap",["math/rand","testing"],"""
	for s := int64(0); s < 5000; s++ {
		r := rand.New(rand.NewSource(s))
		h := NewN(4, """+LT+""")
		for i := 0; i < 40; i++ { h.Push(r.Intn(1000)) }
		h.Remove(r.Intn(40))
		last := -1
		for !h.Empty() { v := h.Pop(); if v < last { t.Fatal("out of order") }; last = v }
	}
""")),
dict(id="c09-linear-update", property="C09", pkg="common/container/meap",
 needs="updating present keys of a large heap", breaks="an update rebuilds the whole heap: the cost is linear, not logarithmic",
 edits=[(ME,"		h.h[index].Value = value\n		h.fix(index)\n","		h.h[index].Value = value\n		for i := h.Len()/2 - 1; i >= 0; i-- {\n			h.down(i, h.Len())\n		}\n")],
 test=T("meap",["testing"],"""
	n := 0
	h := New(func(a, b Entry[int, int]) bool { n++; return a.Value < b.Value })
	for i := 0; i < 4096; i++ { h.Push(i, i) }
	n = 0
	h.Push(2000, -1)
	if n > 100 { t.Fatal(n) }
""")),
dict(id="c09-swap-same", property="C09", pkg="common/container/meap",
 needs="removing a key that is neither last nor first, then asking for the key that took its place", breaks="the index of the element that moved into the gap goes stale when it needs not move again",
 edits=[(ME,"""		h.swap(i, n)
		if !h.down(i, n) {
			h.up(i)
		}
""","""		h.h[i], h.h[n] = h.h[n], h.h[i]
		if !h.down(i, n) {
			h.up(i)
		}
		if h.h[i].Key != key && i > n/2 {
			h.m[h.h[i].Key] = i
		}
""")],
 test=T("meap",["testing"],"""
	h := New(func(a, b Entry[int, int]) bool { return a.Value < b.Value })
	for i := 0; i < 8; i++ { h.Push(i, i) }
	for i := 0; i < 7; i++ {
		h.Remove(i)
		for j := i + 1; j < 8; j++ { if v, ok := h.Get(j); !ok || v != j { t.Fatal(i, j, v, ok) } }
	}
""")),
dict(id="c09-less-by-key", property="C09", pkg="common/container/meap",
 needs="updating a present key with a value that sorts before its parent's, at a node with children", breaks="an updated entry only sinks and never rises",
 edits=[(ME,"	if !h.down(i, h.Len()) {\n		h.up(i)","	if 2*i+1 < h.Len() {\n		h.down(i, h.Len())\n	} else {\n		h.up(i)")],
 test=T("meap",["testing"],"""
	h := New(func(a, b Entry[int, int]) bool { return a.Value < b.Value })
	for i := 0; i < 8; i++ { h.Push(i, i) }
	h.Push(1, -1)
	if h.Peek().Key != 1 { t.Fatal(h.Peek()) }
""")),
dict(id="c10-popped-handle", property="C10", pkg="common/container/reap",
 needs="Remove or SetValue on the handle of an element that was popped", breaks="popping leaves the handle alive, so it acts on whichever element sits at its old index",
 edits=[(RE,"	// 标记元素已经被删除\n	elem.index = -1\n	return elem.value","	return elem.value"),(RE,"	h.pop()\n	return true","	h.pop()\n	// 标记元素已经被删除\n	e.index = -1\n	return true")],
 test=T("meap",["testing"],"""
	h := New("""+LT+""")
	e := h.Push(1)
	h.Push(2)
	h.Push(3)
	h.Pop()
	if h.Remove(e) || h.Len() != 2 { t.Fatal("removed twice") }
""")),
dict(id="c10-equal-setvalue", property="C10", pkg="common/container/reap",
 needs="SetValue with a value the order does not tell from the old one", breaks="a value that compares equal is not stored",
 edits=[(RE,"	e.value = value\n	h.fix(e.index)\n","	if old := e.value; h.lessFunc(old, value) || h.lessFunc(value, old) {\n		e.value = value\n		h.fix(e.index)\n	}\n")],
 test=T("meap",["testing"],"""
	type E struct{ k, id int }
	h := New(func(a, b E) bool { return a.k < b.k })
	e := h.Push(E{1, 1})
	h.SetValue(e, E{1, 2})
	if e.Value().id != 2 { t.Fatal(e.Value()) }
""")),
dict(id="c10-swap-index", property="C10", pkg="common/container/reap",
 needs="a long rise of one element followed by removing, by its handle, one of those it passed", breaks="elements pushed aside while another rises keep a stale index",
 edits=[(RE,"		h.swap(i, j)\n		j = i\n","		h.h[i], h.h[j] = h.h[j], h.h[i]\n		h.h[i].index = i\n		if j > h.Len()/2 {\n			h.h[j].index = j\n		}\n		j = i\n")],
 test=T("meap",["testing"],"""
	h := New("""+LT+""")
	var es []*Entry[int]
	for i := 20; i > 0; i-- { es = append(es, h.Push(i)) }
	for i, e := range es {
		if !h.Remove(e) || h.Len() != 19-i { t.Fatal(i) }
		if e.Value() != 20-i { t.Fatal(i) }
	}
	_ = es
	h2 := New("""+LT+""")
	es = nil
	for i := 20; i > 0; i-- { es = append(es, h2.Push(i)) }
	h2.Remove(es[0])
	seen := map[int]bool{}
	for !h2.Empty() { seen[h2.Pop()] = true }
	for i := 1; i < 20; i++ { if !seen[i] { t.Fatal("lost", i) } }
""")),
dict(id="c11-move-neighbour", property="C11", pkg="common/container/list",
 needs="moving an element to where it already is (behind its own predecessor)", breaks="moving an element behind its predecessor drops it from the backward links",
 edits=[(L,"""	e.prev.next = e.next
	e.next.prev = e.prev

	e.prev = at
	e.next = at.next
	e.prev.next = e
""","""	next := at.next
	e.prev.next = e.next
	e.next.prev = e.prev

	e.prev = at
	e.next = next
	e.prev.next = e
""")],
 test=T("list",["testing"],"""
	l := New[int]()
	l.PushBack(1)
	a := l.PushBack(2)
	l.PushBack(3)
	l.MoveAfter(a, l.Front())
	n := 0
	for e := l.Front(); e != nil && n < 10; e = e.Next() { n++ }
	if n != 3 { t.Fatal(n) }
""")),
dict(id="c11-foreign-mark", property="C11", pkg="common/container/list",
 needs="MoveAfter naming a mark of another list", breaks="the element is linked into the other list without being counted there",
 edits=[(L,"	if e.list != l || e == mark || mark.list != l {\n		return\n	}\n	l.move(e, mark)","	if e.list != l || e == mark || mark.list == nil {\n		return\n	}\n	l.move(e, mark)")],
 test=T("list",["testing"],"""
	l, o := New[int](), New[int]()
	e := l.PushBack(1)
	m := o.PushBack(2)
	l.MoveAfter(e, m)
	if l.Front() != e || l.Back() != e || m.Next() != nil { t.Fatal("changed") }
""")),
dict(id="c11-stale-removed", property="C11", pkg="common/container/list",
 needs="using an element again after it was removed from the list", breaks="a removed element still claims to belong to its list: removing it twice or inserting at it corrupts the list",
 edits=[(L,"	e.next = nil // avoid memory leaks\n	e.prev = nil // avoid memory leaks\n	e.list = nil\n	l.len--","	if e.list = nil; l.len == 1 {\n		e.list = l\n	}\n	l.len--")],
 test=T("list",["testing"],"""
	l := New[int]()
	e := l.PushBack(1)
	l.Remove(e)
	l.Remove(e)
	if l.Len() != 0 { t.Fatal(l.Len()) }
""")),
dict(id="c12-count-before-pop", property="C12", pkg="common/container/deque",
 needs="popping an empty deque (and surviving the panic), then asking for its length", breaks="the count goes below what is inside after a pop on empty",
 edits=[(DQ,"	l *list.List[T]\n}","	l *list.List[T]\n	n int\n}"),(DQ,"	d.l.PushFront(elem)","	d.n++\n	d.l.PushFront(elem)"),(DQ,"	d.l.PushBack(elem)","	d.n++\n	d.l.PushBack(elem)"),
  (DQ,"	return d.l.RemoveFront()","	d.n--\n	return d.l.RemoveFront()"),(DQ,"	return d.l.RemoveBack()","	d.n--\n	return d.l.RemoveBack()"),(DQ,"	return d.l.Len()","	return d.n")],
 test=T("deque",["testing"],"""
	d := New[int]()
	func() { defer func() { recover() }(); d.PopBack() }()
	d.PushBack(1)
	if d.Len() != 1 { t.Fatal(d.Len()) }
""")),
dict(id="c12-peek-pops", property="C12", pkg="common/container/stack",
 needs="peeking a stack again after more elements were pushed", breaks="the top is remembered from the last peek while the stack only grows",
 edits=[(ST,"	l *list.List[T]\n}","	l   *list.List[T]\n	top *list.Element[T]\n}"),(ST,"	return s.l.RemoveBack()","	s.top = nil\n	return s.l.RemoveBack()"),(ST,"	return s.l.Back().Value","	if s.top == nil || s.top.Prev() == nil {\n		s.top = s.l.Back()\n	}\n	return s.top.Value")],
 test=T("deque",["testing"],"""
	s := New[int]()
	s.Push(1); s.Push(2)
	s.Peek()
	s.Push(3)
	if v := s.Peek(); v != 3 { t.Fatal(v) }
""")),
dict(id="c13-alias", property="C13", pkg="common/container/ringbuffer/fix",
 needs="keeping a batch while the ring is refilled", breaks="a batch that does not wrap aliases the ring, so later pushes overwrite it",
 edits=[(FX,"	elems := make([]T, size)\n	copied := copy(elems, r.data[out:])\n	copy(elems[copied:], r.data)\n","	elems := r.data[out:]\n	if uint64(len(elems)) >= size {\n		elems = elems[:size:size]\n	} else {\n		elems = append(make([]T, 0, size), elems...)\n		elems = append(elems, r.data[:size-uint64(len(elems))]...)\n	}\n")],
 test=T("fix",["testing"],"""
	r := New[int](4)
	r.MPush(1, 2, 3, 4)
	b := r.MPop(4)
	r.MPush(5, 6, 7, 8)
	if b[0] != 1 { t.Fatal(b) }
""")),
dict(id="c13-wrap-copy", property="C13", pkg="common/container/ringbuffer/round",
 needs="MPopCopy over the wrap-around", breaks="the part behind the wrap-around is dropped although it was asked for",
 edits=[(RO,"	copied += copy(dst[copied:], r.data)\n","	if copied == 0 {\n		copied += copy(dst, r.data)\n	}\n")],
 test=T("round",["testing"],"""
	r := New[int](4)
	r.MPush(1, 2, 3)
	r.MPop(3)
	r.MPush(4, 5, 6)
	d := make([]int, 3)
	r.MPopCopy(d)
	if d[2] != 6 || !r.Empty() { t.Fatal(d) }
""")),
dict(id="c13-peek-power", property="C13", pkg="common/container/ringbuffer/round",
 needs="a size that is no power of two, and Peek after wrapping", breaks="Peek wraps at the size asked for, not at the capacity",
 edits=[(RO,"	size uint64 // 长度\n","	size uint64 // 长度\n	want uint64\n"),(RO,"	if size > MaxSize {\n","	want := size\n	if size > MaxSize {\n"),(RO,"		size: size,\n","		size: size,\n		want: want,\n"),(RO,"	return r.data[r.out%r.size]","	return r.data[r.out%(r.want+r.want%2)%r.size]")],
 test=T("round",["testing"],"""
	r := New[int](5)
	for i := 0; i < 20; i++ {
		r.Push(i)
		if v := r.Peek(); v != i { t.Fatal(v, i) }
		r.Pop()
	}
""")),
dict(id="c13-reset-full", property="C13", pkg="common/container/ringbuffer/fix",
 needs="Reset of a ring whose read index has wrapped, followed by use", breaks="Reset rewinds the write index to the read index's place in the array but leaves the read index",
 edits=[(FX,"	r.in = 0\n	r.out = 0\n","	r.in = r.in % r.size\n	r.out = r.in\n"),(FX,"	r.data = make([]T, r.size)\n}","	if len(r.data) > 8 {\n		r.data = r.data[:r.size/2]\n	}\n	r.data = make([]T, len(r.data))\n}")],
 test=T("fix",["testing"],"""
	r := New[int](10)
	r.Reset()
	for i := 0; i < 10; i++ { r.Push(i) }
	for i := 0; i < 10; i++ { if v := r.Pop(); v != i { t.Fatal(v) } }
""")),
dict(id="c15-grow-wrapped", property="C15", pkg="common/container/ringbuffer/unbounded",
 needs="an explicit Grow of a wrapped ring that is not full", breaks="growing a wrapped ring copies one stretch too many and shifts the elements behind the wrap",
 edits=[(UN,"	copied := copy(data[:len], r.data[out:])\n	copy(data[copied:len], r.data)\n","	copied := copy(data, r.data[out:])\n	if len == r.size || copied < int(len) {\n		copy(data[copied:], r.data[:len-uint64(copied)])\n	} else if out+len > r.size-1 {\n		copy(data[1:], data)\n	}\n")],
 test=T("unbounded",["testing"],"""
	r := New[int](4)
	r.MPush(1, 2, 3)
	r.MPop(2)
	r.Push(4)
	r.Grow(9)
	for _, w := range []int{3, 4} { if v := r.Pop(); v != w { t.Fatal(v, w) } }
""")),
dict(id="c15-mpush-grow", property="C15", pkg="common/container/ringbuffer/unbounded",
 needs="a batch far larger than the ring pushed while the ring holds elements", breaks="room is made for the batch alone, not for the batch and what is already inside",
 edits=[(UN,"		r.Grow(r.Cap() + size)\n","		r.Grow(size)\n")],
 test=T("unbounded",["testing"],"""
	r := New[int](4)
	r.MPush(1, 2, 3, 4)
	b := make([]int, 20)
	r.MPush(b...)
	if r.Len() != 24 || r.Cap() < 24 { t.Fatal(r.Len(), r.Cap()) }
	if v := r.Pop(); v != 1 { t.Fatal(v) }
""")),
dict(id="c16-clear-tail", property="C16", pkg="common/filter/bloom",
 needs="Clear after an element that set a bit in the last word", breaks="the last word keeps its bits through Clear",
 edits=[(BL,"	for i := range f.bits {\n		f.bits[i] = 0\n	}\n","	for i := 1; i < len(f.bits); i++ {\n		f.bits[i-1] = 0\n	}\n")],
 test=T("bloom",["testing"],"""
	f := New(10, 0.1)
	for i := uint64(0); i < 1000; i++ { f.Add(i) }
	f.Clear()
	for i := uint64(0); i < 1000; i++ { if f.Contains(i) { t.Fatal(i) } }
""")),
dict(id="c16-shared-hasher", property="C16", pkg="common/filter/bloom",
 needs="strings and bytes of more than 64 bytes, or with an invalid UTF-8 sequence", breaks="a string is hashed by its characters, so invalid UTF-8 makes it differ from the same bytes",
 edits=[(BL,"	return f.ContainsBytes([]byte(s))","	return f.ContainsBytes([]byte(string([]rune(s))))")],
 test=T("bloom",["testing"],"""
	f := New(1000, 0.0001)
	f.AddBytes([]byte{0xff, 0xfe, 'a'})
	if !f.ContainsString(string([]byte{0xff, 0xfe, 'a'})) { t.Fatal("false negative") }
""")),
dict(id="c17-few-seeds", property="C17", pkg="common/filter/bloom",
 needs="a filter filled to its capacity with a very small configured rate", breaks="the number of hash functions is cut, so the false-positive rate is far above the configured one",
 edits=[(BL,"	seedCnt := int(math.Ceil(math.Ln2 * float64(bitCnt) / float64(capacity)))","	seedCnt := int(math.Min(6, math.Ceil(math.Ln2*float64(bitCnt)/float64(capacity))))")],
 test=T("bloom",["testing"],"""
	f := New(20000, 0.0001)
	for i := uint64(0); i < 20000; i++ { f.Add(i * 2654435761) }
	n := 0
	for i := uint64(20000); i < 1020000; i++ { if f.Contains(i * 2654435761) { n++ } }
	if n > 250 { t.Fatal(n) }
""")),
dict(id="c17-short-hash", property="C17", pkg="common/filter/bloom",
 needs="a filter with very many string elements and a small configured rate", breaks="strings are hashed to 32 bits before they are spread, so many distinct strings are one element",
 edits=[(BL,"	fnvHash := fnv.New64()\n	fnvHash.Write(b)\n	return fnvHash.Sum64()","	fnvHash := fnv.New64()\n	fnvHash.Write(b)\n	return fnvHash.Sum64() & (1<<20 - 1)")],
 test=T("bloom",["fmt","testing"],"""
	f := New(20000, 0.001)
	for i := 0; i < 20000; i++ { f.AddString(fmt.Sprint("k", i)) }
	n := 0
	for i := 20000; i < 220000; i++ { if f.ContainsString(fmt.Sprint("k", i)) { n++ } }
	if n > 600 { t.Fatal(n) }
""")),
]
