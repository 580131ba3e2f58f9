// Package hp drives the array heaps (binary, n-ary, priority queue) against a
// multiset model.
package hp

import (
	"fmt"
	"math/bits"

	"verif/harness/mon"
)

// Item is an element with a sort key and a unique identity.
type Item struct{ Key, ID int }

// Heap is the API the array heaps share; Remove and Fix may be missing.
type Heap interface {
	Push(*Item)
	Pop() *Item
	Peek() *Item
	Len() int
	Empty() bool
}
type Indexed interface {
	Remove(i int) *Item
	Fix(i int)
}

// Make builds a heap holding initial under less.
type Make func(initial []*Item, less func(a, b *Item) bool) Heap

type op struct {
	kind string
	i    int
	it   Item
}

// replay brings a twin heap, of copies of the items, through the same
// operations.
func replay(mk Make, base []Item, less func(a, b *Item) bool, ops []op) Heap {
	of := map[int]*Item{}
	clone := func(it Item) *Item { of[it.ID] = &it; return &it }
	var initial []*Item
	for _, it := range base {
		initial = append(initial, clone(it))
	}
	h := mk(initial, less)
	for _, o := range ops {
		switch o.kind {
		case "push":
			h.Push(clone(o.it))
		case "pop":
			h.Pop()
		case "remove":
			h.(Indexed).Remove(o.i)
		case "fix":
			of[o.it.ID].Key = o.it.Key
			h.(Indexed).Fix(o.i)
		}
	}
	return h
}

// Drive runs one seeded history.
func Drive(c *mon.C, name string, mk Make, canInit bool) {
	sign := mon.Pick(c.Rand, 1, -1)
	keys := mon.Pick(c.Rand, 2, 5, 40, 100000)
	less := func(a, b *Item) bool { return a.Key*sign < b.Key*sign }
	id := 0
	fresh := func() *Item { id++; return &Item{c.IntN(keys) - keys/2, id} }
	var initial []*Item
	if canInit {
		for n := mon.Pick(c.Rand, 0, 0, 1, 2, 3, 4, 5, 7, 8, 9, c.IntN(70), c.IntN(70), c.IntN(1500)); n > 0; n-- {
			initial = append(initial, fresh())
		}
		switch c.IntN(7) { // sorted, reversed, nil and spare capacity
		case 0:
			for i := range initial {
				initial[i].Key = i
			}
		case 1:
			for i := range initial {
				initial[i].Key = -i
			}
		case 2:
			initial = append(make([]*Item, 0, len(initial)+c.IntN(20)), initial...)
		case 3, 4: // in order (one way or the other) but for a few, or only at first, or only at the end
			up := mon.Pick(c.Rand, 1, -1)
			from, to := 0, len(initial)
			if n := len(initial); n > 0 {
				switch c.IntN(3) {
				case 0:
					to = c.IntN(n + 1)
				case 1:
					from = c.IntN(n + 1)
				}
			}
			for i := from; i < to; i++ {
				initial[i].Key = i * up
			}
			if from == 0 && to == len(initial) && to > 1 {
				for n := 1 + c.IntN(3); n > 0; n-- {
					initial[c.IntN(to)].Key = c.IntN(3*to) - to
				}
			}
		}
	}
	live := map[*Item]bool{}
	byID := map[int]*Item{}
	var base []Item
	for _, it := range initial {
		live[it] = true
		byID[it.ID] = it
		base = append(base, *it)
	}
	h := mk(initial, less)
	c.Log("%s init=%d order=%+d keys=%d", name, len(initial), sign, keys)
	var ops []op
	fixes := 0
	top := func(it *Item, what string) {
		c.Check(it != nil && live[it], "%s: %s returned %v, which is not in the heap (%d elements)", name, what, it, len(live))
		for x := range live {
			c.Check(!less(x, it), "%s: %s returned key %d although key %d is in the heap (order %+d, %d elements)", name, what, it.Key, x.Key, sign, len(live))
		}
	}
	size := func() {
		c.Check(h.Len() == len(live) && h.Empty() == (len(live) == 0), "%s: Len=%d Empty=%v with %d elements in it", name, h.Len(), h.Empty(), len(live))
	}
	size()
	ix, canIndex := h.(Indexed)
	grow := c.IntN(3) // 0 shrinking, 1 balanced, 2 growing
	steps := mon.Pick(c.Rand, 5, 20, 60, 60, 120)
	if !canInit && c.IntN(12) == 0 {
		steps = 1500
	}
	for s := 0; s < steps; s++ {
		k := c.IntN(10)
		switch {
		case k < 3+grow || len(live) == 0:
			it := fresh()
			h.Push(it)
			live[it] = true
			byID[it.ID] = it
			ops = append(ops, op{kind: "push", it: *it})
			c.Log("push %d#%d", it.Key, it.ID)
		case k < 7:
			top(h.Peek(), "Peek")
			it := h.Pop()
			top(it, "Pop")
			delete(live, it)
			ops = append(ops, op{kind: "pop"})
			c.Log("pop %d#%d", it.Key, it.ID)
		case k < 9 && canIndex:
			i := mon.Pick(c.Rand, c.IntN(len(live)), 0, len(live)-1)
			it := ix.Remove(i)
			c.Check(it != nil && live[it], "%s: Remove(%d) returned %v, which is not in the heap", name, i, it)
			delete(live, it)
			ops = append(ops, op{kind: "remove", i: i})
			c.Log("remove[%d] %d#%d", i, it.Key, it.ID)
			if len(live) > 0 {
				top(h.Peek(), "Peek after Remove")
			}
		case canIndex && fixes < 12 && len(ops) < 200:
			// change the element at index i, then Fix(i). A twin heap brought
			// through the same operations tells which element index i holds.
			i := c.IntN(len(live))
			twin := replay(mk, base, less, ops).(Indexed).Remove(i)
			it := byID[twin.ID]
			c.Check(live[it] && it.Key == twin.Key, "%s: index %d of a twin holds %v, which is not in the heap", name, i, twin)
			fixes++
			old := it.Key
			it.Key = c.IntN(2*keys) - keys
			ops = append(ops, op{kind: "fix", i: i, it: *it})
			ix.Fix(i)
			c.Log("fix[%d] %d->%d", i, old, it.Key)
			c.M.Count("fixes", 1)
			top(h.Peek(), "Peek after Fix")
		}
		size()
	}
	c.M.Count("operations", steps)
	c.M.Peak("largest_heap", len(live))
	if len(live) > 1 {
		c.Nontrivial()
	}
	// everything must come out, in order, exactly once
	var prev *Item
	for n := len(live); n > 0; n-- {
		if n <= 40 {
			top(h.Peek(), "Peek while draining")
		}
		it := h.Pop()
		c.Check(it != nil && live[it], "%s: drain popped %v, which is not in the heap", name, it)
		c.Check(prev == nil || !less(it, prev), "%s: drain popped %v after %v (order %+d)", name, it, prev, sign)
		prev = it
		delete(live, it)
		size()
	}
}

// LogBound is a generous bound on the comparisons of one O(log n) operation.
func LogBound(n int) int { return 4*bits.Len(uint(n+1)) + 8 }

func (i *Item) String() string {
	if i == nil {
		return "nil"
	}
	return fmt.Sprintf("%d#%d", i.Key, i.ID)
}

// El is an element held by value.
type El struct{ Key, ID int }

// Values is what the heaps share over elements held by value.
type Values interface {
	Push(El)
	Pop() El
	Peek() El
	Len() int
	Empty() bool
}

// Huge fills and empties a heap of more elements than 16 bits count, in waves.
func Huge(c *mon.C, name string, canInit bool, mk func(initial []El, less func(a, b El) bool) Values) {
	n := mon.Pick(c.Rand, 33000, 65536, 65537, 66000, 70000+c.IntN(30000), 140000)
	span := mon.Pick(c.Rand, 100, 70000, 1<<40)
	sign := mon.Pick(c.Rand, 1, -1)
	less := func(a, b El) bool { return a.Key*sign < b.Key*sign }
	in := map[int]int{} // id -> key, what is inside
	id := 0
	fresh := func() El {
		id++
		in[id] = c.IntN(span)
		return El{in[id], id}
	}
	var initial []El
	if canInit {
		for i := mon.Pick(c.Rand, 0, n/2, n); i > 0; i-- {
			initial = append(initial, fresh())
		}
	}
	c.Log("%s n=%d init=%d keys=%d order=%+d", name, n, len(initial), span, sign)
	h := mk(initial, less)
	take := func(e El, what string) {
		k, ok := in[e.ID]
		c.Check(ok && k == e.Key, "%s of %d elements: %s returned %v, which is not inside (%v, %v)", name, len(in), what, e, k, ok)
		delete(in, e.ID)
	}
	for wave := 0; wave < 2; wave++ {
		for len(in) < n {
			h.Push(fresh())
		}
		c.Check(h.Len() == len(in) && h.Empty() == (len(in) == 0), "%s: Len=%d Empty=%v with %d elements", name, h.Len(), h.Empty(), len(in))
		if r, ok := h.(interface{ Remove(int) El }); ok {
			for i := c.IntN(3000); i > 0; i-- {
				take(r.Remove(mon.Pick(c.Rand, c.IntN(len(in)), len(in)-1-c.IntN(10))), "Remove")
			}
		}
		var last El
		k := mon.Pick(c.Rand, len(in), len(in)-1, len(in)/2)
		if wave == 1 {
			k = len(in)
		}
		for i := 0; i < k; i++ {
			p := h.Peek()
			e := h.Pop()
			c.Check(i == 0 || !less(e, last), "%s of %d elements: popped %v after %v (order %+d)", name, len(in), e, last, sign)
			c.Check(p.Key == e.Key, "%s of %d elements: Peek said %v and Pop gave %v", name, len(in), p, e)
			take(e, "Pop")
			last = e
		}
		if k > 0 {
			for i, key := range in {
				c.Check(!less(El{key, i}, last), "%s: popped %v although key %d is inside (%d elements, order %+d)", name, last, key, len(in), sign)
			}
		}
		c.Check(h.Len() == len(in) && h.Empty() == (len(in) == 0), "%s: Len=%d Empty=%v with %d elements", name, h.Len(), h.Empty(), len(in))
	}
	c.M.Peak("largest_heap", n)
	c.Nontrivial()
}

// Deep fills a heap with more than a million elements, in an order that makes
// them sink and rise all the way, and empties it.
func Deep(c *mon.C, name string, mk func(initial []El, less func(a, b El) bool) Values) {
	n := 1<<20 + c.IntN(1<<18)
	sign := mon.Pick(c.Rand, 1, -1)
	mult := mon.Pick(c.Rand, 1, -1, 2654435761) // rising, falling, scattered
	key := func(i int) int { return i * mult & (1<<31 - 1) }
	less := func(a, b El) bool { return a.Key*sign < b.Key*sign }
	c.Log("%s n=%d times=%d order=%+d", name, n, mult, sign)
	h := mk(nil, less)
	for i := 0; i < n; i++ {
		h.Push(El{key(i), i})
	}
	seen := make([]bool, n)
	last := El{}
	for i := 0; i < n; i++ {
		e := h.Pop()
		ok := e.ID >= 0 && e.ID < n && !seen[e.ID] && e.Key == key(e.ID)
		if !ok || i > 0 && less(e, last) {
			c.Fail("%s of %d elements: pop %d gave %v after %v (order %+d)", name, n, i, e, last, sign)
			return
		}
		seen[e.ID] = true
		last = e
	}
	c.Check(h.Len() == 0 && h.Empty(), "%s of %d elements: Len=%d after as many pops", name, n, h.Len())
	c.M.Peak("largest_heap", n)
	c.Nontrivial()
}
