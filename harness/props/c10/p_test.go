package c10

import (
	"testing"

	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"verif/harness/hp"
	"verif/harness/mon"
)

// handles is a handle heap whose handles nobody keeps.
type handles struct{ *reap.Reap[hp.El] }

func (h handles) Push(e hp.El) { h.Reap.Push(e) }

func TestProp(t *testing.T) {
	mon.Run(t, "C10", "seeded operation histories on handles (live, popped and removed) against a multiset model, drained at the end; non-trivial = removed by handle, changed by handle and used a dead handle", func(m *mon.M) {
		m.Cases("history", m.N(3000), func(c *mon.C) {
			vals := mon.Pick(c.Rand, 2, 8, 1000)
			sign := mon.Pick(c.Rand, 1, -1)
			cmps := 0
			type V struct{ key, id int }
			less := func(a, b V) bool { return a.key*sign < b.key*sign }
			h := reap.New(func(a, b V) bool { cmps++; return less(a, b) })
			type ent = *reap.Entry[V]
			live := map[ent]V{}
			var all []ent
			byID := map[int]ent{}
			id := 0
			c.Log("values=%d order=%+d", vals, sign)
			fresh := func() V { id++; return V{c.IntN(vals), id} }
			top := func(v V, what string) {
				e, ok := byID[v.id]
				c.Check(ok && live[e] == v, "%s returned %v, which is not in the heap", what, v)
				for _, x := range live {
					c.Check(!less(x, v), "%s returned %v although %v is inside", what, v, x)
				}
			}
			logn := func(what string) {
				c.Check(cmps <= hp.LogBound(len(live)), "%s on %d elements made %d comparisons", what, len(live), cmps)
				c.M.Peak("max_comparisons", cmps)
				cmps = 0
			}
			removed, changed, dead := 0, 0, 0
			steps := mon.Pick(c.Rand, 10, 60, 200, 600)
			grow := c.IntN(3)
			for s := 0; s < steps; s++ {
				cmps = 0
				o := c.IntN(12)
				switch {
				case o < 4+grow || len(all) == 0:
					v := fresh()
					e := h.Push(v)
					c.Check(e != nil && e.Value() == v, "Push(%v) returned a handle with another value", v)
					live[e] = v
					byID[v.id] = e
					all = append(all, e)
					c.Log("push %v", v)
					logn("Push")
				case o < 7:
					e := all[c.IntN(len(all))]
					v, ok := live[e]
					got := h.Remove(e)
					delete(live, e)
					if ok {
						removed++
					} else {
						dead++
					}
					c.Log("remove %v live=%v -> %v", v, ok, got)
					c.Check(got == ok, "Remove of a handle (in the heap: %v) returned %v", ok, got)
					logn("Remove")
				case o < 10:
					e := all[c.IntN(len(all))]
					old, ok := live[e]
					before := e.Value()
					v := fresh()
					got := h.SetValue(e, v)
					c.Log("set %v -> %v live=%v -> %v", old, v, ok, got)
					c.Check(got == ok, "SetValue on a handle (in the heap: %v) returned %v", ok, got)
					if ok {
						changed++
						delete(byID, old.id)
						byID[v.id] = e
						live[e] = v
						c.Check(e.Value() == v, "after SetValue(%v) the handle says %v", v, e.Value())
					} else {
						dead++
						c.Check(e.Value() == before, "SetValue on a dead handle changed it from %v to %v", before, e.Value())
					}
					logn("SetValue")
				case len(live) > 0:
					top(h.Peek(), "Peek")
					v := h.Pop()
					top(v, "Pop")
					delete(live, byID[v.id])
					c.Log("pop %v", v)
					logn("Pop")
				}
				c.Check(h.Len() == len(live) && h.Empty() == (len(live) == 0), "Len=%d Empty=%v with %d elements", h.Len(), h.Empty(), len(live))
				if len(live) > 0 && (len(live) < 50 || s%8 == 0) {
					top(h.Peek(), "Peek after every step")
				}
			}
			c.M.Count("operations", steps)
			c.M.Count("removed_by_handle", removed)
			c.M.Count("changed_by_handle", changed)
			c.M.Count("dead_handle_uses", dead)
			if removed > 0 && changed > 0 && dead > 0 {
				c.Nontrivial()
			}
			for len(live) > 0 {
				v := h.Pop()
				top(v, "drain Pop")
				e := byID[v.id]
				delete(live, e)
				c.Check(!h.Remove(e) && h.Len() == len(live), "a popped handle could be removed again")
			}
		})
		// thousands of elements, filled and emptied in waves
		m.Cases("deep", m.N(2), func(c *mon.C) {
			hp.Deep(c, "handle heap", func(_ []hp.El, less func(a, b hp.El) bool) hp.Values { return handles{reap.New(less)} })
		})
		// handles stay dead however many elements come and go after them
		m.Cases("dead for long", m.N(12), func(c *mon.C) {
			rounds := mon.Pick(c.Rand, 300, 600, 1200, 5000)
			if c.Idx == 0 {
				rounds = 70_000
			}
			c.Log("%d rounds", rounds)
			h := reap.New(func(a, b int) bool { return a < b })
			e0, e1, e2 := h.Push(3), h.Push(1), h.Push(2)
			c.Check(h.Pop() == 1 && h.Remove(e2) && h.Pop() == 3, "three elements came out wrong")
			dead := map[*reap.Entry[int]]int{e0: 3, e1: 1, e2: 2}
			for n := 0; n < rounds; n++ {
				v := c.IntN(1000)
				e := h.Push(v)
				for d, was := range dead {
					c.Check(!h.SetValue(d, -1) && !h.Remove(d) && d.Value() == was && h.Len() == 1 && h.Peek() == v,
						"a handle dead for %d rounds was taken for one inside", n)
				}
				if n%2 == 0 {
					c.Check(h.Pop() == v, "Pop of the only element gave another")
				} else {
					c.Check(h.Remove(e), "Remove of the only element returned false")
				}
				if n%16 == 0 && len(dead) < 10 {
					dead[e] = v
				}
			}
			c.M.Count("rounds_dead", rounds)
			c.Nontrivial()
		})
		m.Cases("large", m.N(60), func(c *mon.C) {
			size := 1000 + c.IntN(6000)
			if c.Idx%12 == 0 { // more than 16 bits count
				size = mon.Pick(c.Rand, 40000, 66000, 80000)
			}
			cmps := 0
			h := reap.New(func(a, b [2]int) bool { cmps++; return a[0] < b[0] })
			type ent = *reap.Entry[[2]int]
			live := map[int]ent{}
			key := map[int]int{}
			var dead []ent
			id := 0
			logn := func(what string) {
				c.Check(cmps <= hp.LogBound(len(live)), "%s on %d elements made %d comparisons", what, len(live), cmps)
				cmps = 0
			}
			for wave := 0; wave < 3; wave++ {
				for i := 0; i < size; i++ {
					id++
					key[id] = c.IntN(size)
					live[id] = h.Push([2]int{key[id], id})
					logn("Push")
				}
				for i := c.IntN(size); i > 0; i-- {
					k := 1 + c.IntN(id)
					e, ok := live[k]
					if !ok {
						continue
					}
					cmps = 0
					if c.IntN(2) == 0 {
						key[k] = c.IntN(size)
						c.Check(h.SetValue(e, [2]int{key[k], k}), "SetValue on an element inside returned false")
						logn("SetValue")
					} else {
						c.Check(h.Remove(e), "Remove of an element inside returned false")
						logn("Remove")
						delete(live, k)
						dead = append(dead, e)
					}
				}
				prev := -1
				n := mon.Pick(c.Rand, len(live), len(live)-1, c.IntN(len(live)))
				c.Log("wave %d: %d inside, pop %d", wave, len(live), n)
				for ; n > 0; n-- {
					v := h.Pop()
					e, ok := live[v[1]]
					c.Check(ok && key[v[1]] == v[0] && v[0] >= prev && e.Value() == v, "Pop of %d elements gave %v after key %d", len(live), v, prev)
					prev = v[0]
					delete(live, v[1])
					dead = append(dead, e)
					logn("Pop")
				}
				c.Check(h.Len() == len(live), "Len=%d with %d elements", h.Len(), len(live))
				for k, e := range live {
					c.Check(e.Value() == [2]int{key[k], k} && key[k] >= prev, "the handle of %v says %v (last popped key %d)", [2]int{key[k], k}, e.Value(), prev)
				}
				for i := 0; i < 50 && len(dead) > 0; i++ {
					e := dead[c.IntN(len(dead))]
					c.Check(!h.Remove(e) && !h.SetValue(e, [2]int{-1, -1}) && h.Len() == len(live), "a dead handle did something")
				}
			}
			c.Nontrivial()
		})
	})
}
