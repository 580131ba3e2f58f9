package c09

import (
	"fmt"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/meap"
	"verif/harness/hp"
	"verif/harness/mon"
)

func drive[K comparable](c *mon.C, key func(i int) K, keys int) {
	type E = meap.Entry[K, int]
	vals := mon.Pick(c.Rand, 2, 8, 1000)
	sign := mon.Pick(c.Rand, 1, -1)
	cmps := 0
	// by value alone, or ties broken by the key
	byKey := c.IntN(3) == 0
	rank := map[K]int{}
	for i := 0; i < keys; i++ {
		rank[key(i)] = i
	}
	less := func(a, b E) bool {
		if byKey && a.Value == b.Value {
			return rank[a.Key]*sign < rank[b.Key]*sign
		}
		return a.Value*sign < b.Value*sign
	}
	h := meap.New(func(a, b E) bool { cmps++; return less(a, b) })
	model := map[K]int{}
	c.Log("%T keys=%d values=%d order=%+d ties by key=%v", *new(K), keys, vals, sign, byKey)
	top := func(e E, what string) {
		v, ok := model[e.Key]
		c.Check(ok && v == e.Value, "%s returned %v; the map holds (%v,%v) for that key", what, e, v, ok)
		for k, v := range model {
			c.Check(!less(E{Key: k, Value: v}, e), "%s returned %v although %v=%d is inside", what, e, k, v)
		}
	}
	logn := func(what string) {
		c.Check(cmps <= hp.LogBound(len(model)), "%s on %d elements made %d comparisons", what, len(model), cmps)
		c.M.Peak("max_comparisons", cmps)
		cmps = 0
	}
	steps := mon.Pick(c.Rand, 10, 60, 200, 600)
	grow := c.IntN(3)
	updates, removes := 0, 0
	for s := 0; s < steps; s++ {
		k := key(c.IntN(keys))
		cmps = 0
		switch o := c.IntN(12); {
		case o < 4+grow:
			v := c.IntN(vals)
			_, had := model[k]
			if had {
				updates++
			}
			h.Push(k, v)
			model[k] = v
			c.Log("push %v=%d (had=%v)", k, v, had)
			logn("Push")
		case o < 7:
			n := len(model)
			h.Remove(k)
			delete(model, k)
			if len(model) < n {
				removes++
			}
			c.Log("remove %v", k)
			logn("Remove")
		case o < 9 && len(model) > 0:
			top(h.Peek(), "Peek")
			e := h.Pop()
			top(e, "Pop")
			delete(model, e.Key)
			c.Log("pop %v=%d", e.Key, e.Value)
			logn("Pop")
		default:
			v, ok := h.Get(k)
			w, has := model[k]
			c.Check(ok == has && v == w, "Get(%v) = (%v,%v), the model says (%v,%v)", k, v, ok, w, has)
		}
		c.Check(h.Contains(k) == has(model, k), "Contains(%v) = %v", k, h.Contains(k))
		c.Check(h.Len() == len(model) && h.Empty() == (len(model) == 0), "Len=%d Empty=%v with %d keys", h.Len(), h.Empty(), len(model))
		if s%8 == 7 || s == steps-1 {
			for k, v := range model {
				g, ok := h.Get(k)
				c.Check(ok && g == v && h.Contains(k), "Get(%v) = (%v,%v), the model says %v", k, g, ok, v)
			}
		}
	}
	c.M.Count("operations", steps)
	c.M.Count("updates_in_place", updates)
	c.M.Count("removals_by_key", removes)
	if updates > 0 && removes > 0 {
		c.Nontrivial()
	}
	for len(model) > 0 {
		e := h.Pop()
		top(e, "drain Pop")
		delete(model, e.Key)
		c.Check(h.Len() == len(model) && !h.Contains(e.Key), "after popping %v: Len=%d Contains=%v, want Len=%d", e, h.Len(), h.Contains(e.Key), len(model))
	}
}

func has[K comparable](m map[K]int, k K) bool { _, ok := m[k]; return ok }

// keyed is a keyed heap of numbered elements.
type keyed struct{ *meap.Meap[int, int] }

func el(e meap.Entry[int, int]) hp.El { return hp.El{Key: e.Value, ID: e.Key} }
func (k keyed) Push(e hp.El)          { k.Meap.Push(e.ID, e.Key) }
func (k keyed) Pop() hp.El            { return el(k.Meap.Pop()) }
func (k keyed) Peek() hp.El           { return el(k.Meap.Peek()) }

func TestProp(t *testing.T) {
	mon.Run(t, "C09", "seeded operation histories over few keys against a map model, drained at the end; non-trivial = some key updated in place and some key removed", func(m *mon.M) {
		m.Cases("int", m.N(2500), func(c *mon.C) { drive(c, func(i int) int { return i }, mon.Pick(c.Rand, 3, 10, 60, 400)) })
		// thousands of entries, filled and emptied in waves
		m.Cases("large", m.N(60), func(c *mon.C) {
			keys := 1000 + c.IntN(9000)
			if c.Idx%12 == 0 { // more than 16 bits count
				keys = mon.Pick(c.Rand, 66000, 110000, 140000)
			}
			cmps := 0
			h := meap.New(func(a, b meap.Entry[int, int]) bool { cmps++; return a.Value < b.Value })
			model := map[int]int{}
			logn := func(what string) {
				c.Check(cmps <= hp.LogBound(len(model)), "%s on %d elements made %d comparisons", what, len(model), cmps)
				cmps = 0
			}
			for wave := 0; wave < 3; wave++ {
				for i := 0; i < keys; i++ {
					k, v := c.IntN(keys), c.IntN(3*keys)
					h.Push(k, v)
					model[k] = v
					logn("Push")
				}
				for i := c.IntN(keys); i > 0; i-- {
					k := c.IntN(keys)
					h.Remove(k)
					delete(model, k)
					logn("Remove")
				}
				prev := -1
				n := mon.Pick(c.Rand, len(model), len(model)-1, c.IntN(len(model)))
				c.Log("wave %d: %d inside, pop %d", wave, len(model), n)
				for ; n > 0; n-- {
					e := h.Pop()
					v, ok := model[e.Key]
					c.Check(ok && v == e.Value && v >= prev, "Pop of %d entries gave %v after %d, the map says (%v,%v)", len(model), e, prev, v, ok)
					prev = v
					delete(model, e.Key)
					logn("Pop")
				}
				c.Check(h.Len() == len(model), "Len=%d with %d keys", h.Len(), len(model))
				for k, v := range model {
					g, ok := h.Get(k)
					c.Check(ok && g == v && v >= prev, "Get(%v) = (%v,%v), the model says %v (last popped %d)", k, g, ok, v, prev)
				}
			}
			c.Nontrivial()
		})
		m.Cases("deep", m.N(2), func(c *mon.C) {
			hp.Deep(c, "keyed heap", func(_ []hp.El, less func(a, b hp.El) bool) hp.Values {
				return keyed{meap.New(func(a, b meap.Entry[int, int]) bool { return less(el(a), el(b)) })}
			})
		})
		m.Cases("string", m.N(800), func(c *mon.C) {
			drive(c, func(i int) string {
				if i == 0 {
					return ""
				}
				return fmt.Sprint("k", i)
			}, mon.Pick(c.Rand, 3, 10, 60))
		})
		m.Cases("struct", m.N(500), func(c *mon.C) {
			drive(c, func(i int) [2]int { return [2]int{i % 7, i / 7} }, mon.Pick(c.Rand, 3, 10, 60))
		})
	})
}
