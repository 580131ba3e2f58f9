package c12

import (
	"fmt"
	"math"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C12", "seeded operation histories against slice and map models, with the structures emptied and refilled; non-trivial = became empty again at least once", func(m *mon.M) {
		m.Cases("deque", m.N(2500), func(c *mon.C) {
			d := deque.New[int]()
			other := deque.New[int]()
			var mod []int
			bias := c.IntN(5)
			emptied := 0
			for s, steps := 0, mon.Pick(c.Rand, 10, 100, 600); s < steps; s++ {
				push := c.IntN(6+bias) >= 4
				switch front := c.IntN(2) == 0; {
				case push && front:
					d.PushFront(s)
					mod = append([]int{s}, mod...)
					c.Log("push front %d", s)
				case push:
					d.PushBack(s)
					mod = append(mod, s)
					c.Log("push back %d", s)
				case len(mod) == 0:
					p, _ := mon.Panics(func() {
						if front {
							d.PopFront()
						} else {
							d.PopBack()
						}
					})
					c.Check(p, "Pop on an empty deque returned something")
				case front:
					v := d.PopFront()
					c.Log("pop front %d", v)
					c.Check(v == mod[0], "PopFront = %d, want %d", v, mod[0])
					mod = mod[1:]
				default:
					v := d.PopBack()
					c.Log("pop back %d", v)
					c.Check(v == mod[len(mod)-1], "PopBack = %d, want %d", v, mod[len(mod)-1])
					mod = mod[:len(mod)-1]
				}
				if !push && len(mod) == 0 {
					emptied++
				}
				c.Check(d.Len() == len(mod) && d.Empty() == (len(mod) == 0), "Len=%d Empty=%v, want %d", d.Len(), d.Empty(), len(mod))
				c.Check(other.Empty(), "another deque changed")
			}
			c.M.Count("emptied", emptied)
			if emptied > 0 {
				c.Nontrivial()
			}
			for len(mod) > 0 {
				v := d.PopFront()
				c.Check(v == mod[0], "drain: PopFront = %d, want %d", v, mod[0])
				mod = mod[1:]
			}
			c.Check(d.Empty() && d.Len() == 0, "not empty after the drain")
		})
		m.Cases("stack", m.N(2500), func(c *mon.C) {
			d := stack.New[string]()
			var mod []string
			bias := c.IntN(5)
			emptied := 0
			for s, steps := 0, mon.Pick(c.Rand, 10, 100, 600); s < steps; s++ {
				if c.IntN(6+bias) >= 4 {
					v := fmt.Sprint(s)
					d.Push(v)
					mod = append(mod, v)
					c.Log("push %s", v)
				} else if len(mod) > 0 && c.IntN(4) == 0 {
					w := mod[len(mod)-1]
					c.Log("peek")
					c.Check(d.Peek() == w, "Peek = %q, want %q", d.Peek(), w)
				} else if len(mod) == 0 {
					p, _ := mon.Panics(func() { d.Pop() })
					c.Check(p, "Pop on an empty stack returned something")
					p, _ = mon.Panics(func() { d.Peek() })
					c.Check(p, "Peek on an empty stack returned something")
				} else {
					w := mod[len(mod)-1]
					c.Check(d.Peek() == w, "Peek = %q, want %q", d.Peek(), w)
					v := d.Pop()
					c.Log("pop %s", v)
					c.Check(v == w, "Pop = %q, want %q", v, w)
					mod = mod[:len(mod)-1]
					if len(mod) == 0 {
						emptied++
					}
				}
				c.Check(d.Len() == len(mod) && d.Empty() == (len(mod) == 0), "Len=%d Empty=%v, want %d", d.Len(), d.Empty(), len(mod))
			}
			if emptied > 0 {
				c.Nontrivial()
			}
			for len(mod) > 0 {
				v := d.Pop()
				c.Check(v == mod[len(mod)-1], "drain: Pop = %q", v)
				mod = mod[:len(mod)-1]
			}
			c.Check(d.Empty(), "not empty after the drain")
		})
		m.Cases("set", m.N(1500), func(c *mon.C) {
			s, other := set.New[int](), set.New[int]()
			mod := map[int]bool{}
			keys := mon.Pick(c.Rand, 2, 8, 60, 1000)
			emptied, again := 0, 0
			for i, steps := 0, mon.Pick(c.Rand, 10, 100, 800); i < steps; i++ {
				k := c.IntN(keys) - keys/2
				switch c.IntN(5) {
				case 0, 1:
					if mod[k] {
						again++
					}
					s.Add(k)
					mod[k] = true
					c.Log("add %d", k)
				case 2, 3:
					n := len(mod)
					s.Remove(k)
					delete(mod, k)
					c.Log("remove %d", k)
					if n > 0 && len(mod) == 0 {
						emptied++
					}
				default:
				}
				c.Check(s.Contains(k) == mod[k], "Contains(%d) = %v", k, s.Contains(k))
				k2 := c.IntN(keys) - keys/2
				c.Check(s.Contains(k2) == mod[k2], "Contains(%d) = %v", k2, s.Contains(k2))
				c.Check(s.Len() == len(mod) && s.Empty() == (len(mod) == 0), "Len=%d Empty=%v, want %d", s.Len(), s.Empty(), len(mod))
				c.Check(other.Empty() && !other.Contains(k), "another set changed")
			}
			c.M.Count("added_again", again)
			if emptied > 0 || again > 0 {
				c.Nontrivial()
			}
			for k := -keys; k < keys; k++ {
				c.Check(s.Contains(k) == mod[k], "at the end Contains(%d) = %v", k, s.Contains(k))
			}
		})
		// elements of other types, many of which print alike
		m.Cases("kinds", m.N(300), func(c *mon.C) {
			type pair struct{ A, B string }
			type named int
			ps := []*int{new(int), new(int), nil}
			words := []string{"", " ", "a", "b", "a b", "b a", "<nil>", "0", "1", "[", "{a b}", "\x00", "\xff", "\xfe", "é", "e\u0301", "A"}
			word := func() string { return mon.Pick(c.Rand, words...) }
			kinds(c, "pair", func() pair { return pair{word(), word()} })
			kinds(c, "array", func() [2]string { return [2]string{word(), word()} })
			kinds(c, "pointer", func() *int { return mon.Pick(c.Rand, ps...) })
			kinds(c, "string", word)
			kinds(c, "bool", func() bool { return c.IntN(2) == 0 })
			kinds(c, "float", func() float64 {
				return mon.Pick(c.Rand, 0, math.Copysign(0, -1), 1, 1+1e-16, 1+3e-16, 1e300, math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64, 9007199254740992, 9007199254740994)
			})
			kinds(c, "uint64", func() uint64 { return mon.Pick[uint64](c.Rand, 0, 1, 1<<32, 1<<32+1, 1<<53, 1<<53+1, math.MaxUint64) })
			kinds(c, "empty struct", func() struct{} { return struct{}{} })
			kinds(c, "any", func() any {
				return mon.Pick[any](c.Rand, nil, 0, int8(0), int64(0), uint(0), 0.0, float32(0), "0", false, named(0), named(1), 1, int8(1), "1", true, 'a', "a", 97, pair{"a", "b"}, [2]string{"a", "b"}, ps[0], ps[1], ps[2], word(), struct{}{})
			})
			c.Nontrivial()
		})
		// several deques, stacks and sets at once, long histories
		m.Cases("several", m.N(400), func(c *mon.C) {
			type seq struct {
				name             string
				pushF, pushB     func(string)
				popF, popB, peek func() string
				len              func() int
				empty            func() bool
				mod              []string
			}
			var all []*seq
			mk := func() {
				if c.IntN(2) == 0 {
					d := deque.New[string]()
					all = append(all, &seq{name: fmt.Sprint("deque ", len(all)), pushF: d.PushFront, pushB: d.PushBack, popF: d.PopFront, popB: d.PopBack, len: d.Len, empty: d.Empty})
				} else {
					d := stack.New[string]()
					all = append(all, &seq{name: fmt.Sprint("stack ", len(all)), pushB: d.Push, popB: d.Pop, peek: d.Peek, len: d.Len, empty: d.Empty})
				}
			}
			for i := 2 + c.IntN(3); i > 0; i-- {
				mk()
			}
			sets := []*set.Set[string]{set.New[string](), set.New[string]()}
			in := []map[string]bool{{}, {}}
			steps := mon.Pick(c.Rand, 50, 300, 300, 6000)
			phase := 0
			emptied := 0
			for s := 0; s < steps; s++ {
				if s%(steps/5+1) == 0 {
					phase = c.IntN(3) // growing, level, shrinking
				}
				if c.IntN(60) == 0 && len(all) < 8 {
					mk() // one made late
				}
				q := all[c.IntN(len(all))]
				v := mon.Pick(c.Rand, "", "0", fmt.Sprint(s), fmt.Sprint(s), fmt.Sprint(c.IntN(8)))
				switch {
				case c.IntN(10) < 8-3*phase:
					if q.pushF != nil && c.IntN(2) == 0 {
						q.pushF(v)
						q.mod = append([]string{v}, q.mod...)
					} else {
						q.pushB(v)
						q.mod = append(q.mod, v)
					}
				case len(q.mod) == 0:
					f := q.popB
					if q.popF != nil && c.IntN(2) == 0 {
						f = q.popF
					}
					if q.peek != nil && c.IntN(2) == 0 {
						f = q.peek
					}
					p, _ := mon.Panics(func() { f() })
					c.Check(p, "%s: popping or peeking it empty returned something", q.name)
				case q.popF != nil && c.IntN(2) == 0:
					g := q.popF()
					c.Check(g == q.mod[0], "%s: PopFront = %q, want %q", q.name, g, q.mod[0])
					q.mod = q.mod[1:]
				default:
					w := q.mod[len(q.mod)-1]
					if q.peek != nil {
						g := q.peek()
						c.Check(g == w, "%s: Peek = %q, want %q", q.name, g, w)
					}
					g := q.popB()
					c.Check(g == w, "%s: popping its back = %q, want %q", q.name, g, w)
					q.mod = q.mod[:len(q.mod)-1]
				}
				if len(q.mod) == 0 {
					emptied++
				}
				for _, q := range all {
					c.Check(q.len() == len(q.mod) && q.empty() == (len(q.mod) == 0), "%s: Len=%d Empty=%v, want %d", q.name, q.len(), q.empty(), len(q.mod))
				}
				si := c.IntN(2)
				if c.IntN(10) < 6-2*phase {
					sets[si].Add(v)
					in[si][v] = true
				} else {
					sets[si].Remove(v)
					delete(in[si], v)
				}
				for i := range sets {
					c.Check(sets[i].Contains(v) == in[i][v] && sets[i].Len() == len(in[i]) && sets[i].Empty() == (len(in[i]) == 0), "set %d: Contains(%q)=%v Len=%d, want %v, %d", i, v, sets[i].Contains(v), sets[i].Len(), in[i][v], len(in[i]))
				}
				if s < 40 {
					c.Log("%s %q: %d inside", q.name, v, len(q.mod))
				}
			}
			if emptied > 0 {
				c.Nontrivial()
			}
			for _, q := range all {
				c.M.Peak("longest", len(q.mod))
				for i := len(q.mod) - 1; i >= 0; i-- {
					g := q.popB()
					c.Check(g == q.mod[i], "%s: drain gave %q, want %q", q.name, g, q.mod[i])
				}
				c.Check(q.empty() && q.len() == 0, "%s: not empty after the drain", q.name)
			}
		})
		// more elements than 16 bits count
		m.Cases("huge", m.N(8), func(c *mon.C) {
			n := mon.Pick(c.Rand, 12000, 33000, 66000, 70000+c.IntN(80000))
			d, k, s := deque.New[int](), stack.New[int](), set.New[int]()
			c.Log("%d elements", n)
			c.Nontrivial()
			for wave := 0; wave < 2; wave++ {
				lo, hi := 0, 0 // the deque holds lo..hi-1
				for i := 0; i < n; i++ {
					if c.IntN(2) == 0 {
						lo--
						d.PushFront(lo)
					} else {
						d.PushBack(hi)
						hi++
					}
					k.Push(i)
					s.Add(3 * i)
				}
				c.Check(d.Len() == n && !d.Empty() && k.Len() == n && !k.Empty() && s.Len() == n && !s.Empty(), "after %d insertions: deque %d, stack %d, set %d", n, d.Len(), k.Len(), s.Len())
				for i := 0; i < 3*n; i++ {
					c.Check(s.Contains(i) == (i%3 == 0), "set of %d: Contains(%d)=%v", n, i, s.Contains(i))
				}
				for i := n - 1; i >= 0; i-- {
					v := k.Peek()
					w := k.Pop()
					c.Check(v == i && w == i && k.Len() == i, "stack of %d: Peek %d, Pop %d, then Len %d; want %d", n, v, w, k.Len(), i)
					if c.IntN(2) == 0 {
						v = d.PopFront()
						c.Check(v == lo, "deque of %d: PopFront %d, want %d", n, v, lo)
						lo++
					} else {
						hi--
						v = d.PopBack()
						c.Check(v == hi, "deque of %d: PopBack %d, want %d", n, v, hi)
					}
					s.Remove(3 * i)
					c.Check(!s.Contains(3*i) && s.Len() == i && d.Len() == i, "of %d: %d left, set Len=%d, deque Len=%d, removed one still there=%v", n, i, s.Len(), d.Len(), s.Contains(3*i))
				}
				c.Check(d.Empty() && k.Empty() && s.Empty(), "not empty at the end")
			}
			c.M.Peak("longest", n)
		})
	})
}

// kinds compares a set of any type with a map.
func kinds[T comparable](c *mon.C, what string, gen func() T) {
	s, mod := set.New[T](), map[T]bool{}
	for i := 10 + c.IntN(60); i > 0; i-- {
		switch e := gen(); c.IntN(3) {
		case 0:
			s.Remove(e)
			delete(mod, e)
		default:
			s.Add(e)
			mod[e] = true
		}
		e := gen()
		c.Check(s.Contains(e) == mod[e] && s.Len() == len(mod) && s.Empty() == (len(mod) == 0), "set of %s elements: Contains(%#v)=%v Len=%d, want %v, %d", what, e, s.Contains(e), s.Len(), mod[e], len(mod))
	}
	c.M.Count("elements_of_other_types", len(mod))
}
