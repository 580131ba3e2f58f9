package c11

import (
	"fmt"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"verif/harness/mon"
)

type elem = *list.Element[int]

// compare checks a list against its model in both directions.
func compare(c *mon.C, what string, l *list.List[int], m []elem, vals map[elem]int) {
	c.Check(l.Len() == len(m) && l.Empty() == (len(m) == 0), "%s: Len=%d Empty=%v, the model has %d", what, l.Len(), l.Empty(), len(m))
	if len(m) == 0 {
		c.Check(l.Front() == nil && l.Back() == nil, "%s: empty list has a front or a back", what)
		return
	}
	e := l.Front()
	for i, w := range m {
		if e != w {
			c.Fail("%s: walking forward, position %d holds the wrong element", what, i)
		}
		if e.Value != vals[w] {
			c.Fail("%s: position %d has value %d, want %d", what, i, e.Value, vals[w])
		}
		e = e.Next()
	}
	c.Check(e == nil, "%s: walking forward does not end after %d elements", what, len(m))
	e = l.Back()
	for i := len(m) - 1; i >= 0; i-- {
		if e != m[i] {
			c.Fail("%s: walking backward, position %d holds the wrong element", what, i)
		}
		e = e.Prev()
	}
	c.Check(e == nil, "%s: walking backward does not end", what)
}

func index(m []elem, e elem) int {
	for i, x := range m {
		if x == e {
			return i
		}
	}
	return -1
}
func insert(m []elem, i int, e elem) []elem {
	m = append(m, nil)
	copy(m[i+1:], m[i:])
	m[i] = e
	return m
}
func remove(m []elem, i int) []elem { return append(m[:i], m[i+1:]...) }

func TestProp(t *testing.T) {
	mon.Run(t, "C11", "seeded operation histories over 1-3 lists (zero-value and built) and handles (own, of another list, dead) against slice models, both walks compared after every step; non-trivial = a move of an inner element and an operation through a foreign or dead handle", func(m *mon.M) {
		m.Cases("history", m.N(4000), func(c *mon.C) {
			k := 1 + c.IntN(3)
			ls := make([]*list.List[int], k)
			mods := make([][]elem, k)
			for i := range ls {
				if c.IntN(2) == 0 {
					ls[i] = list.New[int]()
				} else {
					ls[i] = new(list.List[int])
				}
			}
			vals := map[elem]int{}
			var all []elem // every handle still valid to use
			next := 0
			moves, foreign := 0, 0
			val := func() int { next++; return next }
			note := func(e elem, v int) {
				if _, held := vals[e]; held {
					c.Fail("an insertion gave an element that was handed out before")
				}
				vals[e] = v
				all = append(all, e)
			}
			for s, steps := 0, mon.Pick(c.Rand, 8, 30, 80, 160); s < steps; s++ {
				li := c.IntN(k)
				l := ls[li]
				mod := mods[li]
				var e, mark elem
				if len(all) > 0 {
					e = all[c.IntN(len(all))]
					mark = all[c.IntN(len(all))]
					if len(mod) > 0 && c.IntN(2) == 0 {
						e = mod[c.IntN(len(mod))]
						mark = mod[c.IntN(len(mod))]
					}
				}
				ie, im := -1, -1
				if e != nil {
					ie, im = index(mod, e), index(mod, mark)
				}
				what := ""
				switch o := c.IntN(20); {
				case o < 2:
					v := val()
					n := l.PushFront(v)
					note(n, v)
					mods[li] = insert(mod, 0, n)
					what = "PushFront"
				case o < 4:
					v := val()
					n := l.PushBack(v)
					note(n, v)
					mods[li] = insert(mod, len(mod), n)
					what = "PushBack"
				case o < 5 && len(mod) > 0:
					v := l.RemoveFront()
					c.Check(v == vals[mod[0]], "RemoveFront returned %d, want %d", v, vals[mod[0]])
					mods[li] = remove(mod, 0)
					what = "RemoveFront"
				case o < 6 && len(mod) > 0:
					v := l.RemoveBack()
					c.Check(v == vals[mod[len(mod)-1]], "RemoveBack returned %d", v)
					mods[li] = remove(mod, len(mod)-1)
					what = "RemoveBack"
				case o < 7 && c.IntN(3) == 0:
					oi := c.IntN(k)
					src := append([]elem(nil), mods[oi]...)
					back := c.IntN(2) == 0
					if len(src)+len(mod) > 200 {
						continue
					}
					if back {
						l.PushBackList(ls[oi])
						e := l.Back()
						for i := range src {
							_ = i
							if e == nil {
								break
							}
							e2 := e
							e = e.Prev()
							mods[li] = insert(mods[li], len(mod), e2)
						}
						for i, w := range src {
							if len(mods[li]) != len(mod)+len(src) {
								break
							}
							note(mods[li][len(mod)+i], vals[w])
						}
					} else {
						l.PushFrontList(ls[oi])
						e := l.Front()
						for i := range src {
							if e == nil {
								break
							}
							mods[li] = insert(mods[li], i, e)
							note(e, vals[src[i]])
							e = e.Next()
						}
					}
					seen := map[elem]bool{}
					for _, x := range mods[li] {
						c.Check(!seen[x], "PushList put an existing element into the copy")
						seen[x] = true
					}
					what = fmt.Sprintf("PushList back=%v from list %d (%d)", back, oi, len(src))
				case o < 8 && c.IntN(12) == 0:
					l.Clear()
					mods[li] = nil
					what = "Clear"
				case e == nil:
					continue
				case o < 10:
					v := l.Remove(e)
					c.Check(v == vals[e], "Remove returned %d, the element holds %d", v, vals[e])
					if ie >= 0 {
						mods[li] = remove(mod, ie)
						c.Check(e.Next() == nil && e.Prev() == nil, "a removed element still has neighbours")
					} else {
						foreign++
					}
					what = fmt.Sprintf("Remove at %d", ie)
				case o < 12:
					v := val()
					var n elem
					before := c.IntN(2) == 0
					if before {
						n = l.InsertBefore(v, mark)
					} else {
						n = l.InsertAfter(v, mark)
					}
					c.Check((n != nil) == (im >= 0), "Insert next to a mark at %d returned %v", im, n != nil)
					if im >= 0 {
						at := im
						if !before {
							at++
						}
						mods[li] = insert(mod, at, n)
						note(n, v)
					} else {
						foreign++
					}
					what = fmt.Sprintf("Insert before=%v mark %d", before, im)
				case o < 14:
					front := c.IntN(2) == 0
					if front {
						l.MoveToFront(e)
					} else {
						l.MoveToBack(e)
					}
					if ie >= 0 {
						if ie > 0 && ie < len(mod)-1 {
							moves++
						}
						mods[li] = remove(mod, ie)
						at := 0
						if !front {
							at = len(mods[li])
						}
						mods[li] = insert(mods[li], at, e)
					} else {
						foreign++
					}
					what = fmt.Sprintf("MoveTo front=%v at %d", front, ie)
				case o < 19:
					before := c.IntN(2) == 0
					if before {
						l.MoveBefore(e, mark)
					} else {
						l.MoveAfter(e, mark)
					}
					if ie >= 0 && im >= 0 {
						if ie != im {
							if ie > 0 && ie < len(mod)-1 {
								moves++
							}
							mods[li] = remove(mod, ie)
							at := index(mods[li], mark)
							if !before {
								at++
							}
							mods[li] = insert(mods[li], at, e)
						}
					} else {
						foreign++
					}
					what = fmt.Sprintf("Move before=%v %d to %d", before, ie, im)
				default:
					e.Value = val()
					vals[e] = e.Value
					what = "write value"
				}
				c.Log("list %d: %s", li, what)
				for i := range ls {
					compare(c, fmt.Sprintf("after %s on list %d, list %d", what, li, i), ls[i], mods[i], vals)
				}
			}
			c.M.Count("inner_moves", moves)
			c.M.Count("foreign_or_dead_handles", foreign)
			if moves > 0 && foreign > 0 {
				c.Nontrivial()
			}
		})
		// a list cleared again and again: handles from before stay outside
		m.Cases("cleared often", m.N(12), func(c *mon.C) {
			clears := mon.Pick(c.Rand, 300, 600, 1200, 5000)
			if c.Idx == 0 {
				clears = 70_000
			}
			c.Log("%d clears", clears)
			l := list.New[int]()
			var old []elem
			for i := 0; i < 4; i++ {
				old = append(old, l.PushBack(-i))
			}
			removed := l.PushBack(-4) // one left by Remove, the others by Clear
			l.Remove(removed)
			old = append(old, removed)
			for n := 1; n <= clears; n++ {
				l.Clear()
				a, b := l.PushBack(n), l.PushBack(-n)
				for _, e := range old {
					v := e.Value
					switch c.IntN(4) {
					case 0:
						c.Check(l.Remove(e) == v, "Remove of a handle from before %d clears does not give its value", n)
					case 1:
						l.MoveToFront(e)
						l.MoveToBack(e)
					case 2:
						c.Check(l.InsertBefore(7, e) == nil && l.InsertAfter(7, e) == nil, "something was inserted at a handle from before %d clears", n)
					case 3:
						l.MoveBefore(b, e)
						l.MoveAfter(a, e)
						l.MoveBefore(e, a)
					}
					c.Check(e.Next() == nil && e.Prev() == nil && e.Value == v, "a handle from before %d clears has neighbours or another value", n)
					c.Check(l.Len() == 2 && l.Front() == a && a.Next() == b && b.Next() == nil && l.Back() == b && b.Prev() == a && a.Prev() == nil && a.Value == n && b.Value == -n, "a handle from before %d clears changed the list", n)
				}
				if c.IntN(8) == 0 {
					old[2+c.IntN(len(old)-2)] = mon.Pick(c.Rand, a, b)
					l.Clear()
				}
			}
			c.M.Count("clears", clears)
			c.Nontrivial()
		})
		// lists longer than 16 bits count; moves by handle, appended to each other
		m.Cases("long", m.N(8), func(c *mon.C) {
			n := mon.Pick(c.Rand, 12000, 33000, 66000, 70000+c.IntN(60000))
			l, other := list.New[int](), new(list.List[int])
			var mod, omod []int // values, all different
			of := map[int]elem{}
			next := 0
			for len(mod) < n {
				next++
				of[next] = l.PushBack(next)
				mod = append(mod, next)
			}
			for i := 1000 + c.IntN(5000); i > 0; i-- {
				next++
				other.PushFront(next)
				omod = append([]int{next}, omod...)
			}
			check := func(what string, l *list.List[int], want []int) {
				c.Check(l.Len() == len(want) && l.Empty() == (len(want) == 0), "%s: Len=%d, want %d", what, l.Len(), len(want))
				e, b := l.Front(), l.Back()
				for i := range want {
					j := len(want) - 1 - i
					c.Check(e != nil && b != nil && e.Value == want[i] && b.Value == want[j], "%s: %d elements, place %d from the front or the back is wrong", what, len(want), i)
					e, b = e.Next(), b.Prev()
				}
				c.Check(e == nil && b == nil, "%s: the walk goes on after %d elements", what, len(want))
			}
			check("built", l, mod)
			// to the front or back, by handle, without a place in the model until the end
			gone := map[int]bool{}
			var front, back []int
			for i := 2000; i > 0; i-- {
				v := mod[c.IntN(len(mod))]
				if gone[v] {
					continue
				}
				gone[v] = true
				switch c.IntN(3) {
				case 0:
					l.MoveToFront(of[v])
					front = append([]int{v}, front...)
				case 1:
					l.MoveToBack(of[v])
					back = append(back, v)
				case 2:
					got := l.Remove(of[v])
					c.Check(got == v, "Remove gave %d, want %d", got, v)
				}
			}
			var mid []int
			for _, v := range mod {
				if !gone[v] {
					mid = append(mid, v)
				}
			}
			mod = append(append(front, mid...), back...)
			check("after moves", l, mod)
			if c.IntN(2) == 0 {
				other.PushBackList(l)
				omod = append(omod, mod...)
			} else {
				other.PushFrontList(l)
				omod = append(append([]int(nil), mod...), omod...)
			}
			check("list appended to", other, omod)
			check("list appended", l, mod)
			if c.IntN(2) == 0 { // to itself
				if c.IntN(2) == 0 {
					l.PushBackList(l)
				} else {
					l.PushFrontList(l)
				}
				mod = append(append([]int(nil), mod...), mod...)
				check("list appended to itself", l, mod)
			}
			for len(mod) > 0 {
				if c.IntN(2) == 0 {
					v := l.RemoveFront()
					c.Check(v == mod[0], "RemoveFront gave %d, want %d", v, mod[0])
					mod = mod[1:]
				} else {
					v := l.RemoveBack()
					c.Check(v == mod[len(mod)-1], "RemoveBack gave %d, want %d", v, mod[len(mod)-1])
					mod = mod[:len(mod)-1]
				}
			}
			check("drained", l, nil)
			check("the other list", other, omod)
			c.Log("%d elements, %d to the front, %d to the back, other list %d", n, len(front), len(back), len(omod))
			c.M.Peak("longest_list", len(omod))
			c.Nontrivial()
		})
	})
}
