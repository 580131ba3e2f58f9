package c25

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/anishathalye/porcupine"
	"verif/harness/mon"
)

type op struct {
	kind string
	k, v int
}

const keys = 4

// state is the map: 0 = absent, 1 = present with nil, else the value.
type state [keys]int

func enc(v any) int {
	if v == nil {
		return 1
	}
	return v.(int)
}

// got is what Get or TestAndSet answer for a stored value.
func got(x int) int {
	if x == 0 {
		return 1
	}
	return x
}

func snap(s state) string {
	var out []string
	for k, v := range s {
		if v != 0 {
			out = append(out, fmt.Sprintf("%d=%d", k, v))
		}
	}
	return fmt.Sprint(out)
}

func step(s state, o op) (state, any) {
	switch o.kind {
	case "set":
		s[o.k] = o.v
		return s, nil
	case "del":
		s[o.k] = 0
		return s, nil
	case "get":
		return s, got(s[o.k])
	case "test":
		if s[o.k] != 0 {
			return s, got(s[o.k])
		}
		s[o.k] = o.v
		return s, 1
	case "len":
		n := 0
		for _, v := range s {
			if v != 0 {
				n++
			}
		}
		return s, n
	}
	if o.kind == "drain" {
		return state{}, snap(s)
	}
	if o.kind == "swap" {
		old := got(s[o.k])
		s[o.k] = o.v
		return s, old
	}
	return s, snap(s) // rrange, wrange
}

func dec(v int) any {
	if v == 1 {
		return nil
	}
	return v
}

func do(m *utils.Map, o op) any {
	switch o.kind {
	case "set":
		m.Set(o.k, dec(o.v))
		return nil
	case "del":
		m.Del(o.k)
		return nil
	case "get":
		return enc(m.Get(o.k))
	case "test":
		return enc(m.TestAndSet(o.k, dec(o.v)))
	case "len":
		return m.Len()
	}
	var s state
	dup := false
	f := func(k, v any) {
		if s[k.(int)] != 0 {
			dup = true
		}
		s[k.(int)] = enc(v)
	}
	switch o.kind {
	case "swap": // the map's own lock around its unlocked operations
		m.Lock()
		old := enc(m.UnsafeGet(o.k))
		m.UnsafeSet(o.k, dec(o.v))
		m.Unlock()
		return old
	case "rrange":
		m.RLockRange(f)
	case "wrange":
		m.LockRange(f)
	case "drain":
		m.LockRange(func(k, v any) { f(k, v); m.UnsafeDel(k) })
	}
	if dup {
		return "a key twice"
	}
	return snap(s)
}

var kinds = []string{"set", "set", "del", "get", "get", "test", "test", "len", "rrange", "wrange", "swap", "drain"}

func gen(r *rand.Rand, next *int) op {
	*next++
	v := *next + 1
	if r.IntN(12) == 0 {
		v = 1
	}
	return op{kinds[r.IntN(len(kinds))], r.IntN(keys), v}
}

var model = porcupine.Model{
	Init: func() any { return state{} },
	Step: func(s, in, out any) (bool, any) {
		n, want := step(s.(state), in.(op))
		return want == out, n
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%v -> %v", in, out) },
}

func TestProp(t *testing.T) {
	mon.Run(t, "C25", "sequential histories against a model; concurrent histories of 2-5 goroutines on few keys checked for linearizability (porcupine) and run under the race detector; TestAndSet races for one winner; non-trivial = operations overlapped in time", func(m *mon.M) {
		m.Peak("gomaxprocs", runtime.GOMAXPROCS(0))
		m.Cases("sequential", m.N(600), func(c *mon.C) {
			x := &utils.Map{}
			var s state
			next := 1
			for i := 0; i < 150; i++ {
				o := gen(c.Rand, &next)
				var want any
				s, want = step(s, o)
				g := do(x, o)
				c.Log("%v -> %v", o, g)
				c.Check(g == want, "%v gave %v, want %v", o, g, want)
				if c.IntN(4) == 0 {
					k := c.IntN(keys)
					c.Check(enc(x.UnsafeGet(k)) == got(s[k]), "UnsafeGet(%d) = %v", k, x.UnsafeGet(k))
					_, n := step(s, op{kind: "len"})
					c.Check(x.UnsafeLen() == n, "UnsafeLen = %d, want %v", x.UnsafeLen(), n)
				}
			}
			c.Nontrivial()
		})
		m.Cases("any keys", m.N(300), func(c *mon.C) {
			pool := []any{nil, 0, 1, int64(1), uint8(1), "1", "", "0", 1.0, true, false, struct{}{}, [2]int{1, 0}, [2]int{0, 1}, struct{ A, B any }{1, "1"}, 'x', time.Second}
			for i, n := 0, mon.Pick(c.Rand, 0, 0, 10, 300, 3000); i < n; i++ {
				pool = append(pool, fmt.Sprint("k", i))
			}
			x, y := &utils.Map{}, &utils.Map{}
			mod := map[any]any{}
			same := func(what string, visit func(func(k, v any))) {
				seen := map[any]any{}
				visit(func(k, v any) {
					_, dup := seen[k]
					c.Check(!dup, "%s: key %#v twice", what, k)
					seen[k] = v
				})
				c.Check(len(seen) == len(mod), "%s: %d entries, want %d", what, len(seen), len(mod))
				for k, v := range seen {
					w, ok := mod[k]
					c.Check(ok && v == w, "%s: %#v=%#v, want %#v (%v)", what, k, v, w, ok)
				}
			}
			for i, n := 0, mon.Pick(c.Rand, 50, 300, 3*len(pool)); i < n; i++ {
				k, v := pool[c.IntN(len(pool))], pool[c.IntN(len(pool))]
				switch c.IntN(8) {
				case 0, 1:
					x.Set(k, v)
					mod[k] = v
				case 2:
					x.UnsafeSet(k, v)
					mod[k] = v
				case 3:
					w, ok := mod[k]
					g := x.TestAndSet(k, v)
					c.Check(g == w, "TestAndSet(%#v) = %#v, want %#v (present %v)", k, g, w, ok)
					if !ok {
						mod[k] = v
					}
				case 4:
					x.Del(k)
					delete(mod, k)
				case 5:
					x.UnsafeDel(k)
					delete(mod, k)
				default:
				}
				c.Check(x.Get(k) == mod[k] && x.UnsafeGet(k) == mod[k], "Get(%#v) = %#v, want %#v", k, x.Get(k), mod[k])
				c.Check(x.Len() == len(mod) && x.UnsafeLen() == len(mod), "Len = %d, want %d", x.Len(), len(mod))
				if i < 60 {
					c.Log("%#v %#v: %d", k, v, len(mod))
				}
				if c.IntN(50) == 0 || i == n-1 {
					same("RLockRange", x.RLockRange)
					same("LockRange", x.LockRange)
					same("UnsafeRange", x.UnsafeRange)
				}
			}
			c.Check(y.Len() == 0 && y.Get(1) == nil, "another map changed")
			y.RLockRange(func(k, v any) { c.Fail("an empty map shows %v", k) })
			y.LockRange(func(k, v any) { c.Fail("an empty map shows %v", k) })
			y.Del(1)
			c.M.Peak("largest_map", len(mod))
			c.Nontrivial()
		})
		m.Cases("any values", m.N(200), func(c *mon.C) {
			// values that cannot be compared, come back as the very values they are
			x := &utils.Map{}
			mod := map[int]any{}
			id := func(v any) string { // what it is and where
				switch v := v.(type) {
				case []int:
					return fmt.Sprintf("%p %d %d", v, len(v), cap(v))
				case map[int]int, *int, chan int, func():
					return fmt.Sprintf("%T %p", v, v)
				}
				return fmt.Sprintf("%#v", v)
			}
			for i := 0; i < 150; i++ {
				k := c.IntN(keys)
				n := c.IntN(3)
				v := mon.Pick[any](c.Rand, make([]int, n), make([]int, n, 4), []int(nil), map[int]int{n: n}, map[int]int(nil), &n, make(chan int), func() { n++ }, struct{ A any }{[]int{n}}, math.NaN(), nil, n, [1]any{[]int{n}}, math.Copysign(0, -1), 0.0, x)
				what := mon.Pick(c.Rand, "Set", "Set", "UnsafeSet", "TestAndSet", "Del")
				switch what {
				case "Set":
					x.Set(k, v)
					mod[k] = v
				case "UnsafeSet":
					x.UnsafeSet(k, v)
					mod[k] = v
				case "TestAndSet":
					old, ok := mod[k]
					if g := x.TestAndSet(k, v); id(g) != id(old) {
						c.Fail("TestAndSet(%d) gave %s, want %s", k, id(g), id(old))
					}
					if !ok {
						mod[k] = v
					}
				case "Del":
					x.Del(k)
					delete(mod, k)
				}
				if i < 60 && v != any(x) {
					c.Log("%s %d %s", what, k, id(v))
				}
				for k := 0; k < keys; k++ {
					if v != any(x) && mod[k] != any(x) {
						c.Check(id(x.Get(k)) == id(mod[k]) && id(x.UnsafeGet(k)) == id(mod[k]), "after %s of a %T, Get(%d) = %s, want %s", what, v, k, id(x.Get(k)), id(mod[k]))
					} else {
						c.Check((x.Get(k) == any(x)) == (mod[k] == any(x)), "after %s of the map itself, Get(%d) is it: %v", what, k, x.Get(k) == any(x))
					}
				}
				c.Check(x.Len() == len(mod), "after %s of a %T, Len = %d, want %d", what, v, x.Len(), len(mod))
			}
			c.Nontrivial()
		})
		m.Cases("panics", m.N(300), func(c *mon.C) {
			// a call that panics changes nothing and leaves the map usable
			x := &utils.Map{}
			mod := map[any]any{}
			for i := c.IntN(4); i > 0; i-- {
				x.Set(i, i)
				mod[i] = i
			}
			bad := mon.Pick[any](c.Rand, []int{1}, map[int]int{}, func() {}, struct{ A any }{[]int{}}, [1]any{[]byte("x")})
			for k := 1 + c.IntN(4); k > 0; k-- {
				what := mon.Pick(c.Rand, "RLockRange", "LockRange", "UnsafeRange", "Set", "TestAndSet", "Get", "Del")
				panicked := func() (p bool) {
					defer func() { p = recover() != nil }()
					boom := func(any, any) { panic("the caller's") }
					switch what {
					case "RLockRange":
						x.RLockRange(boom)
					case "LockRange":
						x.LockRange(boom)
					case "UnsafeRange":
						x.UnsafeRange(boom)
					case "Set":
						x.Set(bad, 1)
					case "TestAndSet":
						x.TestAndSet(bad, 1)
					case "Get":
						x.Get(bad)
					case "Del":
						x.Del(bad)
					}
					return false
				}()
				c.Log("%s, key %T: panic %v", what, bad, panicked)
				c.Check(x.TryLock(), "%s panicked (%v) and left the map locked", what, panicked)
				x.Unlock()
				c.Check(x.Len() == len(mod), "%s panicked and left %d entries, want %d", what, x.Len(), len(mod))
				n := 10 + c.IntN(5)
				x.Set(n, k)
				mod[n] = k
				for k, v := range mod {
					c.Check(x.Get(k) == v, "after %s panicked, Get(%v) = %v, want %v", what, k, x.Get(k), v)
				}
				if panicked {
					c.M.Count("panics", 1)
					c.Nontrivial()
				}
			}
		})
		m.Cases("linearizable", m.N(2500), func(c *mon.C) {
			x := &utils.Map{}
			g, n := 2+c.IntN(4), 6+c.IntN(8)
			next := 1
			ops := make([][]op, g)
			hist := make([][]porcupine.Operation, g)
			for i := range ops {
				for j := 0; j < n; j++ {
					ops[i] = append(ops[i], gen(c.Rand, &next))
				}
			}
			yield := c.IntN(3)
			base := time.Now()
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for i := range ops {
				c.Go(&wg, func() {
					<-gate
					for j, o := range ops[i] {
						call := time.Since(base)
						out := do(x, o)
						ret := time.Since(base)
						hist[i] = append(hist[i], porcupine.Operation{ClientId: i, Input: o, Call: int64(call), Output: out, Return: int64(ret)})
						if yield > 0 && (i+j)%(yield*2) == 0 {
							runtime.Gosched()
						}
					}
				})
			}
			close(gate)
			wg.Wait()
			var all []porcupine.Operation
			for _, h := range hist {
				all = append(all, h...)
			}
			sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
			overlap := 0
			for i := range all {
				for j := i + 1; j < len(all) && all[j].Call < all[i].Return; j++ {
					overlap++
				}
				c.Log("g%d %v -> %v", all[i].ClientId, all[i].Input, all[i].Output)
			}
			c.M.Count("overlapping_pairs", overlap)
			c.M.Count("operations", len(all))
			if overlap > 0 {
				c.Nontrivial()
			}
			switch porcupine.CheckOperationsTimeout(model, all, 20*time.Second) {
			case porcupine.Illegal:
				c.Fail("the history of %d operations is not linearizable", len(all))
			case porcupine.Unknown:
				c.M.Count("undecided_histories", 1)
			}
		})
		m.Cases("onewinner", m.N(400), func(c *mon.C) {
			x := &utils.Map{}
			g, rounds := 2+c.IntN(7), 60
			wins := make([][]int, g)
			seen := make([][]any, g)
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for i := 0; i < g; i++ {
				c.Go(&wg, func() {
					<-gate
					for r := 0; r < rounds; r++ {
						v := x.TestAndSet(r, 100+i)
						if v == nil {
							wins[i] = append(wins[i], r)
							v = 100 + i
						}
						seen[i] = append(seen[i], v)
					}
				})
			}
			close(gate)
			wg.Wait()
			who := map[int]int{}
			for i, w := range wins {
				for _, r := range w {
					_, dup := who[r]
					c.Check(!dup, "key %d was claimed by goroutines %d and %d", r, who[r], i)
					who[r] = i
				}
			}
			for r := 0; r < rounds; r++ {
				w, ok := who[r]
				c.Check(ok, "nobody claimed key %d", r)
				for i := range seen {
					c.Check(seen[i][r] == 100+w, "goroutine %d was told %v holds key %d, the winner is %d", i, seen[i][r], r, w)
				}
				c.Check(x.Get(r) == 100+w, "key %d holds %v", r, x.Get(r))
			}
			c.Check(x.Len() == rounds, "Len = %d", x.Len())
			c.M.Count("claims", rounds)
			c.Log("%d goroutines %v", g, who)
			c.Nontrivial()
		})
		m.Cases("huge", m.N(6), func(c *mon.C) {
			// more entries than 16 bits count, put in by several at once
			x := &utils.Map{}
			n := mon.Pick(c.Rand, 12000, 66000, 140000)
			g := 1 + c.IntN(4)
			var wg sync.WaitGroup
			for i := 0; i < g; i++ {
				c.Go(&wg, func() {
					for k := i; k < n; k += g {
						if k%3 == 0 {
							if v := x.TestAndSet(k, k+1); v != nil {
								c.Fail("TestAndSet of a new key %d gives %v", k, v)
							}
						} else {
							x.Set(k, k+1)
						}
					}
				})
			}
			wg.Wait()
			c.Log("%d entries by %d", n, g)
			c.Check(x.Len() == n, "%d entries were put in, Len is %d", n, x.Len())
			for k := 0; k < n; k++ {
				c.Check(x.Get(k) == k+1, "of %d entries, %d holds %v", n, k, x.Get(k))
			}
			seen := make([]bool, n)
			x.RLockRange(func(k, v any) {
				c.Check(!seen[k.(int)] && v == k.(int)+1, "of %d entries, key %v is visited twice or with %v", n, k, v)
				seen[k.(int)] = true
			})
			for k := range seen {
				c.Check(seen[k], "of %d entries, key %d is not visited", n, k)
				if k%2 == 0 {
					x.Del(k)
				}
			}
			c.Check(x.Len() == n/2, "half of %d entries were deleted, Len is %d", n, x.Len())
			for k := 0; k < n; k++ {
				c.Check((x.Get(k) == nil) == (k%2 == 0), "half of %d entries were deleted, %d holds %v", n, k, x.Get(k))
			}
			c.M.Peak("largest_map", n)
			c.Nontrivial()
		})
	})
}
