package c16

import (
	"encoding/binary"
	"fmt"
	"sync"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C16", "seeded histories of adds (hashes, bytes, strings), queries and clears on filters of many shapes, all elements added since the last clear asked again; non-trivial = cleared and refilled, or filled beyond capacity", func(m *mon.M) {
		m.Cases("history", m.N(1500), func(c *mon.C) {
			capacity := mon.Pick[uint64](c.Rand, 1, 2, 5, 43, 44, 45, 64, 100, 1000, 5000)
			rate := mon.Pick(c.Rand, 0.999, 0.9, 0.5, 0.1, 0.01, 0.001, 1e-6, 1e-12)
			f, g := bloom.New(capacity, rate), bloom.New(capacity, rate)
			c.Log("capacity %d rate %g", capacity, rate)
			c.Check(f.Len() > 0, "filter of %d bits", f.Len())
			hashes := map[uint64]bool{}
			strs := map[string]bool{}
			seen := map[uint64]bool{} // answers true stay true
			stride := mon.Pick[uint64](c.Rand, 1, 64, 1<<32, 0)
			str := func(i int) string {
				switch i % 4 {
				case 0:
					b := make([]byte, i%50)
					for k := range b {
						b[k] = byte(c.Uint32())
					}
					return string(b)
				case 1:
					return string(binary.LittleEndian.AppendUint32(nil, uint32(i)))
				case 2:
					return "用户" + string(rune('0'+i%10))
				}
				return ""
			}
			buf := make([]byte, 0, 64)
			steps := int(mon.Pick(c.Rand, capacity/2, capacity, 2*capacity, 3*capacity)) + 10
			clears := 0
			for s := 0; s < steps; s++ {
				h := c.Uint64()
				if stride > 0 {
					h = uint64(c.IntN(steps)) * stride
				}
				switch o := c.IntN(20); {
				case o < 9:
					f.Add(h)
					hashes[h] = true
					c.Check(f.Contains(h), "hash %d is not inside right after Add", h)
				case o < 11:
					x := str(c.IntN(1000))
					f.AddString(x)
					strs[x] = true
					c.Check(f.ContainsString(x) && f.ContainsBytes([]byte(x)), "string %q is not inside right after AddString", x)
				case o < 13:
					x := str(c.IntN(1000))
					b := append(buf[:0], x...) // one buffer, refilled
					if f.ContainsBytes(b) {
						c.Check(f.ContainsString(x), "ContainsBytes(%q), in a buffer used before, is true, ContainsString false", x)
					} else {
						c.Check(!strs[x], "bytes %q, added before, are not inside", x)
					}
					f.AddBytes(b)
					c.Check(string(b) == x, "AddBytes changed its argument")
					strs[x] = true
					clear(b)
					c.Check(f.ContainsString(x) && f.ContainsBytes([]byte(x)), "bytes %q are not inside right after AddBytes", x)
				case o < 17:
					if f.Contains(h) {
						seen[h] = true
					} else {
						c.Check(!hashes[h] && !seen[h], "hash %d, added or seen before, is not inside", h)
					}
				case o < 18 && c.IntN(steps/40+1) == 0:
					f.Clear()
					clears++
					c.Log("cleared after %d", s)
					for h := range hashes {
						c.Check(!f.Contains(h), "hash %d is inside after Clear", h)
					}
					for x := range strs {
						c.Check(!f.ContainsString(x), "string %q is inside after Clear", x)
					}
					hashes, strs, seen = map[uint64]bool{}, map[string]bool{}, map[uint64]bool{}
				default:
					c.Check(!g.Contains(h), "hash %d is inside a filter nothing was added to", h)
				}
			}
			for h := range hashes {
				c.Check(f.Contains(h), "hash %d, added, is not inside at the end", h)
			}
			for h := range seen {
				c.Check(f.Contains(h), "hash %d, inside before, is not inside at the end", h)
			}
			for x := range strs {
				c.Check(f.ContainsString(x) && f.ContainsBytes([]byte(x)), "string %q, added, is not inside at the end", x)
			}
			c.M.Count("members_asked_again", len(hashes)+len(strs))
			c.M.Count("clears", clears)
			if clears > 0 && len(hashes) > 0 || uint64(len(hashes)) > capacity {
				c.Nontrivial()
			}
		})
		// one filter, cleared again and again: nothing from before any clear comes back
		m.Cases("cleared often", m.N(12), func(c *mon.C) {
			clears := mon.Pick(c.Rand, 300, 600, 1200, 5000)
			if c.Idx == 0 {
				clears = 70_000
			}
			f := bloom.New(mon.Pick[uint64](c.Rand, 10, 50, 100), mon.Pick(c.Rand, 0.1, 0.01))
			c.Log("%d clears", clears)
			var old []uint64 // from before the first clear
			for i := 0; i < 3; i++ {
				old = append(old, c.Uint64())
				f.Add(old[i])
			}
			f.AddString("old")
			var recent uint64
			touch := mon.Pick(c.Rand, 0, 0, 3, 100)
			for n := 1; n <= clears; n++ {
				f.Clear()
				for _, h := range old {
					c.Check(!f.Contains(h), "hash %d is inside after %d clears", h, n)
				}
				c.Check(!f.ContainsString("old"), "a string is inside after %d clears", n)
				if touch > 0 {
					c.Check(n == 1 || !f.Contains(recent), "a hash added before the last clear is inside after %d clears", n)
					if n%touch == 0 {
						recent = c.Uint64()
						f.Add(recent)
						c.Check(f.Contains(recent), "a hash is not inside after %d clears and Add", n)
					}
				}
			}
			f.AddString("old")
			c.Check(f.ContainsString("old"), "a string is not inside after %d clears and AddString", clears)
			c.M.Count("clears", clears)
			c.Nontrivial()
		})
		// one filter for each goroutine, all at once; then one filter asked by all
		m.Cases("at once", m.N(20), func(c *mon.C) {
			texts := make([]string, 200)
			for i := range texts {
				b := make([]byte, c.IntN(300))
				for k := range b {
					b[k] = byte(c.Uint32())
				}
				texts[i] = string(b)
			}
			capacity := mon.Pick[uint64](c.Rand, 50, 200, 1000)
			rate := mon.Pick(c.Rand, 0.1, 0.001)
			c.Log("capacity %d rate %g", capacity, rate)
			fs := make([]*bloom.Filter, 8)
			var wg sync.WaitGroup
			for g := range fs {
				c.Go(&wg, func() {
					f := bloom.New(capacity, rate)
					fs[g] = f
					for round := 0; round < 3; round++ {
						for i := g; i < len(texts); i += 8 {
							if round == 1 {
								f.AddString(texts[i])
							} else {
								f.AddBytes([]byte(texts[i]))
							}
						}
						for i := g; i < len(texts); i += 8 {
							if !f.ContainsString(texts[i]) || !f.ContainsBytes([]byte(texts[i])) {
								c.Fail("a text of %d bytes is not inside while other filters are used", len(texts[i]))
								return
							}
						}
						if round < 2 {
							f.Clear()
							if f.ContainsString(texts[g]) {
								c.Fail("a text is inside after Clear while other filters are used")
								return
							}
						}
					}
				})
			}
			wg.Wait()
			if c.Failed() {
				return
			}
			for g := range fs {
				c.Go(&wg, func() {
					for i, x := range texts {
						if !fs[i%8].ContainsString(x) && !c.Failed() {
							c.Fail("goroutine %d: a text of %d bytes is not inside while others ask too", g, len(x))
						}
					}
				})
			}
			wg.Wait()
			c.M.Count("questions_at_once", 8*len(texts))
			c.Nontrivial()
		})
		// hundreds of thousands of elements, beyond the capacity too
		m.Cases("huge", m.N(8), func(c *mon.C) {
			capacity := mon.Pick[uint64](c.Rand, 10, 65536, 200000, 1000000, 20000000)
			rate := mon.Pick(c.Rand, 0.5, 0.1, 0.01, 1e-6)
			f := bloom.New(capacity, rate)
			n := mon.Pick(c.Rand, 66000, 300000, 600000)
			c.Log("capacity %d rate %g: %d elements, %d bits", capacity, rate, n, f.Len())
			stride := mon.Pick[uint64](c.Rand, 1, 3, 1<<32, 0x9E3779B97F4A7C15)
			for round := 0; round < 2; round++ {
				for i := 0; i < n; i++ {
					f.Add(uint64(i+round) * stride)
					if i%8 == 0 {
						f.AddString(fmt.Sprint("k", i))
					}
				}
				for i := 0; i < n; i++ {
					c.Check(f.Contains(uint64(i+round)*stride), "a filter of capacity %d and rate %g with %d elements does not hold hash %d", capacity, rate, n, uint64(i+round)*stride)
					c.Check(i%8 > 0 || f.ContainsString(fmt.Sprint("k", i)), "a filter of capacity %d and rate %g with %d elements does not hold text k%d", capacity, rate, n, i)
				}
				f.Clear()
				for i := 0; i < n; i += 7 {
					c.Check(!f.Contains(uint64(i)*stride), "a cleared filter of capacity %d and rate %g holds hash %d", capacity, rate, uint64(i)*stride)
				}
			}
			c.M.Peak("most_elements", n)
			c.Nontrivial()
		})
	})
}
