package c39

import (
	"bytes"
	"encoding/binary"
	"slices"
	"sync"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/hash"
	"verif/harness/fsx"
	"verif/harness/mon"
)

func data(c *mon.C) []byte {
	switch c.IntN(60) {
	case 0:
		return nil
	case 1: // long
		b := make([]byte, mon.Pick(c.Rand, 65535, 65536, 65537, 70000+c.IntN(100000)))
		for i := range b {
			b[i] = byte(c.Uint32())
		}
		return b
	}
	b := make([]byte, mon.Pick(c.Rand, 0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 127, 128, 129, c.IntN(400), c.IntN(5000)))
	k := byte(c.Uint32())
	for i := range b {
		b[i] = k
		if len(b)%3 != 0 {
			b[i] = byte(c.Uint32())
		}
	}
	return fsx.Dress(c, b)
}

func TestProp(t *testing.T) {
	mon.Run(t, "C39", "histories of sums of bytes and strings over several instances, of lengths around the block and buffer sizes of the hash, interleaved so that a leftover of one sum would show in the next, each instance checked against its own first answers and pairwise for different contents; instances used at once by one goroutine each; non-trivial = a history in which a content comes up again after others", func(m *mon.M) {
		m.Cases("history", m.N(150*3), func(c *mon.C) {
			hs := make([]*hash.Hash, 1+c.IntN(3))
			seen := make([]map[string]uint64, len(hs))
			back := make([]map[uint64]string, len(hs))
			for i := range hs {
				hs[i], seen[i], back[i] = hash.New(), map[string]uint64{}, map[uint64]string{}
			}
			pool := make([][]byte, 1+c.IntN(12))
			for i := range pool {
				pool[i] = data(c)
				if i > 0 && c.IntN(3) == 0 { // a neighbour of another one
					p := bytes.Clone(pool[c.IntN(i)])
					switch {
					case len(p) == 0 || c.IntN(3) == 0:
						p = append(p, 0)
					case c.IntN(2) == 0:
						p[c.IntN(len(p))] ^= 1 << c.IntN(8)
					case c.IntN(2) == 0: // two blocks change places
						k := 1 << c.IntN(14)
						if len(p) < 2*k {
							k = len(p) / 2
						}
						i := (len(p) / max(k, 1) / 2) * k
						a := bytes.Clone(p[:k])
						copy(p, p[i:i+k])
						copy(p[i:i+k], a)
					case c.IntN(2) == 0: // over again
						p = append(p, p...)
					default:
						p = p[:len(p)-1]
					}
					pool[i] = p
				}
			}
			again := 0
			for s := 0; s < 60; s++ {
				i := c.IntN(len(hs))
				p := pool[c.IntN(len(pool))]
				save := bytes.Clone(p)
				var sum uint64
				if c.IntN(2) == 0 {
					sum = hs[i].Sum64(p)
				} else {
					sum = hs[i].Sum64String(string(p))
				}
				c.Log("%d: %d bytes", i, len(p))
				c.Check(bytes.Equal(p, save), "summing changed the %d bytes", len(p))
				if old, ok := seen[i][string(p)]; ok {
					again++
					c.Check(old == sum, "instance %d: %d bytes hash to %x, before to %x", i, len(p), sum, old)
				}
				seen[i][string(p)] = sum
				// 64 bits: contents that differ do not collide in a run
				if q, ok := back[i][sum]; ok {
					c.Check(q == string(p), "instance %d: contents of %d and %d bytes that differ hash alike", i, len(q), len(p))
				}
				back[i][sum] = string(p)
			}
			c.M.Count("sums", 60)
			c.M.Count("sums_again", again)
			if again > 0 {
				c.Nontrivial()
			}
		})
		m.Cases("one each", m.N(15*3), func(c *mon.C) {
			pool := make([][]byte, 6)
			for i := range pool {
				pool[i] = data(c)
			}
			c.Log("%d", len(pool[0]))
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				c.Go(&wg, func() {
					h := hash.New()
					first := make([]uint64, len(pool))
					for r := 0; r < 30; r++ {
						for i, p := range pool {
							s := h.Sum64(p)
							if r == 0 {
								first[i] = s
							} else if first[i] != s || h.Sum64String(string(p)) != s {
								c.Fail("%d bytes hash to another value while other instances are used", len(p))
								return
							}
						}
					}
				})
			}
			wg.Wait()
			c.M.Count("concurrent_sums", 8*30*6)
			c.Nontrivial()
		})
		m.Cases("spread", m.N(10*3), func(c *mon.C) {
			// every output bit takes both values often, for counting-up inputs
			h := hash.New()
			const n = 4000
			var ones [64]int
			for i := 0; i < n; i++ {
				s := h.Sum64([]byte{byte(i), byte(i >> 8), byte(c.Idx)})
				for b := range ones {
					ones[b] += int(s >> b & 1)
				}
			}
			c.Log("%d", c.Idx)
			for b, k := range ones { // 16 standard deviations
				c.Check(k > n/2-500 && k < n/2+500, "bit %d is set in %d of %d hashes", b, k, n)
			}
			c.M.Count("spread_sums", n)
			c.Nontrivial()
		})
		// by millions: hashes that leave part of their 64 bits unused meet
		m.Cases("millions", m.N(1), func(c *mon.C) {
			h := hash.New()
			n := 1 << 22
			if m.Thorough {
				n = 1 << 24
			}
			salt, sums := c.Uint64(), make([]uint64, n)
			for i := range sums {
				b := binary.LittleEndian.AppendUint64(nil, salt)
				sums[i] = h.Sum64(binary.AppendUvarint(b, uint64(i)))
			}
			c.Log("%d contents after %x", n, salt)
			slices.Sort(sums)
			// a true 64-bit hash does this once in two million runs
			c.Check(len(slices.Compact(sums)) == n, "of %d contents two hash alike", n)
			c.M.Peak("most_contents", n)
			c.Nontrivial()
		})
		// megabytes: every part counts
		m.Cases("huge", m.N(10), func(c *mon.C) {
			h := hash.New()
			b := make([]byte, mon.Pick(c.Rand, 1<<20, 1<<20+1, 2<<20, 5<<20+c.IntN(1000)))
			for i := range b {
				b[i] = byte(c.Uint32())
			}
			c.Log("%d bytes", len(b))
			seen := map[uint64]int{h.Sum64(b): -1}
			first := h.Sum64(b)
			c.Check(h.Sum64String(string(b)) == first && seen[first] == -1 && len(seen) == 1, "%d bytes hash to different values", len(b))
			done := map[[2]int]bool{}
			for i := 0; i < 12; i++ {
				at := mon.Pick(c.Rand, c.IntN(len(b)), len(b)-1, len(b)-1-c.IntN(100), 65536+c.IntN(100), 1<<20-1-c.IntN(3))
				bit := [2]int{at, c.IntN(8)}
				if done[bit] {
					continue // the same bit again would give the contents back
				}
				done[bit] = true
				b[at] ^= 1 << bit[1]
				s := h.Sum64(b)
				j, ok := seen[s]
				c.Check(!ok, "%d bytes with a bit changed at %d hash like what they were at step %d", len(b), at, j)
				seen[s] = i
				n := len(b) - 1 - c.IntN(len(b)/2)
				j, ok = seen[h.Sum64(b[:n])]
				c.Check(!ok, "%d bytes hash like their first %d (%d)", len(b), n, j)
			}
			c.M.Peak("most_bytes", len(b))
			c.Nontrivial()
		})
	})
}
