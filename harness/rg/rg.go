// Package rg drives the ring buffers against a slice model.
package rg

import (
	"bytes"
	"time"

	"verif/harness/mon"
)

type Ring[T any] interface {
	Pop() T
	Peek() T
	Push(T)
	MPush(...T)
	MPop(uint64) []T
	MPopCopy([]T)
	Reset()
	Cap() uint64
	Len() uint64
	Avail() uint64
	Empty() bool
	Full() bool
}

// Grower is the unbounded ring.
type Grower interface{ Grow(uint64) }

// Drive runs one seeded history; capacity is the expected bound, 0 for an unbounded ring.
func Drive[T comparable](c *mon.C, r Ring[T], capacity uint64, steps int, val func(i int) T) {
	g, grows := r.(Grower)
	var model []T
	type held struct{ got, want []T }
	var kept []held // slices handed out earlier must stay as they were
	next := 0
	fresh := func(n int) []T {
		out := make([]T, n)
		for i := range out {
			next++
			out[i] = val(next)
		}
		return out
	}
	capNow := r.Cap()
	if !grows {
		c.Check(capNow == capacity, "Cap=%d, want %d", capNow, capacity)
	}
	moved, wraps, wasFull, refused, grown := 0, 0, 0, 0, 0
	bias := c.IntN(5) - 2 // some histories stay near empty, some near full
	check := func(what string) {
		n := uint64(len(model))
		if grows {
			c.Check(r.Cap() >= capNow && r.Cap() >= n, "after %s: Cap=%d, was %d, holds %d", what, r.Cap(), capNow, n)
			if r.Cap() > capNow {
				grown++
			}
			capNow = r.Cap()
		} else {
			c.Check(r.Cap() == capacity, "after %s: Cap=%d, want %d", what, r.Cap(), capacity)
		}
		c.Check(r.Len() == n && r.Avail() == capNow-n && r.Empty() == (n == 0) && r.Full() == (n == capNow),
			"after %s: Len=%d Avail=%d Empty=%v Full=%v Cap=%d, the model holds %d", what, r.Len(), r.Avail(), r.Empty(), r.Full(), capNow, n)
		if n == capNow {
			wasFull++
		}
	}
	size := func() int { // around the interesting sizes
		n, a := len(model), int(capNow)-len(model)
		v := mon.Pick(c.Rand, 0, 1, 2, 3, n, n-1, n+1, a, a-1, a+1, a+n, a+n+1, 1+c.IntN(7))
		if v < 0 {
			v = 0
		}
		if grows && v > 300 {
			v = 1 + v%300
		}
		return v
	}
	check("New")
	for s := 0; s < steps; s++ {
		what := ""
		o := c.IntN(10)
		if o < 6 && o+bias >= 3 {
			o += 10
		}
		switch {
		case o >= 10 && o < 13: // Push
			e := fresh(1)[0]
			if !grows && len(model) == int(capacity) {
				p, _ := mon.Panics(func() { r.Push(e) })
				c.Check(p, "Push on a full ring did not panic")
				refused++
				what = "refused Push"
				break
			}
			r.Push(e)
			model = append(model, e)
			moved++
			what = "Push"
		case o >= 13: // MPush
			es := fresh(size())
			in := append([]T(nil), es...)
			c.Log("MPush of %d onto %d/%d", len(es), len(model), capNow)
			r.MPush(es...)
			for i := range es {
				c.Check(es[i] == in[i], "MPush changed its argument at %d", i)
			}
			if !grows && len(in) > int(capacity)-len(model) {
				in = in[:int(capacity)-len(model)]
				refused++
			}
			model = append(model, in...)
			moved += len(in)
			for i := range es { // the caller goes on using its slice
				es[i] = val(-1)
			}
			what = "MPush"
		case o < 2: // Pop
			if len(model) == 0 {
				p, _ := mon.Panics(func() { r.Pop() })
				c.Check(p, "Pop on an empty ring did not panic")
				what = "refused Pop"
				break
			}
			e := r.Pop()
			if e != model[0] {
				c.Fail("Pop = %v, want %v", e, model[0])
			}
			model = model[1:]
			what = "Pop"
		case o < 4: // MPop
			n := size()
			ask := uint64(n)
			if c.IntN(20) == 0 {
				ask = mon.Pick(c.Rand, ^uint64(0), 1<<63, 1<<62)
			}
			c.Log("MPop of %d from %d/%d", ask, len(model), capNow)
			got := r.MPop(ask)
			want := model[:min(ask, uint64(len(model)))]
			same(c, "MPop", got, want)
			kept = append(kept, held{got, append([]T(nil), want...)})
			model = model[len(want):]
			what = "MPop"
		case o < 6: // MPopCopy
			n := size()
			dst := make([]T, n, n+3)
			for i := range dst[:cap(dst)] {
				dst[:cap(dst)][i] = val(-2)
			}
			c.Log("MPopCopy of %d from %d/%d", n, len(model), capNow)
			r.MPopCopy(dst)
			k := min(n, len(model))
			same(c, "MPopCopy", dst[:k], model[:k])
			for i := k; i < cap(dst); i++ {
				c.Check(dst[:cap(dst)][i] == val(-2), "MPopCopy wrote beyond the %d elements it delivered", k)
			}
			model = model[k:]
			what = "MPopCopy"
		case o == 9 && c.IntN(25) == 0:
			r.Reset()
			model = nil
			c.Check(r.Cap() == capNow, "Reset changed Cap from %d to %d", capNow, r.Cap())
			what = "Reset"
		case o == 8 && grows && c.IntN(8) == 0 && capNow < 3000:
			n := mon.Pick(c.Rand, 0, 1, capNow, capNow+1, 2*capNow, 2*capNow+1, 3*capNow+5, uint64(c.IntN(100)))
			g.Grow(n)
			c.Check(r.Cap() >= n, "Grow(%d) left Cap=%d", n, r.Cap())
			what = "Grow"
		default:
			if len(model) == 0 {
				p, _ := mon.Panics(func() { r.Peek() })
				c.Check(p, "Peek on an empty ring did not panic")
			} else if e := r.Peek(); e != model[0] {
				c.Fail("Peek = %v, want %v", e, model[0])
			}
			what = "Peek"
		}
		c.Log("%s, holds %d/%d", what, len(model), capNow)
		check(what)
		if capNow > 0 {
			wraps = moved / int(capNow)
		}
		if len(kept) > 8 {
			kept = kept[1:]
		}
	}
	for _, k := range kept {
		same(c, "slice handed out by MPop, later", k.got, k.want)
	}
	for i := 0; len(model) > 0; i++ {
		if e := r.Pop(); e != model[0] {
			c.Fail("drain: Pop %d = %v, want %v", i, e, model[0])
		}
		model = model[1:]
	}
	check("drain")
	c.M.Count("operations", steps)
	c.M.Count("elements", moved)
	c.M.Count("truncated_or_refused_pushes", refused)
	c.M.Count("states_full", wasFull)
	c.M.Count("times_grown", grown)
	c.M.Peak("max_wraps", wraps)
	if wraps > 1 && (wasFull > 0 && !grows || grown > 1) {
		c.Nontrivial()
	}
}

func same[T comparable](c *mon.C, what string, got, want []T) {
	if len(got) != len(want) {
		c.Fail("%s delivered %d elements, want %d", what, len(got), len(want))
		return
	}
	for i := range got {
		if got[i] != want[i] {
			c.Fail("%s: element %d is %v, want %v", what, i, got[i], want[i])
			return
		}
	}
}

// Affordable tells whether rings of elements without size are handled in
// constant time, as copies of nothing are, and not one element after another,
// which is as good but would take Huge for ever.
func Affordable(mk func(n uint64) Ring[struct{}]) bool {
	const n = 1 << 26
	for try := 0; try < 6; try++ {
		start := time.Now()
		r := mk(n)
		r.MPush(make([]struct{}, n)...)
		r.MPopCopy(make([]struct{}, n/2))
		if g, ok := r.(Grower); ok {
			g.Grow(2 * n)
		}
		r.MPop(n / 2)
		r.Reset()
		if time.Since(start) < 5*time.Millisecond {
			return true
		}
	}
	return false
}

// Huge drives a ring of elements without size through batches so large that
// indexes pass 2^32, 2^63 and 2^64, against a count of what is inside.
func Huge(c *mon.C, r Ring[struct{}]) {
	_, grows := r.(Grower)
	var n, total uint64
	wraps := 0
	for s := 0; s < 60; s++ {
		free := r.Cap() - n
		if grows {
			free = 1<<61 - n // Grow adds the batch to the capacity and may double it
		}
		pick := func(most uint64) uint64 {
			k := mon.Pick(c.Rand, most, most/2, most-min(most, 1), 1<<31, 1<<32-1, 1<<32, 1<<32+1, 1<<33, c.Uint64()>>c.IntN(63), 1, 0)
			return min(k, most)
		}
		what := ""
		switch c.IntN(5) {
		case 0, 1:
			k := pick(free)
			if !grows && c.IntN(5) == 0 {
				k = min(free+mon.Pick[uint64](c.Rand, 1, 1<<32, 1<<40), 1<<62)
			}
			r.MPush(make([]struct{}, k)...)
			k = min(k, free)
			n += k
			if total+k < total {
				wraps++
			}
			total += k
			what = "MPush"
		case 2:
			k := pick(n)
			ask := k
			if k == n && c.IntN(2) == 0 {
				ask = mon.Pick[uint64](c.Rand, ^uint64(0), 1<<63, n)
				ask = max(ask, n)
			}
			if got := uint64(len(r.MPop(ask))); got != k {
				c.Fail("MPop(%d) of %d delivered %d", ask, n, got)
			}
			n -= k
			what = "MPop"
		case 3:
			k := pick(min(n, 1<<62))
			r.MPopCopy(make([]struct{}, k))
			n -= k
			what = "MPopCopy"
		case 4:
			if n > 0 {
				r.Pop()
				n--
			} else {
				p, _ := mon.Panics(func() { r.Pop() })
				c.Check(p, "Pop on an empty ring did not panic")
			}
			what = "Pop"
		}
		c.Log("%s: %d inside of %d", what, n, r.Cap())
		c.Check(r.Len() == n && r.Avail() == r.Cap()-n && r.Empty() == (n == 0) && r.Full() == (n == r.Cap()) && r.Cap() >= n,
			"after %s (step %d, %d pushed so far): Len=%d Avail=%d Empty=%v Full=%v Cap=%d, %d are inside", what, s, total, r.Len(), r.Avail(), r.Empty(), r.Full(), r.Cap(), n)
		if c.Failed() {
			return
		}
	}
	c.M.Count("index_wraps", wraps)
	if total > 1<<33 {
		c.Nontrivial()
	}
}

// Long passes more than 2^32 bytes through a ring whose capacity is no power
// of two, mostly in large batches, singly around 2^31 and 2^32. A ring that
// copies one by one is given up after a while.
func Long(c *mon.C, r Ring[byte]) {
	const most = 3 << 20
	end := uint64(1)<<32 + 4*most
	src, dst := make([]byte, most), make([]byte, most)
	for i := range src {
		src[i] = byte(c.Uint32())
	}
	start := time.Now()
	for total := uint64(0); total < end; {
		if time.Since(start) > 15*time.Second {
			c.Log("given up after %d", total)
			c.M.Count("long_histories_given_up", 1)
			return
		}
		k := uint64(most - c.IntN(most/4))
		next := uint64(1) << 31
		if total >= next+64 {
			next = 1 << 32
		}
		switch left := next - 64 - total; {
		case total < next-64:
			k = min(k, left)
			r.MPush(src[:k]...)
			c.Check(r.Len() == k, "Len=%d after %d bytes were pushed (%d before)", r.Len(), k, total)
			if c.IntN(2) == 0 {
				r.MPopCopy(dst[:k])
				c.Check(bytes.Equal(src[:k], dst[:k]), "%d bytes came out changed after %d had passed", k, total)
			} else {
				c.Check(bytes.Equal(src[:k], r.MPop(k)), "%d bytes came out changed after %d had passed", k, total)
			}
			total += k
		case total < next+64: // across it: in and out in every way, with few or very many inside
			var want []byte
			held := uint64(mon.Pick(c.Rand, 1, 5, 20))
			if c.IntN(2) == 0 { // as many as there is room for
				held = r.Cap() - 30
				want = append(want, src...)
				for uint64(len(want)) < held {
					want = append(want, src...)
				}
				want = want[:held]
				r.MPush(want...)
				total += held
			}
			for total < next+64+held {
				m := min(uint64(mon.Pick(c.Rand, 1, 1, 2, 3, 20)), r.Avail())
				if m == 1 {
					r.Push(src[total%most])
				} else {
					r.MPush(src[total%(most-64):][:m]...)
				}
				for i := uint64(0); i < m; i++ {
					if m == 1 {
						want = append(want, src[total%most])
					} else {
						want = append(want, src[total%(most-64)+i])
					}
				}
				total += m
				c.Check(r.Len() == uint64(len(want)), "Len=%d, want %d, after %d bytes", r.Len(), len(want), total)
				for r.Len() > held || r.Avail() < 30 {
					n := min(uint64(mon.Pick(c.Rand, 1, 1, 2, 7)), r.Len())
					var got []byte
					switch {
					case n == 1:
						p := r.Peek()
						got = []byte{r.Pop()}
						c.Check(p == got[0], "Peek shows %d, Pop gives %d after %d bytes", p, got[0], total)
					case c.IntN(2) == 0:
						got = r.MPop(n)
					default:
						got = dst[:n]
						r.MPopCopy(got)
					}
					c.Check(bytes.Equal(got, want[:n]), "byte %d of the history and what follows came out as %v, want %v", total-uint64(len(want)), got, want[:n])
					want = want[n:]
				}
			}
			all := r.MPop(r.Len())
			c.Check(bytes.Equal(all, want), "%d bytes came out changed after %d had passed", len(want), total)
		default:
			r.MPush(src[:k]...)
			got := r.MPop(k)
			c.Check(bytes.Equal(src[:k], got), "%d bytes came out changed after %d had passed", k, total)
			total += k
		}
		if c.Failed() {
			return
		}
	}
	c.Check(r.Empty() && r.Len() == 0 && r.Avail() == r.Cap(), "Len=%d Avail=%d Cap=%d in the end", r.Len(), r.Avail(), r.Cap())
	c.M.Count("histories_past_2^32", 1)
	c.Nontrivial()
}
