package rg

import "verif/harness/mon"

// Reused resets the ring again and again, with a few elements passing between.
func Reused(c *mon.C, r Ring[int]) {
	resets := mon.Pick(c.Rand, 300, 600, 1200, 5000)
	if c.Idx == 0 {
		resets = 70_000
	}
	c.Log("size %d, %d resets", r.Cap(), resets)
	grows := false
	if _, ok := r.(Grower); ok {
		grows = true
	}
	room := r.Cap()
	if grows || room > 6 {
		room = 6
	}
	at := 0
	for n := 0; n < resets; n++ {
		in := 1 + c.IntN(int(room))
		first := at
		for i := 0; i < in; i++ {
			r.Push(at)
			at++
		}
		out := c.IntN(in + 1)
		for i := 0; i < out; i++ {
			v := r.Pop()
			c.Check(v == first+i, "after %d resets Pop gave %d, want %d", n, v, first+i)
		}
		c.Check(r.Len() == uint64(in-out), "after %d resets Len=%d, want %d", n, r.Len(), in-out)
		size := r.Cap()
		r.Reset()
		c.Check(r.Len() == 0 && r.Empty() && (grows || r.Cap() == size) && r.Avail() == r.Cap(), "after %d resets: Len=%d Cap=%d (was %d) Avail=%d", n+1, r.Len(), r.Cap(), size, r.Avail())
		if n%64 == 0 {
			c.Check(len(r.MPop(3)) == 0, "something came out after %d resets", n+1)
		}
	}
	c.M.Count("resets", resets)
	c.Nontrivial()
}
