package c04

import (
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"verif/harness/lim"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C04", "seeded histories of bursts and boundary-seeking waits on a virtual clock, and seeded constructor arguments; non-trivial = saw both admissions and refusals, or an indivisible window", func(m *mon.M) {
		m.Cases("single", m.N(1500), func(c *mon.C) {
			c.Bubble(func() { lim.Drive(c, lim.SlidingWindow(c)) })
		})
		m.Cases("many", m.N(12), func(c *mon.C) {
			c.Bubble(func() { lim.Many(c, lim.SlidingWindow) })
		})
		m.Cases("several", m.N(300), func(c *mon.C) {
			c.Bubble(func() { lim.Drive(c, lim.SlidingWindow(c), lim.SlidingWindow(c), lim.SlidingWindow(c)) })
		})
		m.Cases("construct", m.N(500), func(c *mon.C) {
			d := time.Duration(1 + c.IntN(1000))
			w := time.Duration(1 + c.IntN(20000))
			if c.IntN(2) == 0 {
				w = d * time.Duration(1+c.IntN(50))
			}
			l, err := sliding_window.NewSlidingWindowLimiter(5, w, d)
			c.Log("window=%d slot=%d err=%v", w, d, err)
			if w%d != 0 {
				c.Nontrivial()
			}
			c.Check((err == nil) == (w%d == 0) && (l != nil) == (err == nil), "window %v slot %v: limiter nil=%v err=%v", w, d, l == nil, err)
		})
	})
}
