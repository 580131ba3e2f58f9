package c05

import (
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"verif/harness/lim"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C05", "seeded histories over 1..4 strategies (some over up to 150) on a virtual clock, limiters sharing strategy objects, and seeded strategy sets for the constructor; non-trivial = saw both admissions and refusals, or an invalid set", func(m *mon.M) {
		m.Cases("single", m.N(1500*3), func(c *mon.C) {
			c.Bubble(func() { lim.Drive(c, lim.SlidingLog(c)) })
		})
		m.Cases("many", m.N(12), func(c *mon.C) {
			c.Bubble(func() { lim.Many(c, lim.SlidingLog) })
		})
		m.Cases("several", m.N(200*3), func(c *mon.C) {
			c.Bubble(func() { lim.Drive(c, lim.SlidingLog(c), lim.SlidingLog(c)) })
		})
		// the same strategy objects handed to limiters of different slot sizes
		m.Cases("shared", m.N(300*3), func(c *mon.C) {
			c.Bubble(func() {
				st := lim.Strategies(c)
				f := int64(2 + c.IntN(4))
				d := time.Duration(1+c.IntN(20)) * time.Millisecond
				var objs []*sliding_log.SlidingLogLimiterStrategy
				var fine []lim.Strategy
				for _, s := range st {
					objs = append(objs, sliding_log.NewSlidingLogLimiterStrategy(s.Limit, d*time.Duration(f*s.K)))
					fine = append(fine, lim.Strategy{Limit: s.Limit, K: s.K * f})
				}
				a := lim.SlidingLogOf(c, d, fine, objs)
				b := lim.SlidingLogOf(c, d*time.Duration(f), st, objs)
				drive := []*lim.Limiter{a, b}
				for n := c.IntN(4); n > 0; n-- { // and further ones of either slot size
					if c.IntN(2) == 0 {
						drive = append(drive, lim.SlidingLogOf(c, d, fine, objs))
					} else {
						drive = append(drive, lim.SlidingLogOf(c, d*time.Duration(f), st, objs))
					}
				}
				lim.Drive(c, drive...)
			})
		})
		m.Cases("construct", m.N(800*3), func(c *mon.C) {
			d := time.Duration(1 + c.IntN(1000))
			var objs []*sliding_log.SlidingLogLimiterStrategy
			var st [][2]int64
			crowd := 0
			if c.IntN(10) == 0 {
				crowd = 5 + c.IntN(120)
			}
			for i := c.IntN(4) + crowd; i > 0; i-- {
				w, n := d*time.Duration(1+c.IntN(6)), c.IntN(6)
				if crowd > 0 { // in order, but for one here and there
					w, n = d*time.Duration(i/2+1), i
					if c.IntN(2*crowd) == 0 {
						n += c.IntN(3) - 1
					}
				}
				if c.IntN(6+2*crowd) == 0 {
					w += time.Duration(1 + c.IntN(int(d)))
				}
				objs = append(objs, sliding_log.NewSlidingLogLimiterStrategy(n, w))
				st = append(st, [2]int64{int64(w), int64(n)})
			}
			// valid: some strategy, every window divisible, and any two
			// strategies ordered the same way (strictly) by limit as by window
			valid := len(st) > 0
			for i, a := range st {
				if a[0]%int64(d) != 0 {
					valid = false
				}
				for _, b := range st[:i] {
					if a[1] == b[1] || (a[0] > b[0] && a[1] < b[1]) || (a[0] < b[0] && a[1] > b[1]) {
						valid = false
					}
				}
			}
			l, err := sliding_log.NewSlidingLogLimiter(d, objs...)
			c.Log("slot=%d (window,limit)=%v err=%v", d, st, err)
			if !valid {
				c.Nontrivial()
			}
			c.Check((err == nil) == valid && (l != nil) == valid, "slot %v strategies (window,limit) %v: valid=%v but err=%v", d, st, valid, err)
		})
	})
}
