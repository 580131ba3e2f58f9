package c19

import (
	"testing"
	"time"

	"verif/harness/dq"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C19", "takers with deadlines come, give up and leave while producers push at the same virtual instants; every wait and every push is timed and judged offline, blocked pushes and lost wake-ups show as idle takers, stuck bubbles or the watchdog; non-trivial = every case", func(m *mon.M) {
		m.Cases("cancel", m.N(3000), func(c *mon.C) {
			c.Bubble(func() {
				c.Nontrivial()
				dq.Run(c, dq.Opt{Producers: 1 + c.IntN(3), Takers: 1 + c.IntN(6), Pushes: 5 + c.IntN(25), Busy: c.IntN(2) == 0, Cancel: true, Poll: c.IntN(5) == 0,
					Grain: mon.Pick(c.Rand, time.Microsecond, time.Millisecond, 70*time.Millisecond, 3*time.Second, 7*time.Minute, 31*time.Hour)})
			})
		})
	})
}
