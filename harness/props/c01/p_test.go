package c01

import (
	"testing"

	"verif/harness/lim"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C01", "seeded histories of bursts and boundary-seeking waits on a virtual clock; non-trivial = saw both admissions and refusals", func(m *mon.M) {
		m.Cases("single", m.N(1500*3), func(c *mon.C) {
			c.Bubble(func() { lim.Drive(c, lim.Fixed(c)) })
		})
		m.Cases("many", m.N(12), func(c *mon.C) {
			c.Bubble(func() { lim.Many(c, lim.Fixed) })
		})
		m.Cases("several", m.N(300*3), func(c *mon.C) {
			c.Bubble(func() { lim.Drive(c, lim.Fixed(c), lim.Fixed(c), lim.Fixed(c)) })
		})
	})
}
