package c03

import (
	"testing"

	"verif/harness/lim"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	mon.Run(t, "C03", "seeded histories of bursts and boundary-seeking waits on a virtual clock; non-trivial = saw both admissions and refusals", func(m *mon.M) {
		m.Cases("single", m.N(1500*8), func(c *mon.C) {
			c.Bubble(func() { lim.Drive(c, lim.Token(c)) })
		})
		m.Cases("many", m.N(12), func(c *mon.C) {
			c.Bubble(func() { lim.Many(c, lim.Token) })
		})
		m.Cases("several", m.N(300*8), func(c *mon.C) {
			c.Bubble(func() { lim.Drive(c, lim.Token(c), lim.Token(c), lim.Token(c)) })
		})
	})
}
