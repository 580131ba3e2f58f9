package c41

import (
	"math"
	"regexp"
	"strconv"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/mon"
)

var units = []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"}

func unit(s string) int {
	for i, u := range units {
		if u == s {
			return i
		}
	}
	return -1
}

// size draws a number of bytes at, around or between the units.
func size(c *mon.C) int64 {
	p := int64(1) << (10 * c.IntN(7))
	switch c.IntN(6) {
	case 0:
		return max(0, p+int64(c.IntN(5))-2)
	case 1:
		return int64(c.IntN(1100))
	case 2: // where a digit of the shown number changes
		f := float64(p) * mon.Pick(c.Rand, 1.05, 1.15, 9.95, 9.949, 9.951, 10, 10.5, 99.5, 999.5, 1023.4, 1023.6, 1023.99, 1023.994, 1023.996)
		if f < math.MaxInt64 {
			return int64(f)
		}
		return math.MaxInt64 - int64(c.IntN(3))
	case 3:
		if p < 1<<60 {
			return p * int64(1+c.IntN(1024))
		}
		return p * int64(1+c.IntN(7))
	}
	return int64(c.Uint64() >> (1 + c.IntN(63)))
}

var shownB = regexp.MustCompile(`^([0-9]+\.[0-9]{2}) ([KMGTP]?B)$`)
var shownS = regexp.MustCompile(`^([0-9]+|[0-9]+\.[0-9]) ([KMGTPE]?B)$`)

func TestProp(t *testing.T) {
	mon.Run(t, "C41", "numbers of either sign at, around and between multiples and halves of the decimal place rounded to, for places on both sides of the point; sizes at, just below and just above every unit and every change of a shown digit; checked on what the shown text says; non-trivial = a number that is not already round, or a size of a kilobyte and more", func(m *mon.M) {
		m.Cases("round", m.N(6000*10), func(c *mon.C) {
			n := c.IntN(7)
			if c.IntN(4) == 0 {
				n = 7 + c.IntN(12)
			}
			p := math.Pow10(n)
			var f float64
			lim := 1e12 / p
			switch c.IntN(6) {
			case 0:
				f = (c.Float64()*2 - 1) * lim
			case 1: // already round
				f = float64(c.IntN(2000000)-1000000) / p
			case 2: // about a half
				f = (float64(c.IntN(20000)-10000) + 0.5) / p
				f *= 1 + float64(c.IntN(5)-2)*1e-13
			case 3:
				f = (float64(c.IntN(20000)-10000) + mon.Pick(c.Rand, 0.01, 0.49, 0.499999, 0.500001, 0.51, 0.99)) / p
			case 4:
				f = mon.Pick(c.Rand, 0, math.Copysign(0, -1), 1e-300, -1e-300, math.SmallestNonzeroFloat64, 0.4/p, -0.4/p, 0.6/p, -0.6/p)
			default:
				f = (c.Float64()*2 - 1) * mon.Pick(c.Rand, 1, 10, 1000, 1e6) / p
			}
			r := utils.Round(f, n)
			c.Log("%v to %d: %v", f, n, r)
			k := math.Round(r * p)
			slack := 1e-9 / p * math.Max(1, math.Abs(f)*p*1e-6)
			c.Check(math.Abs(r-f) <= 0.5/p+slack, "Round(%v, %d) is %v: off by more than half a unit", f, n, r)
			c.Check(r == k/p, "Round(%v, %d) is %v, which is no multiple of %v", f, n, r, 1/p)
			c.Check(utils.Round(-f, n) == -r, "Round(%v, %d) is %v but Round(%v, %d) is %v", f, n, r, -f, n, utils.Round(-f, n))
			c.Check(utils.Round(r, n) == r, "Round(%v, %d) is %v, rounded again %v", f, n, r, utils.Round(r, n))
			if f != r {
				c.Nontrivial()
			}
			c.M.Count("rounded", 1)
		})
		m.Cases("halves", m.N(300*10), func(c *mon.C) {
			// to the integer, a half goes away from zero
			k := float64(c.IntN(1000000))
			c.Log("%v", k)
			r, s := utils.Round(k+0.5, 0), utils.Round(-k-0.5, 0)
			c.Check(r == k+1 && s == -k-1, "Round of %v and %v to 0 places: %v and %v", k+0.5, -k-0.5, r, s)
		})
		m.Cases("tens", m.N(500*10), func(c *mon.C) {
			n := 1 + c.IntN(3)
			p := math.Pow10(n)
			f := float64(c.IntN(2000001)-1000000) + mon.Pick(c.Rand, 0, 0.25, c.Float64())
			r := utils.Round(f, -n)
			c.Log("%v to -%d: %v", f, n, r)
			c.Check(math.Abs(r-f) <= p/2+1e-6, "Round(%v, -%d) is %v: off by more than half a unit", f, n, r)
			c.Check(math.Abs(r-p*math.Round(r/p)) <= 1e-6, "Round(%v, -%d) is %v, which is no multiple of %v", f, n, r, p)
			c.Check(utils.Round(-f, -n) == -r, "Round(%v, -%d) is %v but of %v %v", f, n, r, -f, utils.Round(-f, -n))
		})
		m.Cases("sizes", m.N(5000*10), func(c *mon.C) {
			b := size(c)
			s, f := utils.FormatByte(int(b)), utils.FileSize(b)
			c.Log("%d: %s, %s", b, s, f)
			x := shownB.FindStringSubmatch(s)
			c.Check(x != nil, "FormatByte(%d) is %q", b, s)
			v, _ := strconv.ParseFloat(x[1], 64)
			e := unit(x[2])
			w := float64(b) / math.Pow(1024, float64(e))
			c.Check(math.Abs(v-w) <= 0.0050001+w*1e-12, "FormatByte(%d) is %q: that would be %v", b, s, w)
			c.Check(v <= 1024 || e == 5, "FormatByte(%d) is %q, more than 1024 of a unit", b, s)
			c.Check(e == 0 || w >= 0.999, "FormatByte(%d) is %q, less than one of a unit", b, s)
			x = shownS.FindStringSubmatch(f)
			c.Check(x != nil, "FileSize(%d) is %q", b, f)
			v, _ = strconv.ParseFloat(x[1], 64)
			e = unit(x[2])
			w = float64(b) / math.Pow(1024, float64(e))
			tol := 0.5
			if w < 10 && e > 0 {
				tol = 0.05
			}
			if e == 0 {
				tol = 0
			}
			c.Check(math.Abs(v-w) <= tol*1.000001+w*1e-12, "FileSize(%d) is %q: that would be %v", b, f, w)
			c.Check(v <= 1024, "FileSize(%d) is %q, more than 1024 of a unit", b, f)
			c.Check(e == 0 || w >= 0.999, "FileSize(%d) is %q, less than one of a unit", b, f)
			if b >= 1024 {
				c.Nontrivial()
			}
			c.M.Count("sizes_shown", 2)
		})
	})
}
