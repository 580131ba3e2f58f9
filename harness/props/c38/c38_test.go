package c38

import (
	"fmt"
	gomath "math"
	"math/big"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/math"
	"verif/harness/mon"
)

type word uint16 // the functions take named types too
type score int32
type ratio float32
type label string
type (
	byt   uint8
	mid   uint32
	big64 uint64
	mach  uint
	addr  uintptr
	tiny  int8
	shrt  int16
	long  int64
	nat   int
	real  float64
)

// of checks the bit functions on one value against counting with big integers.
func unsigned[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](c *mon.C, n T) {
	b := new(big.Int).SetUint64(uint64(n))
	size := new(big.Int).SetUint64(uint64(^T(0))).BitLen()
	c.Check(math.FindLastBitSet(n) == b.BitLen(), "FindLastBitSet(%T %d) is %d, want %d", n, n, math.FindLastBitSet(n), b.BitLen())
	ones := 0
	for i := 0; i < size; i++ {
		ones += int(b.Bit(i))
	}
	c.Check(math.IsPowOf2(n) == (ones == 1), "IsPowOf2(%T %d) is %v", n, n, math.IsPowOf2(n))
	if n >= 1 {
		down := new(big.Int).Lsh(big.NewInt(1), uint(b.BitLen()-1))
		c.Check(uint64(math.RoundDownPowOf2(n)) == down.Uint64(), "RoundDownPowOf2(%T %d) is %d, want %d", n, n, math.RoundDownPowOf2(n), down)
		up := down
		if ones > 1 {
			up = new(big.Int).Lsh(down, 1)
		}
		if up.BitLen() <= size {
			c.Check(uint64(math.RoundUpPowOf2(n)) == up.Uint64(), "RoundUpPowOf2(%T %d) is %d, want %d", n, n, math.RoundUpPowOf2(n), up)
		}
		c.Check(uint64(math.Log2(n)) == uint64(b.BitLen()-1), "Log2(%T %d) is %d, want %d", n, n, math.Log2(n), b.BitLen()-1)
	}
	c.M.Count("bit_values", 1)
}

func signed[T ~int | ~int8 | ~int16 | ~int32 | ~int64](c *mon.C, a, b T) {
	x, y := big.NewInt(int64(a)), big.NewInt(int64(b))
	hi, lo := a, b
	if x.Cmp(y) < 0 {
		hi, lo = b, a
	}
	c.Check(math.Max(a, b) == hi && math.Min(a, b) == lo, "Max, Min of %T %d and %d: %d, %d", a, a, b, math.Max(a, b), math.Min(a, b))
	want := new(big.Int).Abs(x)
	if t := T(want.Int64()); want.IsInt64() && t >= 0 && int64(t) == want.Int64() {
		c.Check(math.Abs(a) == t, "Abs(%T %d) is %d", a, a, math.Abs(a))
	}
	if a > 0 {
		c.Check(int64(math.Log2(a)) == int64(x.BitLen()-1), "Log2(%T %d) is %d, want %d", a, a, math.Log2(a), x.BitLen()-1)
	}
}

func float[T ~float32 | ~float64](c *mon.C, a, b T) {
	hi, lo := a, b
	if !(a > b) {
		hi, lo = b, a
	}
	c.Check(math.Max(a, b) == hi && math.Min(a, b) == lo, "Max, Min of %T %v and %v: %v, %v", a, a, b, math.Max(a, b), math.Min(a, b))
	want := a
	if gomath.Signbit(float64(a)) {
		want = -a
	}
	c.Check(math.Abs(a) == want, "Abs(%T %v) is %v", a, a, math.Abs(a))
	if a > 0 && !gomath.IsInf(float64(a), 0) {
		w := gomath.Log2(float64(a))
		got := float64(math.Log2(a))
		c.Check(gomath.Abs(got-w) <= 1e-5*gomath.Max(1, gomath.Abs(w)), "Log2(%T %v) is %v, want %v", a, a, got, w)
		if f, e := gomath.Frexp(float64(a)); f == 0.5 {
			c.Check(got == float64(e-1), "Log2(%T %v) is %v, want exactly %d", a, a, got, e-1)
		}
	}
}

// odd draws a number around a power of two, or any.
func odd(c *mon.C) uint64 {
	switch c.IntN(4) {
	case 0:
		return c.Uint64()
	case 1:
		return c.Uint64() >> c.IntN(64)
	default:
		return uint64(1)<<c.IntN(64) + uint64(c.IntN(5)) - 2
	}
}

func TestProp(t *testing.T) {
	mon.Run(t, "C38", "every value of the 8 and 16 bit types, and wider values at, around and between powers of two, in all instantiations including named types; splits of n into m parts, both up to the maximum; floats from subnormal to infinite; compared with big-integer arithmetic; non-trivial = a value within two of a power of two, or a split that does not come out even", func(m *mon.M) {
		m.Cases("small", 256, func(c *mon.C) {
			c.Log("%d", c.Idx)
			a := c.Idx
			unsigned(c, uint8(a))
			for b := 0; b < 256; b++ {
				v := uint16(a<<8 | b)
				unsigned(c, v)
				unsigned(c, word(v))
				unsigned(c, byt(v))
				signed(c, tiny(a), tiny(b))
				signed(c, shrt(v), shrt(c.Uint32()))
				signed(c, int8(a), int8(b))
				signed(c, int16(v), int16(c.Uint32()))
			}
			c.Nontrivial()
		})
		m.Cases("wide", m.N(3000*6), func(c *mon.C) {
			a, b := odd(c), odd(c)
			if c.IntN(4) == 0 {
				b = a + uint64(c.IntN(3)) - 1
			}
			c.Log("%d %d", a, b)
			unsigned(c, a)
			unsigned(c, uint32(a))
			unsigned(c, uint32(a>>32))
			unsigned(c, uint(a))
			unsigned(c, uintptr(a))
			unsigned(c, mid(a))
			unsigned(c, big64(a))
			unsigned(c, mach(a))
			unsigned(c, addr(a))
			signed(c, long(a), long(b))
			signed(c, nat(a), nat(b))
			signed(c, int64(a), int64(b))
			signed(c, int(a), int(b))
			signed(c, int32(a), int32(b))
			signed(c, score(a), score(b))
			hi, lo := max(a, b), min(a, b)
			c.Check(math.Max(a, b) == hi && math.Min(a, b) == lo, "Max, Min of %d and %d: %d, %d", a, b, math.Max(a, b), math.Min(a, b))
			s, u := label(fmt.Sprint(a)), label(fmt.Sprint(b))
			sh, sl := s, u
			if s < u {
				sh, sl = u, s
			}
			c.Check(math.Max(s, u) == sh && math.Min(s, u) == sl, "Max, Min of %q and %q: %q, %q", s, u, math.Max(s, u), math.Min(s, u))
			if a&(a-1) == 0 || (a+1)&a == 0 || (a-1)&(a-2) == 0 {
				c.Nontrivial()
			}
		})
		m.Cases("floats", m.N(2000*6), func(c *mon.C) {
			one := func() float64 {
				switch c.IntN(5) {
				case 0:
					return mon.Pick(c.Rand, 0, gomath.Copysign(0, -1), gomath.Inf(1), gomath.Inf(-1), gomath.MaxFloat64, gomath.SmallestNonzeroFloat64, 1, -1)
				case 1:
					return gomath.Ldexp(1, c.IntN(2000)-1000)
				case 2:
					return float64(int64(c.Uint64()))
				}
				for {
					if f := gomath.Float64frombits(c.Uint64()); f == f {
						return f
					}
				}
			}
			a, b := one(), one()
			c.Log("%v %v", a, b)
			float(c, a, b)
			float(c, float32(a), float32(b))
			float(c, ratio(a), ratio(b))
			float(c, real(a), real(b))
			c.M.Count("floats", 6)
		})
		m.Cases("split", m.N(4000*6), func(c *mon.C) {
			n, k := uint(odd(c)), uint(odd(c))
			if c.IntN(2) == 0 {
				n, k = uint(c.IntN(300)), uint(1+c.IntN(40))
			}
			if k == 0 {
				k = 1
			}
			c.Log("%d by %d", n, k)
			per, last := math.Split(n, k)
			N, K := new(big.Int).SetUint64(uint64(n)), new(big.Int).SetUint64(uint64(k))
			if n == 0 {
				c.Check(per == 0 && last == 0, "Split(0, %d) is %d, %d", k, per, last)
				return
			}
			want := new(big.Int).Add(N, K)
			want.Sub(want, big.NewInt(1)).Div(want, K)
			c.Check(new(big.Int).SetUint64(uint64(per)).Cmp(want) == 0, "Split(%d, %d): parts of %d, want %v", n, k, per, want)
			c.Check(last >= 1 && last <= per && (n-last)%per == 0, "Split(%d, %d) is %d and %d, which do not make up the whole", n, k, per, last)
			c.Check((n-last)/per < k, "Split(%d, %d): more than %d parts", n, k, k)
			c.M.Count("splits", 1)
			if n%k != 0 {
				c.Nontrivial()
			}
		})
	})
}
