// Package lim holds the five rate limiters behind one adapter together with
// the sequential reference model each is judged against.
package lim

import (
	"errors"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"sync"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"verif/harness/mon"
)

// Limiter is a real limiter, its model, and the durations that matter to it.
type Limiter struct {
	Desc  string
	Try   func() string              // "" = admitted, otherwise the refusal
	Model func(now time.Time) string // same, for one attempt at now
	Marks []time.Duration            // interesting time steps
	Burst int                        // about how many attempts exhaust it
	// Kept says what became of refusals handed out earlier ("" = unchanged).
	Kept func() string
	// Next returns interesting waits relative to the model's present state.
	Next func(now time.Time) []time.Duration
}

func verdict(ok bool) string {
	if ok {
		return ""
	}
	return "refused"
}

var units = []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, 10 * time.Millisecond, time.Second, time.Minute, time.Hour}

// Big makes every limit drawn meanwhile exceed 16 bits.
var Big bool

// year and the end of what a clock counted in nanoseconds can show.
const year = 365 * 24 * time.Hour

var doom = time.Unix(0, math.MaxInt64).Add(-year)

// longer makes a few spans last for years, decades or centuries.
func longer(c *mon.C, d time.Duration) time.Duration {
	if c.IntN(25) == 0 {
		return time.Duration(1+c.IntN(70)) * mon.Pick(c.Rand, 24*time.Hour, year, 4*year)
	}
	return d
}

func limit(c *mon.C) int {
	if Big {
		return mon.Pick(c.Rand, 65535, 65536, 65537, 66000+c.IntN(5000), 70000, 100000+c.IntN(40000), 140000)
	}
	switch c.IntN(12) {
	case 0:
		return 0
	case 1:
		if c.IntN(8) == 0 { // beyond 16 bits
			return mon.Pick(c.Rand, 32767, 32768, 65535, 65536, 70000+c.IntN(1000))
		}
		return 1
	case 2, 3:
		return 1 + c.IntN(1000)
	case 4:
		return mon.Pick(c.Rand, 64, 100, 128, 255, 256, 257, 512, 1000, 1024)
	}
	return 1 + c.IntN(20)
}

func Fixed(c *mon.C) *Limiter {
	n := limit(c)
	w := longer(c, time.Duration(1+c.IntN(50))*mon.Pick(c.Rand, units...))
	if c.IntN(80) == 0 {
		w = math.MaxInt64 - time.Duration(c.IntN(3))
	}
	l := fixed_window.NewFixedWindowLimiter(n, w)
	start, count := time.Now(), 0
	return &Limiter{
		Desc: fmt.Sprintf("fixed window limit=%d window=%v", n, w),
		Try:  func() string { return verdict(l.TryAcquire()) },
		Model: func(now time.Time) string {
			if now.Sub(start) > w {
				start, count = now, 0
			}
			if count >= n {
				return "refused"
			}
			count++
			return ""
		},
		Marks: []time.Duration{w, w - 1, w + 1, w / 2, 2 * w, 2*w + 1},
		Burst: n,
		Next: func(now time.Time) []time.Duration {
			e := start.Add(w).Sub(now)
			return []time.Duration{e - 1, e, e + 1}
		},
	}
}

// secs is the whole-second clock both buckets run on.
type secs struct{ base time.Time }

func (s *secs) elapsed(now time.Time) int64 {
	n := int64(now.Sub(s.base) / time.Second)
	s.base = s.base.Add(time.Duration(n) * time.Second)
	return n
}

func (s *secs) next(now time.Time) []time.Duration {
	e := s.base.Add(time.Second).Sub(now)
	k := time.Duration(now.UnixNano() % 7)
	return []time.Duration{e - 1, e, e + 1, e + k*time.Second, e + k*time.Second - 1}
}

var secMarks = []time.Duration{time.Second, time.Second - 1, time.Second + 1, 1500 * time.Millisecond,
	1999 * time.Millisecond, 100 * time.Millisecond, 2 * time.Second, 10 * time.Second, time.Minute, 3 * time.Hour, 100 * 24 * time.Hour, year, 1<<31*time.Second + time.Second, 80 * year, 1 << 32 * time.Second}

func rate(c *mon.C) int {
	if Big {
		return mon.Pick(c.Rand, 1, 40000, 65535, 65536, 70000, 1<<20, 1<<32)
	}
	switch c.IntN(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 1 + c.IntN(2000)
	case 3:
		return 1 << c.IntN(63)
	case 4:
		if c.IntN(3) == 0 {
			return math.MaxInt - c.IntN(3)
		}
	}
	return 1 + c.IntN(12)
}

// times multiplies whole seconds with a rate, stopping at what no bucket holds.
func times(sec int64, rate int) int64 {
	if hi, lo := bits.Mul64(uint64(sec), uint64(rate)); hi == 0 && lo <= math.MaxInt64/2 {
		return int64(lo)
	}
	return math.MaxInt64 / 2
}

func Leaky(c *mon.C) *Limiter {
	peak, v := limit(c), rate(c)
	l := leaky_bucket.NewLeakyBucketLimiter(peak, v)
	s, level := &secs{time.Now()}, int64(0)
	return &Limiter{
		Desc: fmt.Sprintf("leaky bucket peak=%d velocity=%d", peak, v),
		Try:  func() string { return verdict(l.TryAcquire()) },
		Model: func(now time.Time) string {
			level = max(0, level-times(s.elapsed(now), v))
			if level >= int64(peak) {
				return "refused"
			}
			level++
			return ""
		},
		Marks: secMarks, Burst: peak, Next: s.next,
	}
}

func Token(c *mon.C) *Limiter {
	capa, r := limit(c), rate(c)
	l := token_bucket.NewTokenBucketLimiter(capa, r)
	s, tokens := &secs{time.Now()}, int64(0)
	cap3 := 1000
	if Big {
		cap3 = capa
	}
	return &Limiter{
		Desc: fmt.Sprintf("token bucket capacity=%d rate=%d", capa, r),
		Try:  func() string { return verdict(l.TryAcquire()) },
		Model: func(now time.Time) string {
			tokens = min(int64(capa), tokens+times(s.elapsed(now), r))
			if tokens == 0 {
				return "refused"
			}
			tokens--
			return ""
		},
		Marks: secMarks, Burst: min(capa, 3*min(r, cap3)), Next: s.next,
	}
}

// slots is the shared sliding count: admissions per aligned time slot.
type slots struct {
	slot int64
	n    map[int64]int
}

func (s *slots) cur(now time.Time) int64 { return now.UnixNano() / s.slot }
func (s *slots) count(now time.Time, k int64) (n int) {
	cur := s.cur(now)
	for i, c := range s.n {
		if i > cur-k && i <= cur {
			n += c
		}
	}
	return
}

func (s *slots) next(k int64) func(time.Time) []time.Duration {
	return func(now time.Time) []time.Duration {
		e := time.Duration(s.slot - now.UnixNano()%s.slot)
		d := time.Duration(s.slot)
		return []time.Duration{e - 1, e, e + 1, e + d*time.Duration(k-1), e + d*time.Duration(k-1) - 1, e + d*time.Duration(max(0, k-2)), e + d*time.Duration(max(0, k-2)) - 1}
	}
}

func slot(c *mon.C) time.Duration {
	return longer(c, time.Duration(1+c.IntN(30))*mon.Pick(c.Rand, units...))
}

func nslots(c *mon.C) int64 {
	if Big {
		return 1 + c.Int64N(4)
	}
	switch c.IntN(5) {
	case 0:
		return 1
	case 1:
		if c.IntN(6) == 0 {
			return int64(100 + c.IntN(2000))
		}
		return 2
	case 2:
		return int64(2 + c.IntN(100))
	}
	return int64(1 + c.IntN(12))
}

func SlidingWindow(c *mon.C) *Limiter {
	n, d, k := limit(c), slot(c), nslots(c)
	k = min(k, math.MaxInt64/int64(d)) // centuries
	w := d * time.Duration(k)
	l, err := sliding_window.NewSlidingWindowLimiter(n, w, d)
	c.Check(err == nil, "NewSlidingWindowLimiter(%d, %v, %v) with a divisible window: error %v", n, w, d, err)
	s := &slots{int64(d), map[int64]int{}}
	return &Limiter{
		Desc: fmt.Sprintf("sliding window limit=%d window=%v slot=%v", n, w, d),
		Try:  func() string { return verdict(l.TryAcquire()) },
		Model: func(now time.Time) string {
			if s.count(now, k) >= n {
				return "refused"
			}
			s.n[s.cur(now)]++
			return ""
		},
		Marks: []time.Duration{d, d - 1, d + 1, w, w - 1, w + 1, w - d, 2 * w, d / 2}, Burst: n, Next: s.next(k),
	}
}

// Strategy is one limit of a sliding log.
type Strategy struct {
	Limit int
	K     int64
}

// Refusal renders the error of a sliding log attempt.
func Refusal(err error) string {
	if err == nil {
		return ""
	}
	var v *sliding_log.ViolationStrategyError
	if !errors.As(err, &v) {
		return "unexpected error " + err.Error()
	}
	return fmt.Sprintf("refused by limit=%d window=%v", v.Limit, v.Window)
}

// Strategies draws a valid set of strategies in slots, widest first.
func Strategies(c *mon.C) []Strategy {
	var out []Strategy
	k, n := int64(0), 0
	count := 1 + c.IntN(4)
	if c.IntN(10) == 0 && !Big {
		count = mon.Pick(c.Rand, 8, 9, 16, 17, 33, 65, 130, 5+c.IntN(150)) // a crowd of strategies
	}
	for i := count; i > 0; i-- {
		k += mon.Pick(c.Rand, 0, 1, 1, 2, int64(1+c.IntN(20)))
		if Big {
			k = min(k, 6)
		}
		if k == 0 {
			k = 1
		}
		n += 1 + c.IntN(mon.Pick(c.Rand, 2, 10, 100))
		if count > 4 {
			n = len(out) + 1 + c.IntN(2)*(len(out)%7)
			if len(out) > 0 {
				n = max(n, out[len(out)-1].Limit+1)
			}
		}
		if Big {
			n += limit(c)
		}
		out = append(out, Strategy{n, k})
	}
	if c.IntN(8) == 0 {
		for i := range out {
			out[i].Limit-- // a zero limit is legal
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Limit > out[j].Limit })
	return out
}

// SlidingLogOf builds a sliding log over the given strategy objects.
func SlidingLogOf(c *mon.C, d time.Duration, st []Strategy, objs []*sliding_log.SlidingLogLimiterStrategy) *Limiter {
	l, err := sliding_log.NewSlidingLogLimiter(d, objs...)
	c.Check(err == nil, "NewSlidingLogLimiter(slot=%v, %v) rejected a valid set: %v", d, st, err)
	s := &slots{int64(d), map[int64]int{}}
	type kept struct {
		err  error
		said string
	}
	var mu sync.Mutex
	var keep []kept
	said := func(err error) string {
		if err == nil {
			return ""
		}
		return Refusal(err) + "|" + err.Error()
	}
	return &Limiter{
		Desc: fmt.Sprintf("sliding log slot=%v strategies(limit,slots)=%v", d, st),
		Try: func() string {
			err := l.TryAcquire()
			if err != nil {
				mu.Lock()
				defer mu.Unlock()
				if len(keep) < 64 {
					keep = append(keep, kept{err, said(err)})
				} else { // and a changing one
					keep[63] = kept{err, said(err)}
				}
			}
			return Refusal(err)
		},
		Kept: func() string {
			mu.Lock()
			defer mu.Unlock()
			for _, k := range keep {
				if now := said(k.err); now != k.said {
					return fmt.Sprintf("a refusal that said %q says %q after later attempts", k.said, now)
				}
			}
			return ""
		},
		Model: func(now time.Time) string {
			for _, x := range st {
				if s.count(now, x.K) >= x.Limit {
					return fmt.Sprintf("refused by limit=%d window=%v", x.Limit, d*time.Duration(x.K))
				}
			}
			s.n[s.cur(now)]++
			return ""
		},
		Marks: []time.Duration{d, d - 1, d + 1, d * time.Duration(st[0].K), d * time.Duration(st[len(st)-1].K), d * time.Duration(2*st[0].K)},
		Burst: st[len(st)-1].Limit + 1,
		Next: func(now time.Time) []time.Duration {
			var o []time.Duration
			for _, x := range st {
				o = append(o, s.next(x.K)(now)...)
			}
			return o
		},
	}
}

func SlidingLog(c *mon.C) *Limiter {
	d, st := slot(c), Strategies(c)
	for _, x := range st {
		d = min(d, math.MaxInt64/time.Duration(x.K))
	}
	var objs []*sliding_log.SlidingLogLimiterStrategy
	for _, i := range c.Perm(len(st)) {
		objs = append(objs, sliding_log.NewSlidingLogLimiterStrategy(st[i].Limit, d*time.Duration(st[i].K)))
	}
	l := SlidingLogOf(c, d, st, objs)
	if c.IntN(2) == 0 { // the caller's slice is the caller's to use again
		c.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
		for i := range objs {
			if c.IntN(2) == 0 {
				objs[i] = sliding_log.NewSlidingLogLimiterStrategy(c.IntN(5), d*time.Duration(1+c.IntN(5)))
			}
		}
	}
	return l
}

// Wait sleeps a seeded, boundary-seeking time on the virtual clock.
func (l *Limiter) Wait(c *mon.C) {
	var d time.Duration
	switch c.IntN(6) {
	case 0:
		return
	case 1:
		d = mon.Pick(c.Rand, l.Marks...)
	case 2, 3:
		d = mon.Pick(c.Rand, l.Next(time.Now())...)
	case 4:
		d = time.Duration(c.Int64N(min(int64(l.Marks[0]), math.MaxInt64/4)*2 + 1))
	case 5:
		d = 1
		if c.IntN(10) == 0 { // long idle: what is counted in 32 bits wraps
			d = mon.Pick(c.Rand, time.Second, 1<<31, 1<<32, 1<<31*time.Microsecond, 1<<32*time.Microsecond, 30*24*time.Hour, 1<<31*time.Millisecond, 1<<32*time.Millisecond, 1000*24*time.Hour) + time.Duration(c.IntN(3)-1)
		}
	}
	if d < 0 || d > doom.Sub(time.Now()) {
		d = 0
	}
	time.Sleep(d)
}

// Many drives limiters whose limits exceed 16 bits: they are filled to the
// brim, and probed around it and after waits.
func Many(c *mon.C, mk func(c *mon.C) *Limiter) {
	Big = true
	defer func() { Big = false }()
	l := mk(c)
	c.Log("new %s", l.Desc)
	admitted, refused := 0, 0
	for round := 0; round < 4; round++ {
		for _, k := range []int{1 + c.IntN(l.Burst), l.Burst, 3, 1000} {
			now := time.Now()
			for i := 0; i < k; i++ {
				got, want := l.Try(), l.Model(now)
				if got == "" {
					admitted++
				} else {
					refused++
				}
				c.Check(got == want, "%s: attempt %d of %d at t=%s (round %d): got %q, the reference says %q", l.Desc, i+1, k, now.Format(time.RFC3339Nano), round, got, want)
			}
			if k > 3 && c.IntN(2) == 0 {
				l.Wait(c)
			}
		}
		c.Log("t=%v admitted=%d refused=%d", time.Now().UnixNano(), admitted, refused)
		if c.IntN(2) == 0 {
			if d := mon.Pick(c.Rand, l.Marks...); d < doom.Sub(time.Now()) {
				time.Sleep(d)
			}
		} else {
			l.Wait(c)
		}
	}
	c.M.Count("attempts_admitted", admitted)
	c.M.Count("attempts_refused", refused)
	if admitted > 60000 && refused > 0 {
		c.Nontrivial()
	}
}

// Drive runs one seeded history against the limiters and their models.
func Drive(c *mon.C, ls ...*Limiter) {
	for _, l := range ls {
		c.Log("new %s", l.Desc)
	}
	admitted, refused := 0, 0
	for step, n := 0, 20+c.IntN(60); step < n; step++ {
		l := ls[c.IntN(len(ls))]
		l.Wait(c)
		k := 1
		switch c.IntN(4) {
		case 0:
			k = l.Burst + c.IntN(3)
		case 1:
			k = 1 + c.IntN(l.Burst+1)
		}
		now := time.Now()
		for i := 0; i < k; i++ {
			got, want := l.Try(), l.Model(now)
			if got == "" {
				admitted++
			} else {
				refused++
			}
			if got != want {
				c.Log("t=%v attempt %d/%d -> %q", now.UnixNano(), i+1, k, got)
				c.Check(false, "%s: attempt %d of %d at t=%s: got %q, the reference says %q", l.Desc, i+1, k, now.Format(time.RFC3339Nano), got, want)
			}
		}
		c.Log("t=%v %d attempts on %.14s, totals admitted=%d refused=%d", now.UnixNano(), k, l.Desc, admitted, refused)
	}
	for _, l := range ls {
		if l.Kept != nil {
			if bad := l.Kept(); bad != "" {
				c.Check(false, "%s: %s", l.Desc, bad)
			}
		}
	}
	c.M.Count("attempts_admitted", admitted)
	c.M.Count("attempts_refused", refused)
	if admitted > 0 && refused > 0 {
		c.Nontrivial()
	}
}
