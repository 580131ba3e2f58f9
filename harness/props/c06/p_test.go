package c06

import (
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	"verif/harness/lim"
	"verif/harness/mon"
)

func TestProp(t *testing.T) {
	kinds := map[string]func(*mon.C) *lim.Limiter{"fixed": lim.Fixed, "leaky": lim.Leaky, "token": lim.Token, "window": lim.SlidingWindow, "log": lim.SlidingLog}
	mon.Run(t, "C06", "goroutines attempt together at the same virtual instants under the race detector; the admissions of each instant must number what that many sequential attempts would get; non-trivial = a contended instant with both admissions and refusals", func(m *mon.M) {
		m.Peak("gomaxprocs", runtime.GOMAXPROCS(0))
		for _, kind := range []string{"fixed", "leaky", "token", "window", "log"} {
			// all goroutines released at once, round after round
			m.Cases("burst-"+kind, m.N(40), func(c *mon.C) {
				c.Bubble(func() {
					l := kinds[kind](c)
					c.Log("new %s", l.Desc)
					mixed := false
					for round := 0; round < 25; round++ {
						l.Wait(c)
						g := 2 + c.IntN(14)
						each := 1 + min(l.Burst, 60)/g + c.IntN(3)
						got := make([]map[string]int, g)
						gate := make(chan struct{})
						var wg sync.WaitGroup
						for i := 0; i < g; i++ {
							got[i] = map[string]int{}
							c.Go(&wg, func() {
								<-gate
								for k := 0; k < each; k++ {
									got[i][l.Try()]++
								}
							})
						}
						close(gate)
						wg.Wait()
						now := time.Now()
						sum, want := map[string]int{}, map[string]int{}
						for i := range got {
							for k, v := range got[i] {
								sum[k] += v
							}
						}
						for k := 0; k < g*each; k++ {
							want[l.Model(now)]++
						}
						c.Log("t=%d %d goroutines x %d: %v", now.UnixNano(), g, each, sum)
						c.M.Count("concurrent_attempts", g*each)
						c.M.Count("contended_instants", 1)
						if sum[""] > 0 && len(sum) > 1 {
							mixed = true
						}
						c.Check(fmt.Sprint(sum) == fmt.Sprint(want), "%s: %d goroutines x %d attempts at one instant gave %v, one after another they give %v", l.Desc, g, each, sum, want)
					}
					if mixed {
						c.Nontrivial()
					}
				})
			})
			// goroutines on their own schedules, colliding at some instants
			m.Cases("schedules-"+kind, m.N(25), func(c *mon.C) {
				c.Bubble(func() {
					l := kinds[kind](c)
					c.Log("new %s", l.Desc)
					type rec struct {
						at  int64
						res string
					}
					g := 2 + c.IntN(10)
					step := l.Marks[0]/4 + 1
					recs := make([][]rec, g)
					var wg sync.WaitGroup
					for i := 0; i < g; i++ {
						waits := make([]time.Duration, 40)
						for k := range waits {
							waits[k] = step * time.Duration(c.IntN(4))
						}
						c.Go(&wg, func() {
							for _, w := range waits {
								time.Sleep(w)
								for k := 0; k < 3; k++ {
									at := time.Now().UnixNano()
									recs[i] = append(recs[i], rec{at, l.Try()})
								}
							}
						})
					}
					wg.Wait()
					byT := map[int64]map[string]int{}
					var ts []int64
					for _, rs := range recs {
						for _, r := range rs {
							if byT[r.at] == nil {
								byT[r.at] = map[string]int{}
								ts = append(ts, r.at)
							}
							byT[r.at][r.res]++
						}
					}
					sortInts(ts)
					adm, ref := 0, 0
					for _, at := range ts {
						n := 0
						for r, k := range byT[at] {
							n += k
							if r == "" {
								adm += k
							} else {
								ref += k
							}
						}
						want := map[string]int{}
						for k := 0; k < n; k++ {
							want[l.Model(time.Unix(0, at))]++
						}
						c.Log("t=%d %v", at, byT[at])
						c.Check(fmt.Sprint(byT[at]) == fmt.Sprint(want), "%s: at t=%d the concurrent attempts gave %v, one after another they give %v", l.Desc, at, byT[at], want)
					}
					c.M.Count("concurrent_attempts", adm+ref)
					if adm > 0 && ref > 0 {
						c.Nontrivial()
					}
				})
			})
		}
	})
}
