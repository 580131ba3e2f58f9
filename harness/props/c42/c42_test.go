//go:debug randseednop=0

package c42

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/mon"
)

const (
	digits = "0123456789"
	lower  = "abcdefghijklmnopqrstuvwxyz"
	upper  = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
)

func alphabet(kind int) string {
	switch kind {
	case 0:
		return digits
	case 1:
		return lower
	case 2:
		return upper
	}
	return digits + lower + upper
}

func right(s string, size, kind int) bool {
	return len(s) == size && strings.Trim(s, alphabet(kind)) == ""
}

// TestChild is the process that TestProp starts again and again.
func TestChild(t *testing.T) {
	if os.Getenv("VERIF_CHILD") == "" {
		t.Skip()
	}
	fmt.Printf("GOT %s\n", utils.RandStr(24, 3))
}

func TestProp(t *testing.T) {
	mon.Run(t, "C42", "strings of every kind (numbers outside 0..2 included) and of lengths from 0 to thousands, calls repeated at one reading of the virtual clock, and calls of eight goroutines at once under the race detector, with math/rand's seeding in force; non-trivial = two calls at one reading of the clock, or calls from several goroutines", func(m *mon.M) {
		m.Cases("alphabet", m.N(400), func(c *mon.C) {
			kind := mon.Pick(c.Rand, 0, 1, 2, 3, 4, -1, -2, -3, 100, -100, c.IntN(20)-8, math.MaxInt, math.MinInt, 1<<32, -1<<32+1)
			size := mon.Pick(c.Rand, 0, 1, 2, c.IntN(40), c.IntN(40), 5000)
			s := utils.RandStr(size, kind)
			c.Log("%d of kind %d", size, kind)
			c.Check(right(s, size, kind), "RandStr(%d, %d) is %q", size, kind, s)
			if size == 5000 { // each character is expected 64 times or more
				for _, r := range alphabet(kind) {
					c.Check(strings.ContainsRune(s, r), "RandStr(%d, %d) never holds %q", size, kind, r)
				}
				c.Nontrivial()
			}
			c.M.Count("strings", 1)
		})
		m.Cases("one instant", m.N(60), func(c *mon.C) {
			kind := c.IntN(4)
			synctest.Test(c.T, func(*testing.T) {
				if c.IntN(2) == 0 {
					time.Sleep(time.Duration(c.Int64N(1e15)))
				}
				seen := map[string]bool{}
				for i := 0; i < 20; i++ {
					s := utils.RandStr(24, kind)
					if !right(s, 24, kind) {
						c.Fail("RandStr(24, %d) is %q", kind, s)
					}
					if seen[s] {
						c.Fail("RandStr(24, %d) gives %q twice at one reading of the clock", kind, s)
						return
					}
					seen[s] = true
				}
			})
			c.Log("kind %d, %d", kind, c.Idx)
			c.M.Count("strings_at_one_instant", 20)
			c.Nontrivial()
		})
		m.Cases("restarts", m.N(1), func(c *mon.C) {
			seen := map[string]bool{}
			for i := 0; i < 12; i++ {
				cmd := exec.Command(os.Args[0], "-test.run=^TestChild$", "-test.v")
				cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "VERIF_OUT=", "GORACE=atexit_sleep_ms=0")
				out, err := cmd.Output()
				_, s, ok := strings.Cut(string(out), "GOT ")
				if err != nil || !ok {
					panic(fmt.Sprintf("child: %v %s", err, out))
				}
				s, _, _ = strings.Cut(s, "\n")
				c.Check(right(s, 24, 3), "RandStr(24, 3) is %q", s)
				c.Check(!seen[s], "two processes get %q first", s)
				seen[s] = true
			}
			c.Log("12 processes, %d", c.Idx)
			c.M.Count("processes", 12)
			c.Nontrivial()
		})
		m.Cases("concurrent", m.N(20), func(c *mon.C) {
			kind := c.IntN(4)
			var mu sync.Mutex
			seen := map[string]bool{}
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				c.Go(&wg, func() {
					var mine []string
					for i := 0; i < 200; i++ {
						mine = append(mine, utils.RandStr(24, kind))
					}
					mu.Lock()
					defer mu.Unlock()
					for _, s := range mine {
						if !right(s, 24, kind) {
							c.Fail("RandStr(24, %d) is %q", kind, s)
						}
						if seen[s] {
							c.Fail("two concurrent calls of RandStr(24, %d) give %q", kind, s)
						}
						seen[s] = true
					}
				})
			}
			wg.Wait()
			c.Log("kind %d, %d", kind, c.Idx)
			c.M.Count("concurrent_strings", 1600)
			c.Nontrivial()
		})
		m.Cases("long", m.N(12), func(c *mon.C) {
			kind := c.IntN(4)
			size := mon.Pick(c.Rand, 65535, 65536, 65537, 100000, 1<<20+c.IntN(1000))
			s := utils.RandStr(size, kind)
			c.Log("%d of kind %d", size, kind)
			c.Check(right(s, size, kind), "RandStr(%d, %d) has %d bytes, or some of them are not of its kind", size, kind, len(s))
			// no stretch comes again within it
			at := map[string]int{}
			for i := 0; i+24 <= len(s); i += 24 {
				j, ok := at[s[i:i+24]]
				c.Check(!ok, "RandStr(%d, %d): the stretches at %d and %d are the same", size, kind, j, i)
				at[s[i:i+24]] = i
			}
			c.Nontrivial()
			c.M.Peak("longest", size)
		})
	})
}
