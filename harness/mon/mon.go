// Package mon is the runtime-monitoring core shared by every property check:
// it runs seeded workload cases against the real code, records the events the
// oracles observed, keeps the first violations with a replayable case number,
// and writes the measured coverage to $VERIF_OUT for the runner (check.py).
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

const maxViolations = 5

// Violation is one refutation of the property, with what is needed to rerun it.
type Violation struct {
	Case  int      `json:"case"`
	Group string   `json:"group"`
	What  string   `json:"what"`
	Trace []string `json:"trace,omitempty"`
}

type result struct {
	Property    string           `json:"property"`
	Tier        string           `json:"tier"`
	Seed        int64            `json:"seed"`
	Rule        string           `json:"rule"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int              `json:"distinct_nontrivial"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []any            `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Done        bool             `json:"done"`
}

// M is the monitor of one property.
type M struct {
	t        *testing.T
	mu       sync.Mutex
	res      result
	distinct map[uint64]struct{}
	onlyCase int
	onlyGrp  string
	Thorough bool
	since    atomic.Int64 // start of the running case, 0 between cases
}

// Run creates the monitor, runs body and writes the result file.
func Run(t *testing.T, property, rule string, body func(m *M)) {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	m := &M{t: t, distinct: map[uint64]struct{}{}, onlyCase: -1}
	m.res = result{Property: property, Rule: rule, Seed: seed, Tier: os.Getenv("VERIF_TIER"), Counters: map[string]int64{}}
	if m.res.Tier != "thorough" {
		m.res.Tier = "quick"
	}
	m.Thorough = m.res.Tier == "thorough"
	if s := os.Getenv("VERIF_CASE"); s != "" {
		if g, n, ok := strings.Cut(s, ":"); ok {
			m.onlyGrp = g
			m.onlyCase, _ = strconv.Atoi(n)
		}
	}
	m.flush()
	go m.watch()
	body(m)
	m.mu.Lock()
	m.res.Done = true
	m.mu.Unlock()
	m.flush()
	for _, v := range m.res.Violations {
		t.Errorf("%s %s:%d %s", property, v.Group, v.Case, v.What)
	}
}

func (m *M) flush() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.res.Distinct = len(m.distinct)
	b, err := json.MarshalIndent(&m.res, "", " ")
	if err != nil {
		panic(err)
	}
	if p := os.Getenv("VERIF_OUT"); p != "" {
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
}

// caseLimit is the watchdog on one case: hundreds of times what a case takes.
const caseLimit = 75 * time.Second

// heapLimit is far above what any workload needs.
const heapLimit = 8 << 30

// watch ends a run that makes no progress or eats the machine's memory, with a
// dump of all goroutines; the runner decides what that means.
func (m *M) watch() {
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(250 * time.Millisecond)
		metrics.Read(heap)
		at := m.since.Load()
		why := ""
		if at != 0 && time.Since(start) > time.Duration(at)+caseLimit {
			why = fmt.Sprintf("MONITOR: no progress in %v", caseLimit)
		} else if heap[0].Value.Uint64() > heapLimit {
			why = "MONITOR: runaway memory"
		}
		if why != "" {
			buf := make([]byte, 1<<22)
			fmt.Printf("\n%s\n\n%s\n", why, buf[:runtime.Stack(buf, true)])
			if at != 0 { // who has not moved since tells a deadlock from slow progress
				time.Sleep(5 * time.Second)
				fmt.Printf("\nMONITOR: later\n\n%s\n", buf[:runtime.Stack(buf, true)])
			}
			os.Exit(4)
		}
	}
}

var start = time.Now()

// Count adds to a measured counter that goes into the evidence file.
func (m *M) Count(name string, n int) {
	m.mu.Lock()
	m.res.Counters[name] += int64(n)
	m.mu.Unlock()
}

// Peak keeps the maximum seen of a measured quantity.
func (m *M) Peak(name string, n int) {
	m.mu.Lock()
	if int64(n) > m.res.Counters[name] {
		m.res.Counters[name] = int64(n)
	}
	m.mu.Unlock()
}

// N scales a quick-tier case count to the tier that runs.
func (m *M) N(quick int) int {
	if m.Thorough {
		return quick * 12
	}
	return quick
}

// C is one workload case.
type C struct {
	*rand.Rand
	M     *M
	T     *testing.T
	Group string
	Idx   int

	mu         sync.Mutex
	trace      []string
	dropped    int
	h          uint64
	nontrivial bool
	failed     bool
	kept       []kept
	keptN      int
}

// kept is a result handed out earlier, and what it said then.
type kept struct {
	what, said string
	say        func() string
}

// Keep holds on to a result: at the end of the case it must still say what it
// says now, whatever was asked of the code since.
func (c *C) Keep(what string, say func() string) {
	k := kept{what, strings.Clone(say()), say}
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.kept) < 256 {
		c.kept = append(c.kept, k)
	} else {
		c.kept[c.keptN*37%256] = k
	}
	c.keptN++
}

func (c *C) keeps() {
	for _, k := range c.kept {
		if now := k.say(); now != k.said {
			c.Check(false, "%s, handed out earlier, was %.300q and is %.300q by the end", k.what, k.said, now)
		}
	}
	if len(c.kept) > 0 {
		c.M.Count("kept_results", len(c.kept))
	}
}

// Failed reports whether the case has already been refuted.
func (c *C) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.failed }

// Log records one observed event of the case.
func (c *C) Log(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	c.mu.Lock()
	defer c.mu.Unlock()
	h := fnv.New64a()
	h.Write([]byte(strconv.FormatUint(c.h, 16)))
	h.Write([]byte(s))
	c.h = h.Sum64()
	if len(c.trace) >= 400 {
		copy(c.trace[200:], c.trace[201:])
		c.trace = c.trace[:399]
		c.dropped++
	}
	c.trace = append(c.trace, s)
}

// Nontrivial marks the case as having exercised what the property is about.
func (c *C) Nontrivial() { c.mu.Lock(); c.nontrivial = true; c.mu.Unlock() }

// Fail refutes the property on this case.
func (c *C) Fail(format string, a ...any) {
	what := fmt.Sprintf(format, a...)
	c.mu.Lock()
	if c.failed {
		c.mu.Unlock()
		return
	}
	c.failed = true
	tr := append([]string(nil), c.trace...)
	if c.dropped > 0 {
		tr = append(tr[:200:200], append([]string{fmt.Sprintf("... %d events ...", c.dropped)}, tr[200:]...)...)
	}
	c.mu.Unlock()
	c.M.mu.Lock()
	if len(c.M.res.Violations) < maxViolations {
		c.M.res.Violations = append(c.M.res.Violations, Violation{Case: c.Idx, Group: c.Group, What: what, Trace: tr})
	}
	c.M.mu.Unlock()
	c.M.flush()
}

// stop is thrown by Check to leave a refuted case.
type stop struct{}

// Check refutes the property and leaves the case when cond does not hold. Only
// for the goroutine that runs the case body.
func (c *C) Check(cond bool, format string, a ...any) {
	if !cond {
		c.Fail(format, a...)
		panic(stop{})
	}
}

// Cases runs n independent seeded cases of a named workload.
func (m *M) Cases(group string, n int, body func(c *C)) {
	for i := 0; i < n; i++ {
		if m.onlyCase >= 0 && (m.onlyGrp != group || m.onlyCase != i) {
			continue
		}
		m.mu.Lock()
		full := len(m.res.Violations) >= maxViolations
		m.mu.Unlock()
		if full {
			return
		}
		hg := fnv.New64a()
		hg.Write([]byte(m.res.Property + "/" + group))
		c := &C{
			Rand: rand.New(rand.NewPCG(uint64(m.res.Seed)^hg.Sum64(), uint64(i)*0x9E3779B97F4A7C15+1)),
			M:    m, T: m.t, Group: group, Idx: i,
		}
		fmt.Printf("CASE %s:%d\n", group, i)
		m.since.Store(int64(time.Since(start)) + 1)
		c.guard(func() { body(c); c.keeps() })
		m.since.Store(0)
		m.mu.Lock()
		m.res.Evaluations++
		m.res.Counters["cases_"+group]++
		if c.nontrivial && !c.failed {
			m.distinct[c.h] = struct{}{}
		}
		if (i == 0 || i == n/2) && len(m.res.Samples) < 8 {
			tr := c.trace
			if len(tr) > 24 {
				tr = append(append([]string(nil), tr[:16]...), append([]string{"..."}, tr[len(tr)-7:]...)...)
			}
			m.res.Samples = append(m.res.Samples, map[string]any{"case": fmt.Sprintf("%s:%d", group, i), "events": append([]string(nil), tr...)})
		}
		m.mu.Unlock()
	}
}

// guard turns a panic of the code under test into a refutation.
func (c *C) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			c.Fail("panic: %v\n%s", r, short(string(debug.Stack())))
		}
	}()
	f()
}

// Go runs f on its own goroutine with the same panic handling as a case body.
func (c *C) Go(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		c.guard(f)
	}()
}

func short(s string) string {
	if len(s) > 4000 {
		return s[:4000]
	}
	return s
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool, v any) {
	defer func() {
		if r := recover(); r != nil {
			p, v = true, r
		}
	}()
	f()
	return
}

// Bubble runs f under a virtual clock (testing/synctest): time advances only
// when every goroutine of the bubble is blocked, so all oracles on time are
// exact and independent of machine load. A bubble whose goroutines can never
// proceed again, or outlive it, is reported as a refutation.
func (c *C) Bubble(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.Fail("virtual-time run could not finish: %v\n%s", r, short(relevant(string(buf))))
		}
	}()
	synctest.Test(c.T, func(*testing.T) {
		c.guard(func() {
			// an arbitrary, seeded phase of the wall clock
			time.Sleep(time.Duration(c.Int64N(int64(20 * time.Second))))
			f()
		})
	})
}

func relevant(dump string) string {
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "go-web-tools") {
			out = append(out, g)
		}
	}
	if len(out) == 0 {
		return dump
	}
	return strings.Join(out, "\n\n")
}

// Pick returns one of xs.
func Pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }
