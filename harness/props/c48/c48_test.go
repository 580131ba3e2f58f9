package c48

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/list"
	meap "github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"github.com/ahKevinXy/go-web-tools/common/math"
	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
	"verif/harness/sq"
)

const workers = 8

// call is one call with everything it answers written down.
type call struct {
	name string
	do   func() string
}

// text draws a text, mostly different from all others.
func text(r *rand.Rand) string {
	parts := []string{"a", "Zoë", "张三", "138", "00138000", "@", "x.com", ".png", "/", "..", " ", "PDF", "%PDF-", "\x00", "é", "12345678901", "\xff", ","}
	s := ""
	for n := r.IntN(8); n >= 0; n-- {
		s += parts[r.IntN(len(parts))]
	}
	return s
}

// pure draws a call of a function of its arguments alone.
func pure(r *rand.Rand) call {
	s, t := text(r), text(r)
	n, k := r.Int64()>>r.IntN(63), r.IntN(9)
	b := []byte(strings.Repeat(s, 1+r.IntN(40)))
	pre := make([]byte, k, 32)
	f := (r.Float64() - 0.5) * 1e6
	key := []byte(fmt.Sprintf("%016d", r.IntN(1e9)))
	all := []call{
		{"StringToInt", func() string { return fmt.Sprint(utils.StringToInt(fmt.Sprint(n)), utils.StringToInt(s)) }},
		{"StringToInt64", func() string { return fmt.Sprint(utils.StringToInt64(fmt.Sprint(n)), utils.StringToInt64(s)) }},
		{"IntToString", func() string { return utils.IntToString(int(n)) + utils.Int64ToString(n) }},
		{"Substr2", func() string { return utils.Substr2(s, 0, len([]rune(s))/2) }},
		{"UpperFirst", func() string { return utils.UpperFirst(s) }},
		{"HideStar", func() string { return utils.HideStar(s) + utils.HideStar("138001380"+fmt.Sprintf("%02d", k)) }},
		{"MaskMobile", func() string { return utils.MaskMobile(s, k) }},
		{"MaskCustomerName", func() string { return utils.MaskCustomerName(s) }},
		{"MaskIDCard", func() string { return utils.MaskIDCard(s+t, k) }},
		{"MaskBackCard", func() string { return utils.MaskBackCard(s+t, k) }},
		{"Md5", func() string { return utils.Md5(s) + utils.Md5Crypt(s) }},
		{"MD5V", func() string { return utils.MD5V(b, pre...) }},
		{"CheckMd5", func() string { return fmt.Sprint(utils.CheckMd5(b, utils.MD5V(b)), utils.CheckMd5(b, t)) }},
		{"ComputeFileMD5", func() string {
			return utils.ComputeFileMD5(bytes.NewReader(b)) + utils.ComputeFileMD5(io.MultiReader(strings.NewReader(s), strings.NewReader(t)))
		}},
		{"AesEncrypt", func() string {
			e, err := utils.AesEncrypt(b, key)
			d, err2 := utils.AesDecrypt(e, key)
			return fmt.Sprintf("%x %v %q %v", e, err, d, err2)
		}},
		{"Base64", func() string {
			return utils.Base64Encode(s) + utils.Base64EncodeToByte(b) + utils.Base64DecodeToString(utils.Base64Encode(t)) + string(utils.Base64Decode("aGVsbG8=")) + string(utils.Base64DecodeToByte(t))
		}},
		{"json", func() string {
			m := map[string]any{s: n, t: []any{k, s, nil}, "x": map[string]any{t: s}}
			i := map[string]int32{s: int32(n), t: int32(k)}
			return utils.MapToJsonString(m) + utils.Map2JsonString([]any{m, i}) + utils.MapIntToJsonString(i) + fmt.Sprint(utils.JsonStringToMap(utils.MapIntToJsonString(i)))
		}},
		{"switches", func() string {
			m := map[string]bool{}
			utils.SetSwitchFromOptions(m, s, k%2 == 0)
			return fmt.Sprint(utils.GetSwitchFromOptions(m, s), utils.GetSwitchFromOptions(m, t), utils.GetSwitchFromOptions(nil, s))
		}},
		{"BuildUrl", func() string { return utils.BuildUrl(s, "a", n, t, k, "b") }},
		{"IsImage", func() string {
			return fmt.Sprint(utils.IsImage(s+".PNG"), utils.IsImage(s), utils.GetSuffixName(s, "."))
		}},
		{"sizes", func() string {
			return utils.FormatByte(int(n&0x7fffffffffff)) + utils.FileSize(n&0x7fffffffffffffff)
		}},
		{"Round", func() string { return fmt.Sprint(utils.Round(f, k-3)) }},
		{"kinds", func() string {
			return fmt.Sprint(utils.IsTextFile(b), utils.IsImageFile(b), utils.IsPDFFile(b), utils.IsVideoFile(b))
		}},
		{"paths", func() string {
			return fmt.Sprint(utils.IsSameSiteURLPath("/"+s), utils.IsMaliciousPath(s), utils.GetCurrentDir())
		}},
		{"math", func() string {
			u := uint64(n)&0xffffffff + 1
			p, q := math.Split(uint(u), uint(k+1))
			return fmt.Sprint(p, q, math.Max(n, int64(k)), math.Min(s, t), math.Abs(n), math.Log2(u), math.IsPowOf2(u), math.RoundUpPowOf2(u), math.RoundDownPowOf2(u), math.FindLastBitSet(u))
		}},
	}
	return all[r.IntN(len(all))]
}

// onFiles uses the file helpers below its own directory and tells all they said.
func onFiles(seed uint64, dir string) string {
	r := rand.New(rand.NewPCG(seed, 7))
	p := func(s string) string { return filepath.Join(dir, s) }
	out := []string{}
	say := func(a ...any) {
		out = append(out, strings.ReplaceAll(fmt.Sprint(a...), dir, "DIR"))
	}
	fsx.Must(os.MkdirAll(dir, 0o755))
	fsx.Write(p("a.txt"), []byte(strings.Repeat(text(r), r.IntN(2000))))
	fsx.Write(p("d/b.txt"), []byte(text(r)))
	for n := 0; n < 25; n++ {
		switch r.IntN(12) {
		case 0:
			say(utils.ZipFiles(p("z.zip"), []string{p("a.txt"), p("d/b.txt")}, dir+"/", ""))
		case 1:
			say(utils.Unzip(p("z.zip"), p("out")))
		case 2:
			say(utils.WriteCsv(p("r.csv"), []string{strings.ReplaceAll(text(r), "\r", ""), "x", fmt.Sprint(n)}))
		case 3:
			if rows := utils.ReadCsv(p("r.csv")); rows != nil {
				say(*rows)
			}
		case 4:
			say(utils.CopyFile(p(fmt.Sprint("copy", r.IntN(3))), p("a.txt")))
		case 5:
			say(utils.FileMove(p(fmt.Sprint("copy", r.IntN(3))), p(fmt.Sprint("m/", r.IntN(3), "/f"))))
		case 6:
			say(utils.FileMd5(p("a.txt")))
		case 7:
			say(utils.ScanDir(dir))
		case 8:
			say(utils.DeLFile(p(fmt.Sprint("m/", r.IntN(3)))))
		case 9:
			say(utils.CreateDir(p("n/"+fmt.Sprint(r.IntN(3))), p("n/x")), utils.MkDir(p("k/k")))
		case 10:
			say(utils.PathExists(p("n/1")))
			say(utils.IsDir(p("k")), utils.IsFile(p("r.csv")), utils.FileExist(p("copy1")), utils.FileIsExisted(p("out")))
		case 11:
			say(utils.ImageFileToBase64(p("d/b.txt")))
		}
	}
	tree := fsx.Tree(dir)
	delete(tree, "z.zip") // holds times
	names := []string{}
	for k := range tree {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		say(k, tree[k].Dir, tree[k].Data)
	}
	return strings.Join(out, "\n")
}

// uploads sends files in chunks; names tells this worker's files from all others.
func uploads(seed uint64, name string) string {
	r := rand.New(rand.NewPCG(seed, 9))
	out := []string{}
	for n := 0; n < 3; n++ {
		file, content := fmt.Sprintf("%s_%d.bin", name, n), []byte(strings.Repeat(text(r), 1+r.IntN(500)))
		sum := utils.MD5V(append(content, name...))
		step := 1 + r.IntN(len(content))
		for k := 0; k*step < len(content); k++ {
			part := content[k*step : min(len(content), (k+1)*step)]
			_, err := utils.BreakPointContinue(part, file, k, 9, sum)
			out = append(out, fmt.Sprint(err, utils.CheckMd5(part, utils.MD5V(part))))
		}
		p, err := utils.MakeFile(file, sum)
		b, _ := os.ReadFile(p)
		out = append(out, fmt.Sprint(err, bytes.Equal(b, content), len(b)-len(content)), fmt.Sprint(utils.RemoveChunk(sum)))
		_, err = utils.MakeFile(file, sum)
		out = append(out, fmt.Sprint(err != nil))
	}
	return strings.Join(out, "\n")
}

// containers uses instances of every container and tells all they said.
func containers(seed uint64) string {
	r := rand.New(rand.NewPCG(seed, 11))
	out := []string{}
	say := func(a ...any) { out = append(out, fmt.Sprint(a...)) }
	less := func(a, b int) bool { return a < b }
	h, hn, p := heap.New([]int{5, 3, 9}, less), heap.NewN(3, less), pqueue.New([]int{4, 1}, less)
	k, e := meap.New(func(a, b meap.Entry[string, int]) bool { return a.Value < b.Value }), reap.New(less)
	l, d, st, se := list.New[int](), deque.New[int](), stack.New[int](), set.New[int]()
	f, ro, u := fix.New[int](5), round.New[int](5), unbounded.New[int](2)
	bl, m := bloom.New(100, 0.01), new(utils.Map)
	var es []*reap.Entry[int]
	var le []*list.Element[int]
	for n := 0; n < 120; n++ {
		x := r.IntN(1000)*200 + n // no ties
		switch r.IntN(9) {
		case 0:
			h.Push(x)
			hn.Push(x)
			p.Push(x)
			k.Push(fmt.Sprint(x%50), x)
			es = append(es, e.Push(x))
		case 1:
			if h.Len() > 0 {
				say(h.Peek(), h.Pop())
			}
			if hn.Len() > 0 {
				say(hn.Peek(), hn.Pop())
			}
			if p.Len() > 0 {
				say(p.Peek(), p.Pop())
			}
			if k.Len() > 0 {
				say(k.Peek(), k.Pop())
			}
		case 2:
			k.Remove(fmt.Sprint(x % 50))
			if len(es) > 0 {
				en := es[x%len(es)]
				say(en.Value(), e.SetValue(en, x), e.Remove(en))
			}
			v, ok := k.Get(fmt.Sprint(x % 49))
			say(v, ok, k.Len(), e.Len())
		case 3:
			le = append(le, l.PushBack(x), l.PushFront(x+1))
		case 4:
			if len(le) > 1 {
				a, b := le[x%len(le)], le[(x/7)%len(le)]
				l.MoveBefore(a, b)
				l.Remove(b)
				l.MoveToBack(a)
			}
			for q := l.Front(); q != nil; q = q.Next() {
				say(q.Value)
			}
		case 5:
			d.PushBack(x)
			d.PushFront(x)
			st.Push(x)
			se.Add(x % 20)
			m.Set(x%30, x)
		case 6:
			if d.Len() > 0 {
				say(d.PopBack(), d.Len())
			}
			if st.Len() > 0 {
				say(st.Peek(), st.Pop())
			}
			say(se.Contains(x%20), se.Len(), m.Get(x%30), m.Len(), m.TestAndSet(x%31, x))
			se.Remove(x % 19)
			m.Del(x % 29)
		case 7:
			f.MPush(x, x+1, x+2)
			ro.MPush(x, x+1, x+2)
			u.MPush(x, x+1, x+2)
			bl.Add(uint64(x))
			say(bl.Contains(uint64(x)))
		case 8:
			say(f.MPop(uint64(x%4)), ro.MPop(uint64(x%4)), u.MPop(uint64(x%3)), f.Len(), ro.Avail(), u.Cap())
		}
	}
	return strings.Join(out, "\n")
}

// timed uses limiters, a queue and a wheel of its own on the bubble's clock.
func timed(seed uint64) string {
	r := rand.New(rand.NewPCG(seed, 13))
	start := time.Now()
	out := []string{}
	say := func(a ...any) { out = append(out, fmt.Sprintln(append([]any{time.Since(start)}, a...)...)) }
	limit := 1 + r.IntN(4)
	a, b, c := fixed_window.NewFixedWindowLimiter(limit, time.Second), leaky_bucket.NewLeakyBucketLimiter(limit, 1), token_bucket.NewTokenBucketLimiter(limit, 1)
	d, _ := sliding_window.NewSlidingWindowLimiter(limit, time.Second, 100*time.Millisecond)
	e, _ := sliding_log.NewSlidingLogLimiter(100*time.Millisecond, sliding_log.NewSlidingLogLimiterStrategy(limit+3, time.Minute), sliding_log.NewSlidingLogLimiterStrategy(limit, time.Second))
	q := delayqueue.New[int]()
	w := timingwheel.New(1, 10)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() { w.Run(ctx); close(done) }()
	var mu sync.Mutex
	runs := []string{}
	for n := 0; n < 60; n++ {
		say(a.TryAcquire(), b.TryAcquire(), c.TryAcquire(), d.TryAcquire(), e.TryAcquire())
		delay := time.Duration(r.IntN(3000)) * time.Millisecond
		q.Push(n, delay+time.Duration(n)) // no ties
		t := w.AfterFunc(delay, func() {
			mu.Lock()
			runs = append(runs, fmt.Sprint(n, " ran at ", time.Since(start).Milliseconds()))
			mu.Unlock()
		})
		if r.IntN(4) == 0 && delay > 0 {
			say(t.Stop())
		}
		time.Sleep(time.Duration(r.IntN(300))*time.Millisecond + 7)
		if r.IntN(2) == 0 {
			say(q.Pop())
		}
		if r.IntN(5) == 0 {
			tx, stop := context.WithTimeout(ctx, time.Duration(r.IntN(100))*time.Millisecond+3)
			say(q.Take(tx))
			stop()
		}
	}
	time.Sleep(4 * time.Second)
	cancel()
	<-done
	mu.Lock()
	defer mu.Unlock()
	sort.Strings(runs)
	return strings.Join(append(out, runs...), "\n")
}

// tables writes to a database and tells what was sent, failed and stored.
func tables(db *sq.DB, seed uint64, table string) string {
	r := rand.New(rand.NewPCG(seed, 17))
	out := []string{}
	say := func(err error) { out = append(out, fmt.Sprint(err)) }
	for n := 0; n < 12; n++ {
		ids := []int64{int64(1 + r.IntN(30)), int64(1 + r.IntN(30))}
		set := map[string]any{"name": text(r), "a": r.IntN(100)}
		switch r.IntN(8) {
		case 0:
			var rs []any
			for k := 0; k < 5; k++ {
				rs = append(rs, map[string]any{"id": 10*n + k, "name": text(r), "a": r.IntN(9)})
			}
			say(gorm_tools.SplitInsertTableRecords(db.DB, table, rs...))
		case 1:
			say(gorm_tools.BatchInsertTableRecords(db.DB, table, map[string]any{"id": 1000 + n, "name": "x"}, map[string]any{"id": 2000 + n, "a": 5}))
		case 2:
			say(gorm_tools.UpdateByTableNameAndId(table, ids[0], set, db.DB))
		case 3:
			say(gorm_tools.UpdateByTableNameAndIds(table, ids, set, db.DB))
		case 4:
			say(gorm_tools.UpdateByTableNameAndWhere(table, map[string]any{"a": r.IntN(9)}, set, db.DB))
		case 5:
			say(gorm_tools.DelByTableNameAndId(table, ids, db.DB))
		case 6:
			say(gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db.DB, table, map[int64]map[string]any{ids[0]: set, ids[1]: {"name": "y", "a": 1}}))
		case 7:
			say(gorm_tools.InsertToTable(table, map[string]any{"id": 3000 + n, "name": text(r)}, db.DB))
		}
	}
	rows, _ := db.Dump(table)
	ids := []int{}
	for id := range rows {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		out = append(out, fmt.Sprint(id, rows[int64(id)]["name"], rows[int64(id)]["a"]))
	}
	return strings.Join(out, "\n")
}

// same compares what a worker saw among others with what it sees alone.
func same(c *mon.C, what, got, want string) {
	if got == want {
		return
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range w {
		if i >= len(g) || g[i] != w[i] {
			x := "nothing"
			if i < len(g) {
				x = g[i]
			}
			c.Fail("%s among %d others says %.300q, alone %.300q", what, workers-1, x, w[i])
			return
		}
	}
	c.Fail("%s among others says more than alone: %.300q", what, g[len(w)])
}

// atOnce runs f(0..workers-1) in parallel after a common start.
func atOnce(c *mon.C, f func(g int)) {
	var wg sync.WaitGroup
	gate := make(chan bool)
	for g := 0; g < workers; g++ {
		c.Go(&wg, func() { <-gate; f(g) })
	}
	close(gate)
	wg.Wait()
}

func TestProp(t *testing.T) {
	mon.Run(t, "C48", "8 goroutines use the helpers, or instances of their own, at once; each must get the answers the same calls give alone, and the race detector must stay silent; non-trivial = all eight finished", func(m *mon.M) {
		m.Cases("functions", m.N(60), func(c *mon.C) {
			calls := make([]call, 60)
			want := make([]string, len(calls))
			for i := range calls {
				calls[i] = pure(c.Rand)
				want[i] = calls[i].do()
			}
			seeds := [workers]uint64{}
			for g := range seeds {
				seeds[g] = c.Uint64()
			}
			atOnce(c, func(g int) {
				r := rand.New(rand.NewPCG(seeds[g], 1))
				for n := 0; n < 3; n++ {
					for _, i := range r.Perm(len(calls)) {
						same(c, calls[i].name, calls[i].do(), want[i])
					}
				}
			})
			c.M.Count("calls", workers*3*len(calls))
			c.Log("%s, %s, %s, ...", calls[0].name, calls[1].name, calls[2].name)
			c.Nontrivial()
		})
		m.Cases("containers", m.N(25), func(c *mon.C) {
			s := c.Uint64()
			var want [workers]string
			for g := range want {
				want[g] = containers(s + uint64(g))
			}
			atOnce(c, func(g int) { same(c, "a set of containers", containers(s+uint64(g)), want[g]) })
			c.Log("%d answers each", strings.Count(want[0], "\n"))
			c.Nontrivial()
		})
		m.Cases("limiters and timers", m.N(40), func(c *mon.C) {
			s := c.Uint64()
			var want [workers]string
			for g := range want {
				synctest.Test(c.T, func(*testing.T) { want[g] = timed(s + uint64(g)) })
			}
			var got [workers]string
			synctest.Test(c.T, func(*testing.T) { atOnce(c, func(g int) { got[g] = timed(s + uint64(g)) }) })
			for g := range want {
				same(c, "a set of limiters and timers", got[g], want[g])
			}
			c.Log("%d answers each", strings.Count(want[0], "\n"))
			c.Nontrivial()
		})
		m.Cases("files", m.N(25), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				s := c.Uint64()
				var want [workers]string
				for g := range want {
					want[g] = onFiles(s+uint64(g), fmt.Sprintf("%s/alone%d", dir, g))
				}
				atOnce(c, func(g int) {
					same(c, "a set of file helpers", onFiles(s+uint64(g), fmt.Sprintf("%s/beside%d", dir, g)), want[g])
				})
				c.Log("%d answers each", strings.Count(want[0], "\n"))
				c.Nontrivial()
			})
		})
		m.Cases("uploads", m.N(25), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				s := c.Uint64()
				var want [workers]string
				for g := range want {
					want[g] = uploads(s+uint64(g), fmt.Sprint("f", g))
				}
				fsx.Must(os.RemoveAll("breakpointDir"))
				fsx.Must(os.RemoveAll("fileDir"))
				atOnce(c, func(g int) { same(c, "an upload", uploads(s+uint64(g), fmt.Sprint("f", g)), want[g]) })
				c.Log("%d answers each", strings.Count(want[0], "\n"))
				c.Nontrivial()
			})
		})
		m.Cases("databases", m.N(25), func(c *mon.C) {
			s := c.Uint64()
			open := func() *sq.DB {
				var ddl []string
				for g := 0; g < workers; g++ {
					ddl = append(ddl, fmt.Sprintf("create table t%d (id integer primary key, name text, a integer)", g))
				}
				return sq.New(c, ddl...)
			}
			var want [workers]string
			one := open()
			defer one.Close()
			for g := range want {
				want[g] = tables(one, s+uint64(g), fmt.Sprint("t", g))
			}
			var dbs [workers]*sq.DB
			shared := c.Idx%2 == 0 // one database or one each
			for g := range dbs {
				if g == 0 || !shared {
					dbs[g] = open()
					defer dbs[g].Close()
				} else {
					dbs[g] = dbs[0]
				}
			}
			atOnce(c, func(g int) {
				same(c, "a set of database helpers", tables(dbs[g], s+uint64(g), fmt.Sprint("t", g)), want[g])
			})
			c.Log("shared %v: %d answers each", shared, strings.Count(want[0], "\n"))
			c.Nontrivial()
		})
	})
}
