package c30

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

var names = []string{"a.txt", "b.bin", "photo_1.png", "a.txt_1", "张三.pdf", "x", "with space.zip", "a.txt_0_0", "_", "-1", "a%s.txt", "..a", "a..b", "...", "a\\b", strings.Repeat("n", 190) + "1.txt", strings.Repeat("n", 190) + "2.txt", strings.Repeat("n", 190)}

// upload is one file on its way.
type upload struct {
	name, sum string
	chunks    [][]byte
	have      map[int]bool
}

func (u *upload) whole() string {
	s := ""
	for _, b := range u.chunks {
		s += string(b)
	}
	return s
}

func draw(c *mon.C, name string) *upload {
	u := &upload{name: name, have: map[int]bool{}}
	n, most := mon.Pick(c.Rand, 1, 2, 3, 9, 10, 11, 12, 30, 101), 4096
	if c.Idx%40 == 5 { // many, or large
		if c.IntN(2) == 0 {
			n, most = 1000+c.IntN(300), 10
		} else {
			n, most = 1+c.IntN(3), 3<<20
		}
	}
	for i := 0; i < n; i++ {
		size := min(most, mon.Pick(c.Rand, 0, 1, 5, c.IntN(300), 4096))
		if most > 4096 {
			size = mon.Pick(c.Rand, 32<<10, 64<<10+1, 1<<20, 1+c.IntN(most))
		}
		b := make([]byte, size)
		for k := range b {
			b[k] = byte(c.Uint32())
		}
		u.chunks = append(u.chunks, fsx.Dress(c, b))
	}
	h := md5.Sum([]byte(u.whole()))
	u.sum = fmt.Sprintf("%x", h)
	return u
}

func (u *upload) send(c *mon.C, i int, content []byte) {
	sent := string(content)
	p, err := utils.BreakPointContinue(content, u.name, i, len(u.chunks), u.sum)
	c.Check(err == nil, "chunk %d of %q: %v", i, u.name, err)
	c.Check(string(content) == sent, "chunk %d of %q: the caller's bytes were changed", i, u.name)
	b, err := os.ReadFile(p)
	c.Check(err == nil && string(b) == sent, "chunk %d of %q was stored at %q as %s, want %s", i, u.name, p, fsx.Short(string(b)), fsx.Short(sent))
}

func TestProp(t *testing.T) {
	mon.Run(t, "C30", "seeded uploads, chunks in any order, sent again, resumed, several files interleaved and under one digest, finished more than once, with gaps; the finished file is read back; non-trivial = chunks out of order with a resent one, or a gap refused", func(m *mon.M) {
		m.Cases("upload", m.N(200), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				finished := map[string]string{}
				for round := 0; round < 3 && !c.Failed(); round++ {
					nf := 1 + c.IntN(3)
					var ups []*upload
					for _, i := range c.Perm(len(names))[:nf] {
						ups = append(ups, draw(c, names[i]))
					}
					if nf > 1 && c.IntN(2) == 0 {
						// the same content under two names shares its digest
						ups[1].chunks, ups[1].sum = ups[0].chunks, ups[0].sum
						if c.IntN(2) == 0 { // cut differently
							w := []byte(ups[0].whole())
							ups[1].chunks = [][]byte{w[:len(w)/2], w[len(w)/2:]}
						}
					}
					type step struct{ u, i int }
					var plan []step
					for k, u := range ups {
						for i := range u.chunks {
							plan = append(plan, step{k, i})
						}
					}
					shuffled := c.IntN(3) > 0
					if shuffled {
						c.Shuffle(len(plan), func(i, j int) { plan[i], plan[j] = plan[j], plan[i] })
					}
					gap := -1
					if c.IntN(4) == 0 {
						gap = c.IntN(nf)
						if len(ups[gap].chunks) < 2 {
							gap = -1
						}
					}
					miss := -1
					if gap >= 0 {
						miss = c.IntN(len(ups[gap].chunks) - 1) // any but the last
					}
					again := 0
					for _, s := range plan {
						if s.u == gap && s.i == miss {
							continue
						}
						u := ups[s.u]
						for c.IntN(8) == 0 { // broken off earlier, longer or shorter
							u.send(c, s.i, fsx.Bytes(c))
							again++
						}
						u.send(c, s.i, u.chunks[s.i])
						if c.IntN(8) == 0 {
							u.send(c, s.i, u.chunks[s.i])
							again++
						}
					}
					c.M.Count("chunks_sent", len(plan)+again)
					for k, u := range ups {
						if k == gap {
							p, err := utils.MakeFile(u.name, u.sum)
							c.Log("%q with chunk %d of %d missing: %v", u.name, miss, len(u.chunks), err)
							c.Check(err != nil, "%q was finished although chunk %d of %d is missing", u.name, miss, len(u.chunks))
							b, rerr := os.ReadFile(p)
							old, was := finished[u.name]
							c.Check(os.IsNotExist(rerr) || was && string(b) == old, "a refused %q left %s", u.name, fsx.Short(string(b)))
							delete(finished, u.name)
							if rerr == nil {
								finished[u.name] = old
							}
							u.send(c, miss, u.chunks[miss]) // resumed
							c.Nontrivial()
							c.M.Count("gaps_refused", 1)
						}
						for n := 0; n < 1+c.IntN(2); n++ {
							p, err := utils.MakeFile(u.name, u.sum)
							c.Log("%q of %d chunks (in order %v): %v", u.name, len(u.chunks), !shuffled, err)
							c.Check(err == nil, "finishing %q: %v", u.name, err)
							b, err := os.ReadFile(p)
							c.Check(err == nil && string(b) == u.whole(), "%q of %d chunks (finished before: %v) came out as %s, want %s", u.name, len(u.chunks), n > 0 || finished[u.name] != "", fsx.Short(string(b)), fsx.Short(u.whole()))
							c.Check(utils.CheckMd5(b, u.sum), "CheckMd5 refuses the finished %q", u.name)
							finished[u.name] = string(b)
						}
						if len(u.chunks) > 1 && shuffled && again > 0 {
							c.Nontrivial()
						}
					}
					for name, want := range finished {
						b, err := os.ReadFile(filepath.Join("fileDir", name))
						c.Check(err == nil && string(b) == want, "finished file %q now holds %s, want %s", name, fsx.Short(string(b)), fsx.Short(want))
					}
					// clean-up takes away one upload only
					gone := map[string]bool{}
					for _, u := range ups {
						if c.IntN(2) == 0 {
							continue
						}
						before := fsx.Tree(".")
						err := utils.RemoveChunk(u.sum)
						c.Check(err == nil, "RemoveChunk: %v", err)
						gone[u.sum] = true
						want := map[string]fsx.Entry{}
						for k, e := range before {
							if k != "breakpointDir/"+u.sum && filepath.Dir(k) != "breakpointDir/"+u.sum {
								want[k] = e
							}
						}
						if d := fsx.Diff(fsx.Tree("."), want); d != "" {
							c.Fail("after RemoveChunk of %q: %s", u.name, d)
						}
					}
					for _, u := range ups {
						_, err := utils.MakeFile(u.name, u.sum)
						c.Check((err != nil) == gone[u.sum], "chunks removed: %v, finishing %q: %v", gone[u.sum], u.name, err)
					}
					for s := range gone {
						c.Check(utils.RemoveChunk(s) == nil, "removing chunks again failed")
					}
					os.RemoveAll("breakpointDir")
				}
				c.Check(fsx.Descriptors() < 60, "%d files are still open", fsx.Descriptors())
			})
		})
		m.Cases("rewritten", m.N(60), func(c *mon.C) {
			// one name again and again, with other bytes of the same number and age
			fsx.In(c, func(dir string) {
				u := draw(c, mon.Pick(c.Rand, names...))
				for i := 0; i < 5; i++ {
					for k := range u.chunks {
						if n := len(u.chunks[k]); n > 0 && c.IntN(3) > 0 {
							u.chunks[k] = bytes.Clone(u.chunks[k])
							u.chunks[k][c.IntN(n)] ^= byte(1 + c.IntN(255))
						}
					}
					if c.IntN(3) > 0 { // or the digest of what the file was first to be
						u.sum = fmt.Sprintf("%x", md5.Sum([]byte(u.whole())))
					}
					for _, k := range c.Perm(len(u.chunks)) {
						u.send(c, k, u.chunks[k])
					}
					fsx.Freeze(".")
					p, err := utils.MakeFile(u.name, u.sum)
					c.Log("%q of %d chunks: %v", u.name, len(u.chunks), err)
					b, _ := os.ReadFile(p)
					c.Check(err == nil && string(b) == u.whole(), "%q of %d chunks, uploaded the %d. time, came out as %s, want %s: %v", u.name, len(u.chunks), i, fsx.Short(string(b)), fsx.Short(u.whole()), err)
					fsx.Freeze(".")
					if c.IntN(2) == 0 {
						c.Check(utils.RemoveChunk(u.sum) == nil, "removing the chunks of %q", u.name)
						_, err = utils.MakeFile(u.name, u.sum)
						c.Check(err != nil, "%q is finished again without its chunks", u.name)
					}
				}
				c.M.Count("rewritten", 5)
				c.Nontrivial()
			})
		})
		m.Cases("neighbours", m.N(200), func(c *mon.C) {
			// uploads whose digests and names are alike stay apart
			fsx.In(c, func(dir string) {
				sum := fmt.Sprintf("%x", md5.Sum([]byte{byte(c.Idx)}))
				sums := []string{sum, sum + "0", sum[:31], sum[:1], strings.ToUpper(sum), "x" + sum, sum + "_0", "*", "?" + sum[1:], "[a-z0-9]*", sum + "*", " " + sum, sum + " ", sum + ".", " ", "a\\b", "..." + sum, "%2e", "$HOME", "~", "-rf"}
				names := []string{"f", "f_", "f_0", "F", "f_1", "_", "f ", " f", "f.", "*", "%66", "~", strings.Repeat("f", 200), strings.Repeat("f", 201)}
				ups := map[string]map[string]*upload{}
				var all []*upload
				for _, i := range c.Perm(len(sums))[:2+c.IntN(8)] {
					ups[sums[i]] = map[string]*upload{}
					for _, k := range c.Perm(len(names))[:1+c.IntN(3)] {
						u := &upload{name: names[k], sum: sums[i], have: map[int]bool{}}
						for n := 1 + c.IntN(12); n > 0; n-- {
							u.chunks = append(u.chunks, []byte(fmt.Sprintf("<%s %s %d>", u.sum, u.name, n)))
						}
						ups[u.sum][u.name] = u
						all = append(all, u)
					}
				}
				var plan [][2]int
				for k, u := range all {
					for i := range u.chunks {
						plan = append(plan, [2]int{k, i})
					}
				}
				c.Shuffle(len(plan), func(i, j int) { plan[i], plan[j] = plan[j], plan[i] })
				for _, s := range plan {
					all[s[0]].send(c, s[1], all[s[0]].chunks[s[1]])
				}
				c.Nontrivial()
				for len(all) > 0 {
					for _, u := range all {
						p, err := utils.MakeFile(u.name, u.sum)
						b, rerr := os.ReadFile(p)
						c.Check(err == nil && rerr == nil && string(b) == u.whole(), "%q of digest %q beside %d uploads: %v, %s, want %s", u.name, u.sum, len(all)-1, err, fsx.Short(string(b)), fsx.Short(u.whole()))
						c.M.Count("finished_beside_others", 1)
					}
					gone := all[c.IntN(len(all))].sum
					before := fsx.Tree(".")
					err := utils.RemoveChunk(gone)
					c.Log("digest %q removed of %d: %v", gone, len(ups), err)
					c.Check(err == nil, "RemoveChunk(%q): %v", gone, err)
					for k := range before {
						if k == "breakpointDir/"+gone || filepath.Dir(k) == "breakpointDir/"+gone {
							delete(before, k)
						}
					}
					if d := fsx.Diff(fsx.Tree("."), before); d != "" {
						c.Fail("after RemoveChunk(%q): %s", gone, d)
						return
					}
					var left []*upload
					for _, u := range all {
						if u.sum != gone {
							left = append(left, u)
						}
					}
					all = left
				}
			})
		})
		m.Cases("parallel", m.N(60), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				// every chunk by its own request
				ups := []*upload{draw(c, "a.txt"), draw(c, "b.bin"), draw(c, "a.txt")}
				var wg sync.WaitGroup
				for _, u := range ups[:1+c.IntN(3)] {
					for i := range u.chunks {
						c.Go(&wg, func() { u.send(c, i, u.chunks[i]) })
					}
				}
				wg.Wait()
				p, err := utils.MakeFile("a.txt", ups[0].sum)
				b, _ := os.ReadFile(p)
				c.Log("%d chunks sent in parallel", len(ups[0].chunks))
				if len(ups[0].chunks) > 2 {
					c.Nontrivial()
				}
				c.Check(err == nil && string(b) == ups[0].whole(), "%d chunks sent in parallel: %v, %s, want %s", len(ups[0].chunks), err, fsx.Short(string(b)), fsx.Short(ups[0].whole()))
			})
		})
		m.Cases("large", m.N(3), func(c *mon.C) {
			// large files in few chunks, and files in very many
			fsx.In(c, func(dir string) {
				u := &upload{name: "large.bin", have: map[int]bool{}}
				b := []byte("many small")
				if c.Idx%3 == 2 {
					u.chunks = make([][]byte, 2000+c.IntN(3000))
					for i := range u.chunks {
						u.chunks[i] = []byte(fmt.Sprint(i, " "))
					}
					b = []byte(u.whole())
				} else {
					b = fsx.Big(c, c.Idx)
					for p, w := b, len(b)/(1+c.IntN(4))+1; len(p) > 0; p = p[min(w, len(p)):] {
						u.chunks = append(u.chunks, p[:min(w, len(p))])
					}
				}
				u.sum = fmt.Sprintf("%x", md5.Sum(b))
				for _, i := range c.Perm(len(u.chunks)) {
					c.Check(utils.CheckMd5(u.chunks[i], fmt.Sprintf("%x", md5.Sum(u.chunks[i]))), "the digest of a chunk of %d bytes is refused", len(u.chunks[i]))
					u.send(c, i, u.chunks[i])
				}
				p, err := utils.MakeFile(u.name, u.sum)
				c.Log("%d bytes in %d chunks: %v", len(b), len(u.chunks), err)
				c.Check(err == nil, "finishing %d chunks of %d bytes: %v", len(u.chunks), len(b), err)
				got, _ := os.ReadFile(p)
				c.Check(bytes.Equal(got, b), "%d bytes in %d chunks are put together to %d other ones", len(b), len(u.chunks), len(got))
				c.M.Count("large_bytes", len(b))
				c.Nontrivial()
			})
		})
		m.Cases("digest", m.N(200), func(c *mon.C) {
			b := fsx.Bytes(c)
			sum := fmt.Sprintf("%x", md5.Sum(b))
			c.Log("%d bytes", len(b))
			c.Check(utils.CheckMd5(b, sum), "CheckMd5 refuses the digest of %d bytes", len(b))
			if len(b) > 0 {
				c.Nontrivial()
				i := c.IntN(len(b))
				b[i] ^= 1 << c.IntN(8)
				c.Check(!utils.CheckMd5(b, sum), "CheckMd5 accepts %d bytes with a flipped bit", len(b))
				b[i] ^= 0xff
				c.Check(!utils.CheckMd5(b[:len(b)-1], sum) && !utils.CheckMd5(append(b, 0), sum), "CheckMd5 accepts a chunk of another length")
			}
			c.Check(!utils.CheckMd5(b, ""), "CheckMd5 accepts an empty digest")
		})
	})
}
