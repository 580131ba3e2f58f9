package c36

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"io"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/iotest"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

// pieces reads in pieces of random length, as a network does.
type pieces struct {
	c *mon.C
	r io.Reader
}

func (p pieces) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1+p.c.IntN(len(b))]
	}
	if p.c.IntN(10) == 0 {
		return 0, nil
	}
	n, err := p.r.Read(b)
	if l, ok := p.r.(interface{ Len() int }); ok && err == nil && l.Len() == 0 && p.c.IntN(2) == 0 {
		err = io.EOF // the last piece and the end at once
	}
	return n, err
}

func content(c *mon.C) []byte {
	if c.IntN(2) == 0 {
		return fsx.Bytes(c)
	}
	b := make([]byte, mon.Pick(c.Rand, 0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128, c.IntN(300), 32767, 32768, 65537))
	if c.IntN(50) == 0 {
		b = make([]byte, 1<<20+c.IntN(3<<20))
	}
	for i := range b {
		b[i] = byte(c.Uint32())
	}
	return fsx.Dress(c, b)
}

func TestProp(t *testing.T) {
	mon.Run(t, "C36", "contents of every length around MD5's block size and the copy buffer's, as strings, byte slices, files and readers that deliver in arbitrary pieces; near-miss digests; concurrent calls sharing a prefix; non-trivial = a content with bytes that are no text", func(m *mon.M) {
		m.Cases("digests", m.N(400), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				b := content(c)
				save := bytes.Clone(b)
				sum := md5.Sum(b)
				want := hex.EncodeToString(sum[:])
				c.Log("%d bytes %s", len(b), want)
				c.Check(utils.Md5(string(b)) == want, "Md5 of %d bytes is %s, want %s", len(b), utils.Md5(string(b)), want)
				c.Check(utils.Md5Crypt(string(b)) == want, "Md5Crypt of %d bytes is %s, want %s", len(b), utils.Md5Crypt(string(b)), want)
				c.Check(utils.MD5V(b) == want, "MD5V of %d bytes is %s, want %s", len(b), utils.MD5V(b), want)
				pre := make([]byte, c.IntN(20), 20+c.IntN(40))
				for i := range pre {
					pre[i] = byte(c.Uint32())
				}
				all := pre[:cap(pre)]
				asave := bytes.Clone(all)
				got := utils.MD5V(b, pre...)
				c.Check(got == hex.EncodeToString(pre)+want, "MD5V with a prefix of %d bytes is %s, want it before %s", len(pre), got, want)
				c.Check(bytes.Equal(all, asave), "MD5V writes behind the prefix it was given")
				fsx.Write("f", b)
				f, err := utils.FileMd5("f")
				c.Check(err == nil && f == want, "FileMd5 of %d bytes is %s, %v, want %s", len(b), f, err, want)
				var r io.Reader = bytes.NewReader(b)
				kind := c.IntN(5)
				switch kind {
				case 1:
					r = iotest.DataErrReader(r)
				case 2:
					r = pieces{c, r}
				case 3:
					if len(b) < 2000 {
						r = iotest.OneByteReader(r)
					}
				case 4:
					h, err := os.Open("f")
					fsx.Must(err)
					defer h.Close()
					r = h
				}
				got = utils.ComputeFileMD5(r)
				c.Check(got == want, "ComputeFileMD5 of %d bytes (reader %d) is %s, want %s", len(b), kind, got, want)
				c.Check(utils.CheckMd5(b, want), "CheckMd5 refuses the right digest")
				bad := mon.Pick(c.Rand, "", want[:31], want+"0", want[1:], " "+want, strings.Replace(want, want[:1], "g", 1), utils.Md5(want))
				c.Check(!utils.CheckMd5(b, bad), "CheckMd5 accepts %q for %s", bad, want)
				i := c.IntN(32)
				x := []byte(want)
				x[i] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", x[i])+1+c.IntN(15))%16]
				c.Check(!utils.CheckMd5(b, string(x)), "CheckMd5 accepts %s, which differs from %s in digit %d", x, want, i)
				if len(b) > 0 {
					y := bytes.Clone(b)
					j := c.IntN(len(y))
					y[j] ^= 1 << c.IntN(8)
					c.Check(!utils.CheckMd5(y, want), "CheckMd5 accepts a content of %d bytes with bit flipped at %d", len(b), j)
					c.Check(!utils.CheckMd5(b[:len(b)-1], want), "CheckMd5 accepts a content cut by one byte")
					c.Check(!utils.CheckMd5(append(bytes.Clone(b), 0), want), "CheckMd5 accepts a content longer by one byte")
				}
				c.Check(bytes.Equal(b, save), "the content was changed")
				c.M.Count("digests", 7)
				if strings.ToValidUTF8(string(b), "") != string(b) {
					c.Nontrivial()
				}
			})
		})
		m.Cases("no file", 6, func(c *mon.C) {
			fsx.In(c, func(dir string) {
				fsx.Must(os.Mkdir("d", 0o755))
				p := []string{"none", "d", "d/none", "", "none/x", "\x00"}[c.Idx]
				c.Log("%q", p)
				d, err := utils.FileMd5(p)
				c.Check(err != nil && d == "", "FileMd5 of %q is %q, %v", p, d, err)
				n := fsx.Descriptors()
				for i := 0; i < 20; i++ {
					utils.FileMd5(p)
				}
				c.Check(fsx.Descriptors() <= n, "FileMd5 leaves files open")
			})
		})
		m.Cases("special files", 20, func(c *mon.C) {
			// whose size is not known beforehand
			fsx.In(c, func(dir string) {
				var b []byte
				p := "fifo"
				if c.Idx < 2 {
					p = []string{"/proc/version", "/proc/filesystems"}[c.Idx]
					var err error
					b, err = os.ReadFile(p)
					fsx.Must(err)
				} else {
					b = content(c)
					fsx.Must(syscall.Mkfifo(p, 0o600))
					go func() {
						f, err := os.OpenFile(dir+"/fifo", os.O_WRONLY, 0)
						if err == nil {
							f.Write(b)
							f.Close()
						}
					}()
				}
				if c.Idx%4 == 3 {
					fsx.Must(os.Symlink(p, "link"))
					p = "link"
				}
				sum := md5.Sum(b)
				got, err := utils.FileMd5(p)
				c.Log("%s of %d bytes: %v", p, len(b), err)
				c.Nontrivial()
				c.Check(err == nil && got == hex.EncodeToString(sum[:]), "FileMd5 of the %d bytes of %s is %q, %v", len(b), p, got, err)
			})
		})
		m.Cases("large", m.N(3), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				b := fsx.Big(c, c.Idx)
				sum := md5.Sum(b)
				want := hex.EncodeToString(sum[:])
				fsx.Write("f", b)
				got, err := utils.FileMd5("f")
				c.Log("%d bytes: %s, %v", len(b), got, err)
				c.Check(err == nil && got == want, "FileMd5 of %d bytes is %s, %v, want %s", len(b), got, err, want)
				got = utils.ComputeFileMD5(bytes.NewReader(b))
				c.Check(got == want, "ComputeFileMD5 of %d bytes is %s, want %s", len(b), got, want)
				c.Check(utils.MD5V(b) == want && utils.Md5(string(b)) == want && utils.CheckMd5(b, want), "digests of %d bytes differ", len(b))
				c.M.Count("large_bytes", len(b))
				c.Nontrivial()
			})
		})
		m.Cases("rewritten", m.N(40), func(c *mon.C) {
			// a file whose content changes while its name, length and age stay
			fsx.In(c, func(dir string) {
				p := mon.Pick(c.Rand, "f", dir+"/f", "./d/f")
				fsx.Write(p, content(c))
				for i := 0; i < 6; i++ {
					b := fsx.Again(c, p)
					sum := md5.Sum(b)
					got, err := utils.FileMd5(p)
					c.Log("%d bytes", len(b))
					c.Check(err == nil && got == hex.EncodeToString(sum[:]), "FileMd5 of %d bytes, written the %d. time, is %s, %v, want %x", len(b), i, got, err, sum)
				}
				os.Remove(p)
				got, err := utils.FileMd5(p)
				c.Check(err != nil, "FileMd5 of a file that was removed is %s", got)
				c.M.Count("rewritten", 6)
				c.Nontrivial()
			})
		})
		m.Cases("many files", 2, func(c *mon.C) {
			fsx.In(c, func(dir string) {
				fsx.Write("f", []byte("x"))
				n := fsx.Descriptors()
				for i := 0; i < 50; i++ {
					utils.FileMd5("f")
				}
				c.Log("50 files")
				c.Check(fsx.Descriptors() <= n, "FileMd5 leaves %d files open", fsx.Descriptors()-n)
			})
		})
		m.Cases("concurrent", m.N(60), func(c *mon.C) {
			pre := make([]byte, 3, 64)
			data := make([][]byte, 8)
			for i := range data {
				data[i] = content(c)
			}
			c.Log("%d bytes and others", len(data[0]))
			var wg sync.WaitGroup
			for i := range data {
				c.Go(&wg, func() {
					sum := md5.Sum(data[i])
					want := hex.EncodeToString(sum[:])
					for j := 0; j < 20; j++ {
						if utils.MD5V(data[i], pre...) != "000000"+want || utils.Md5(string(data[i])) != want || !utils.CheckMd5(data[i], want) {
							c.Fail("a digest of %d bytes differs under concurrent calls", len(data[i]))
						}
					}
				})
			}
			wg.Wait()
			c.M.Count("concurrent_digests", 8*60)
			c.Nontrivial()
		})
	})
}
