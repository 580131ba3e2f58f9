package c46

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"
	"testing/synctest"
	"time"
	"unicode"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/mon"
)

// number reads a decimal integer, 0 when it is none, the nearest limit when it
// does not fit.
func number(s string) int64 {
	t := s
	if t != "" && (t[0] == '+' || t[0] == '-') {
		t = t[1:]
	}
	if t == "" || strings.Trim(t, "0123456789") != "" {
		return 0
	}
	b, _ := new(big.Int).SetString(t, 10)
	if s[0] == '-' {
		b.Neg(b)
	}
	switch {
	case b.IsInt64():
		return b.Int64()
	case b.Sign() < 0:
		return math.MinInt64
	}
	return math.MaxInt64
}

var runes = []rune("abcXYZ 019_張三é😀ßñ\u0301ǆﬁ\n")

func text(c *mon.C) string {
	var s strings.Builder
	for n := c.IntN(10); n > 0; n-- {
		s.WriteRune(runes[c.IntN(len(runes))])
	}
	return s.String()
}

// civil is the day of a count of days since 1970-01-01, by counting.
func civil(days int) (y, m, d int) {
	y = 1970
	leap := func() bool { return y%4 == 0 && y%100 != 0 || y%400 == 0 }
	for {
		n := 365
		if leap() {
			n++
		}
		if days < n {
			break
		}
		days -= n
		y++
	}
	for m = 1; ; m++ {
		n := []int{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m]
		if m == 2 && leap() {
			n++
		}
		if days < n {
			return y, m, days + 1
		}
		days -= n
	}
}

var magics = []struct {
	kind, head string
}{
	{"image", "\x89PNG\r\n\x1a\n"}, {"image", "\xff\xd8\xff\xe0"}, {"image", "GIF89a"}, {"image", "GIF87a"}, {"image", "BM"},
	{"image", "RIFF\x10\x00\x00\x00WEBPVP"}, {"image", "\x00\x00\x01\x00"},
	{"pdf", "%PDF-1.4"}, {"pdf", "%PDF-"},
	{"video", "\x1a\x45\xdf\xa3"}, {"video", "RIFF\x10\x00\x00\x00AVI "}, {"video", "\x00\x00\x00\x18ftypmp42\x00\x00\x00\x00mp42isom"},
	{"text", "<html>"}, {"text", "  <!DOCTYPE HTML>"}, {"text", "<?xml"}, {"text", "hello"}, {"text", "\xef\xbb\xbfbom"}, {"text", "张三"}, {"text", "line\r\n\tline"}, {"text", "\xfe\xff\x00a"},
	{"text", "h"}, {"text", "\n"}, {"text", "\xff"}, {"none", "\x00"}, {"none", "\x1f"}, {"none", "a\x01"},
	{"none", "\x00\x01\x02\x03"}, {"none", "PK\x03\x04"}, {"none", "\x1f\x8b\x08"}, {"none", "\x7fELF\x02\x01"}, {"none", "ID3\x03"}, {"none", "OggS\x00"}, {"none", "Rar!\x1a\x07\x00"},
}

func TestProp(t *testing.T) {
	mon.Run(t, "C46", "numerals around every limit, malformed and with signs, zeros and digits of other scripts; texts cut at every position of characters of one to four bytes; option maps with and without the key; contents with every kind of signature followed by arbitrary bytes; days on a virtual clock in time zones on both sides, at midnight and leap days; non-trivial = a numeral out of range or malformed, a text of wide characters, a recognised signature, a day that differs between the zones", func(m *mon.M) {
		m.Cases("numbers", m.N(4000*8), func(c *mon.C) {
			var s string
			switch c.IntN(5) {
			case 0:
				s = fmt.Sprint(int64(c.Uint64()))
			case 1:
				b := new(big.Int).Lsh(big.NewInt(1), uint(c.IntN(66)))
				b.Add(b, big.NewInt(int64(c.IntN(3)-1)))
				if c.IntN(2) == 0 {
					b.Neg(b)
				}
				s = b.String()
			case 2:
				s = mon.Pick(c.Rand, "", "+", "-", "0", "-0", "+0", "00", "007", "-007", "+5", "--5", "+-5", "5-", "1e3", "1.0", "0x10", "0b1", "0o7", "1_000", " 1", "1 ", "\t1", "1\n", "１２", "٣", "1,000", "NaN", "\x00", "1\x00", strings.Repeat("9", 40), "-"+strings.Repeat("9", 40), strings.Repeat("0", 40)+"1")
			case 3:
				b := make([]byte, c.IntN(22))
				for i := range b {
					b[i] = "0123456789+-_ .exabc"[c.IntN(20)]
				}
				s = string(b)
			default:
				b := make([]byte, 1+c.IntN(21))
				for i := range b {
					b[i] = '0' + byte(c.IntN(10))
				}
				s = mon.Pick(c.Rand, "", "-", "+") + string(b)
			}
			want := number(s)
			c.Log("%q %d", s, want)
			c.Check(utils.StringToInt64(s) == want, "StringToInt64(%q) is %d, want %d", s, utils.StringToInt64(s), want)
			c.Check(int64(utils.StringToInt(s)) == want, "StringToInt(%q) is %d, want %d", s, utils.StringToInt(s), want)
			back := fmt.Sprint(want)
			c.Check(utils.Int64ToString(want) == back, "Int64ToString(%d) is %q", want, utils.Int64ToString(want))
			c.Check(utils.IntToString(int(want)) == back, "IntToString(%d) is %q", want, utils.IntToString(int(want)))
			c.Check(utils.StringToInt64(utils.Int64ToString(want)) == want && utils.StringToInt(utils.IntToString(int(want))) == int(want), "%d does not survive being written and read", want)
			if back != s {
				c.Nontrivial()
			}
			c.M.Count("numerals", 1)
		})
		m.Cases("texts", m.N(600*8), func(c *mon.C) {
			s := text(c)
			r := []rune(s)
			c.Log("%q", s)
			for i := 0; i <= len(r); i++ {
				for j := i; j <= len(r); j++ {
					c.Check(utils.Substr2(s, i, j) == string(r[i:j]), "Substr2(%q, %d, %d) is %q", s, i, j, utils.Substr2(s, i, j))
					c.M.Count("cuts", 1)
				}
			}
			want := s
			if len(r) > 0 {
				want = string(unicode.ToUpper(r[0])) + string(r[1:])
			}
			c.Check(utils.UpperFirst(s) == want, "UpperFirst(%q) is %q, want %q", s, utils.UpperFirst(s), want)
			for _, b := range []string{"\xffa", "\xe5\xbc", "\xe5a", "\x80"} {
				c.Check(utils.UpperFirst(b+s) == b+s, "UpperFirst(%q) is %q", b+s, utils.UpperFirst(b+s))
			}
			if len(r) != len(s) {
				c.Nontrivial()
			}
		})
		m.Cases("switches", m.N(200*8), func(c *mon.C) {
			var o map[string]bool
			model := map[string]bool{}
			if c.IntN(5) > 0 {
				o = map[string]bool{}
			}
			keys := []string{"a", "b", "", "张"}
			if o != nil && c.IntN(3) == 0 { // among many others
				for i, n := 0, c.IntN(100); i < n; i++ {
					k, v := fmt.Sprint("k", i), c.IntN(2) == 0
					o[k], model[k] = v, v
				}
			}
			for i := 0; i < 12; i++ {
				k, v := keys[c.IntN(4)], c.IntN(2) == 0
				if c.IntN(3) == 0 {
					utils.SetSwitchFromOptions(o, k, v)
					if o != nil {
						model[k] = v
					}
				}
				c.Log("%q %v", k, v)
				on, set := model[k]
				c.Check(utils.GetSwitchFromOptions(o, k) == (on || !set), "switch %q (set: %v) is %v", k, set, utils.GetSwitchFromOptions(o, k))
				c.Check(len(o) == len(model), "asking for a switch or setting one leaves %d, want %d", len(o), len(model))
			}
		})
		m.Cases("kinds", m.N(600*8), func(c *mon.C) {
			g := magics[c.Idx%len(magics)]
			b := []byte(g.head)
			tail := c.IntN(1500)
			if c.IntN(4) == 0 {
				tail = c.IntN(2)
			}
			if len(g.head) < 3 && g.kind == "none" {
				tail = 0 // what follows might make it a signature
			}
			if g.kind == "text" {
				b = append(b, bytes.Repeat([]byte("some text, 字\n"), tail/16)...)
				if tail > 900 && !strings.HasPrefix(g.head, "\xfe") { // only the head is looked at
					b = append(b, 0, 1, 2)
				}
			} else {
				for i := 0; i < tail; i++ {
					b = append(b, byte(c.Uint32()))
				}
			}
			save := bytes.Clone(b)
			c.Log("%q %d", g.head, len(b))
			got := []bool{utils.IsImageFile(b), utils.IsPDFFile(b), utils.IsVideoFile(b), utils.IsTextFile(b)}
			for i, k := range []string{"image", "pdf", "video", "text"} {
				c.Check(got[i] == (g.kind == k), "%d bytes that start with %q (%s): the predicates for image, pdf, video, text say %v", len(b), g.head, g.kind, got)
			}
			c.Check(bytes.Equal(b, save), "the content was changed")
			c.Check(utils.IsTextFile(nil) && utils.IsTextFile([]byte{}) && !utils.IsImageFile(nil) && !utils.IsPDFFile(nil) && !utils.IsVideoFile(nil), "an empty content is text and nothing else")
			c.M.Count("contents", 1)
			if g.kind != "none" {
				c.Nontrivial()
			}
		})
		m.Cases("days", m.N(150*8), func(c *mon.C) {
			synctest.Test(c.T, func(*testing.T) {
				old := time.Local
				defer func() { time.Local = old }()
				prev := ""
				for i := 0; i < 12; i++ {
					off := mon.Pick(c.Rand, 0, 8*3600, -8*3600, 14*3600, -12*3600, 5*3600+1800)
					time.Local = time.FixedZone("zone", off)
					now := time.Now().Unix() + int64(off)
					d := utils.GetTimeDir()
					y, mo, da := civil(int(now / 86400))
					want := fmt.Sprintf("%04d/%02d/%02d", y, mo, da)
					if d != want {
						c.Fail("at %d, %d seconds east, GetTimeDir is %q, want %q", now-int64(off), off, d, want)
						return
					}
					c.Log("%s", d)
					if d != prev && prev != "" {
						c.Nontrivial()
					}
					prev = d
					// to about the next midnight, or some days on
					left := 86400 - now%86400
					switch c.IntN(3) {
					case 0:
						time.Sleep(time.Duration(left-1) * time.Second)
					case 1:
						time.Sleep(time.Duration(left) * time.Second)
					default:
						time.Sleep(time.Duration(c.IntN(400)) * 24 * time.Hour)
					}
				}
			})
			c.M.Count("days", 12)
		})
		// texts and contents beyond 64 KB, hundreds of switches, long numerals
		m.Cases("long", m.N(60), func(c *mon.C) {
			n := mon.Pick(c.Rand, 5000, 33000, 70000, 200000)
			r := make([]rune, n)
			for i := range r {
				r[i] = runes[c.IntN(len(runes))]
			}
			s := string(r)
			i := mon.Pick(c.Rand, 0, 1, c.IntN(n), n-5)
			j := mon.Pick(c.Rand, i, min(n, i+3), i+c.IntN(n-i+1), n)
			c.Log("%d characters, cut from %d to %d", n, i, j)
			c.Check(utils.Substr2(s, i, j) == string(r[i:j]), "Substr2 of %d characters from %d to %d gives %d bytes, want %d", n, i, j, len(utils.Substr2(s, i, j)), len(string(r[i:j])))
			want := string(unicode.ToUpper(r[0])) + string(r[1:])
			c.Check(utils.UpperFirst(s) == want, "UpperFirst of %d characters that start with %q is wrong", n, r[0])
			g := magics[c.IntN(len(magics))]
			b := []byte(g.head)
			for len(b) < n {
				if g.kind == "text" {
					b = append(b, "some text, 字\n"...)
				} else {
					b = append(b, byte(c.Uint32()))
				}
			}
			got := []bool{utils.IsImageFile(b), utils.IsPDFFile(b), utils.IsVideoFile(b), utils.IsTextFile(b)}
			for i, k := range []string{"image", "pdf", "video", "text"} {
				c.Check(got[i] == (g.kind == k), "%d bytes that start with %q (%s): the predicates for image, pdf, video, text say %v", len(b), g.head, g.kind, got)
			}
			o := map[string]bool{}
			for i := 0; i < n/20; i++ {
				utils.SetSwitchFromOptions(o, fmt.Sprint(i), i%3 == 0)
			}
			for i := 0; i < n/20+3; i++ {
				w := i%3 == 0 || i >= n/20
				c.Check(utils.GetSwitchFromOptions(o, fmt.Sprint(i)) == w, "of %d switches, %d is %v", n/20, i, !w)
			}
			num := strings.Repeat("0", mon.Pick(c.Rand, 20, 300, n)) + mon.Pick(c.Rand, "", "7", "9223372036854775807", "9223372036854775808", "12x")
			if c.IntN(2) == 0 {
				num = "-" + num
			}
			w := number(num)
			c.Check(utils.StringToInt64(num) == w && int64(utils.StringToInt(num)) == w, "a numeral of %d bytes that ends in %q reads as %d and %d, want %d", len(num), num[len(num)-4:], utils.StringToInt64(num), utils.StringToInt(num), w)
			c.M.Peak("longest_text", n)
			c.Nontrivial()
		})
	})
}
