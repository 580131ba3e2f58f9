package c37

import (
	"math"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/mon"
)

var alphabet = []rune("abcXYZ0159._+- 张三李四丰é😀ñ*")

func text(c *mon.C, n int, ascii bool) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if ascii {
			b.WriteRune(alphabet[c.IntN(15)])
		} else {
			b.WriteRune(alphabet[c.IntN(len(alphabet))])
		}
	}
	return b.String()
}

func digits(c *mon.C, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(c.IntN(10))
	}
	return string(b)
}

func mobile(s string) bool {
	if len(s) != 11 || s[0] != '1' {
		return false
	}
	for _, d := range []byte(s) {
		if d < '0' || d > '9' {
			return false
		}
	}
	return true
}

// hidden is what HideStar shows of a text.
func hidden(s string) string {
	if local, domain, ok := strings.Cut(s, "@"); ok {
		r := []rune(local)
		if len(r) < 3 {
			return "***@" + domain
		}
		return string(r[:3]) + "***@" + domain
	}
	if mobile(s) {
		return s[:3] + "****" + s[7:]
	}
	r := []rune(s)
	switch n := len(r); n {
	case 0, 1:
		return "***"
	case 2:
		return string(r[0]) + "*"
	case 3:
		return string(r[0]) + "*" + string(r[2])
	case 4:
		return string(r[0]) + "**" + string(r[3])
	default:
		return string(r[:2]) + "***" + string(r[n-2:])
	}
}

func name(s string) string {
	r := []rune(s)
	switch n := len(r); {
	case n == 0:
		return ""
	case n <= 4:
		return string(r[0]) + "***"
	default:
		return string(r[:2]) + "***" + string(r[n-2:])
	}
}

// masked hides count characters from offset, when more than that are there.
func masked(s string, offset, count int) string {
	r := []rune(s)
	if count >= len(r)-offset {
		return s
	}
	return string(r[:offset]) + strings.Repeat("*", count) + string(r[offset+count:])
}

func TestProp(t *testing.T) {
	mon.Run(t, "C37", "names, addresses and phone numbers of every length around each rule's limits, in ASCII and in characters of two to four bytes, near misses of a mobile number, bytes that are no text, and card and phone numbers with every count of hidden digits; compared with the masking rules on characters; non-trivial = a text with characters of several bytes, or a mask that hides something", func(m *mon.M) {
		m.Cases("hide", m.N(20000*4), func(c *mon.C) {
			var s string
			switch c.IntN(8) {
			case 0, 1:
				s = text(c, c.IntN(8), c.IntN(3) == 0)
			case 2, 3:
				s = text(c, c.IntN(6), c.IntN(3) == 0) + "@" + text(c, c.IntN(6), c.IntN(2) == 0)
			case 4:
				s = "1" + digits(c, 10)
			case 5: // nearly a mobile number
				b := []byte("1" + digits(c, 10))
				switch c.IntN(8) {
				case 6, 7: // digits of other scripts are no mobile number
					r := []rune(string(b))
					zero := mon.Pick(c.Rand, '０', '٠', '०', '๐', '𝟎', '〇', '①', 'Ⅰ', '²')
					for _, i := range c.Perm(11)[:1+c.IntN(11)] {
						r[i] = zero + rune(c.IntN(4))
					}
					if c.IntN(2) == 0 {
						r[0] = '1'
					}
					b = []byte(string(r))
				case 0:
					b = b[:10]
				case 1:
					b = append(b, '0'+byte(c.IntN(10)))
				case 2:
					b[0] = '0' + byte(mon.Pick(c.Rand, 0, 2, 9))
				case 3:
					b[c.IntN(11)] = mon.Pick(c.Rand, byte(' '), 'a', '-', ':', '/')
				case 4:
					b = append(b, '\n')
				default:
					b = append([]byte{' '}, b...)
				}
				s = string(b)
			case 6:
				s = text(c, 4+c.IntN(60), false)
			default: // no text at all
				b := []byte(text(c, c.IntN(6), false))
				if len(b) > 0 {
					b = b[:c.IntN(len(b))]
				}
				s = string(b) + mon.Pick(c.Rand, "\xff", "\xe5\xbc", "", "\xff@", "@\xff")
			}
			c.Log("%q", s)
			h := utils.HideStar(s)
			n := utils.MaskCustomerName(s)
			c.M.Count("texts_hidden", 1)
			if !utf8.ValidString(s) {
				c.M.Count("invalid_utf8", 1)
				return // must not panic, what it shows is not specified
			}
			want := hidden(s)
			c.Check(h == want, "HideStar(%q) is %q, want %q", s, h, want)
			want = name(s)
			c.Check(n == want, "MaskCustomerName(%q) is %q, want %q", s, n, want)
			if len(s) != utf8.RuneCountInString(s) || mobile(s) {
				c.Nontrivial()
			}
		})
		m.Cases("several at", m.N(1000*4), func(c *mon.C) {
			// of an address with several @, the local part stays hidden
			local, rest := text(c, c.IntN(8), false), text(c, c.IntN(4), false)+"@"+text(c, c.IntN(4), false)
			s := local + "@" + rest
			c.Log("%q", s)
			h := utils.HideStar(s)
			r := []rune(local)
			want := "***@"
			if len(r) >= 3 {
				want = string(r[:3]) + "***@"
			}
			c.Check(strings.HasPrefix(h, want) && strings.HasPrefix(rest, h[len(want):]), "HideStar(%q) is %q, want it to start with %q and go on as the domain does", s, h, want)
		})
		m.Cases("numbers", m.N(20000*4), func(c *mon.C) {
			var s string
			if c.IntN(4) == 0 {
				s = text(c, c.IntN(25), c.IntN(2) == 0)
			} else if c.IntN(6) == 0 { // digits of another script
				for n := c.IntN(24); n > 0; n-- {
					s += string(rune('０' + c.IntN(10)))
				}
			} else {
				s = digits(c, c.IntN(24))
			}
			k := c.IntN(26)
			if c.IntN(20) == 0 {
				k = math.MaxInt - c.IntN(60)
			}
			if c.IntN(3) == 0 {
				k = mon.Pick(c.Rand, 0, 4, 8, len([]rune(s)), len(s), max(0, len([]rune(s))-3), max(0, len([]rune(s))-4), max(0, len([]rune(s))-5))
			}
			n := len([]rune(s))
			c.Log("%q %d", s, k)
			off := 3
			if n > 11 {
				off = 5
			}
			want := masked(s, off, k)
			got := utils.MaskMobile(s, k)
			c.Check(got == want, "MaskMobile(%q, %d) is %q, want %q", s, k, got, want)
			if want != s {
				c.Nontrivial()
				c.M.Count("masks", 1)
			}
			want, got = masked(s, 4, k), utils.MaskIDCard(s, k)
			c.Check(got == want, "MaskIDCard(%q, %d) is %q, want %q", s, k, got, want)
			x := k
			if n > 16 {
				x = min(k, 1<<40) + n - 16
			}
			want, got = masked(s, 4, x), utils.MaskBackCard(s, k)
			c.Check(got == want, "MaskBackCard(%q, %d) is %q, want %q", s, k, got, want)
		})
		m.Cases("long", m.N(100), func(c *mon.C) {
			n := mon.Pick(c.Rand, 300, 1025, 4097, 5000, 33000, 70000)
			s := text(c, n, c.IntN(3) == 0)
			if c.IntN(2) == 0 {
				s = digits(c, n)
			}
			if at := c.IntN(3); at > 0 { // an address with a long local part or domain
				s = strings.ReplaceAll(s, "@", "") + "@" + text(c, mon.Pick(c.Rand, 2, n), true)
			}
			c.Log("%.40q... %d bytes", s, len(s))
			if h, want := utils.HideStar(s), hidden(s); h != want {
				c.Check(false, "HideStar of %d bytes that start with %.20q gives %d bytes, %.40q..., want %d, %.40q...", len(s), s, len(h), h, len(want), want)
			}
			if h, want := utils.MaskCustomerName(s), name(s); h != want {
				c.Check(false, "MaskCustomerName of %d bytes that start with %.20q gives %d bytes, want %d", len(s), s, len(h), len(want))
			}
			r := len([]rune(s))
			for _, k := range []int{0, 1, 4, 255, 256, 257, c.IntN(r), r - 6, r - 5, r - 4, r - 3, r} {
				k = max(k, 0)
				c.Check(utils.MaskMobile(s, k) == masked(s, 5, k), "MaskMobile of %d characters, hiding %d, is wrong", r, k)
				c.Check(utils.MaskIDCard(s, k) == masked(s, 4, k), "MaskIDCard of %d characters, hiding %d, is wrong", r, k)
				c.Check(utils.MaskBackCard(s, k) == masked(s, 4, k+r-16), "MaskBackCard of %d characters, hiding %d, is wrong", r, k)
			}
			c.M.Peak("longest", r)
			c.Nontrivial()
		})
	})
}
