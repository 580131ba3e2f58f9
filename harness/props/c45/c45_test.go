package c45

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

var parts = []string{"/", "/", "\\", "..", ".", "a", "b", "evil.com", "http:", "https://", "?", "#", "@", "%2e%2e", "...", "a..b", " ", "\t", "\n", "\r", "张", ":", "~", "//", "/\\", "javascript:"}

func junk(c *mon.C) string {
	var s strings.Builder
	for n := c.IntN(7); n > 0; n-- {
		s.WriteString(parts[c.IntN(len(parts))])
	}
	return s.String()
}

// leaves reports whether a browser on https://here/x goes to another host or
// scheme: tabs and line breaks are dropped and backslashes are slashes.
func leaves(u string) bool {
	u = strings.Map(func(r rune) rune {
		if r == '\t' || r == '\n' || r == '\r' {
			return -1
		}
		if r == '\\' {
			return '/'
		}
		return r
	}, u)
	return !strings.HasPrefix(u, "/") || strings.HasPrefix(u, "//")
}

// steps is a path of steps down, up and to itself.
func steps(c *mon.C) string {
	s := mon.Pick(c.Rand, "", "", "", "/", "./")
	for i, n := 0, 1+c.IntN(7); i < n; i++ {
		if i > 0 {
			s += mon.Pick(c.Rand, "/", "/", "/", "/", "//", "\\")
		}
		s += mon.Pick(c.Rand, "..", "..", "..", "a", "bc", ".", "...", "..a", "a..", "", " ", ".. ", "\x00", "..\x00", "%2e%2e", "C:", "~")
	}
	return s
}

func plain(c *mon.C) string {
	n := 1 + c.IntN(4)
	var s strings.Builder
	for ; n > 0; n-- {
		s.WriteString(mon.Pick(c.Rand, "a", "b", "id", "7", "张", "-", "_", "0", ".", "00", "x y", " ", "%", "?", "#", "&", "=", "~", "+", "\\", "\t", ":"))
	}
	return s.String()
}

func TestProp(t *testing.T) {
	mon.Run(t, "C45", "URLs and paths put together from slashes, backslashes, dots, schemes, control characters and names; judged by where a browser would go and where the joined path would lie; link parameters of several types, with empty and zero ones, of even and odd number; names with several separators; non-trivial = a text that one of the predicates refuses, or a link with parameters left out", func(m *mon.M) {
		m.Cases("site", m.N(4000*6), func(c *mon.C) {
			u := junk(c)
			if c.IntN(3) == 0 {
				u = mon.Pick(c.Rand, "", "", " ", "\x00", "\x01", "\v", "\f", "\t", "\r\n", "https:", "https:\\", "//", "/\\") + "/" + mon.Pick(c.Rand, "", "", "", "\t", "\n", "\r", "\t\t", "\n\r", " ", "\f", "\x00", "a", ".", "..", "./", "%2f", "%5c", "\u2215", "／", "@", ":") + mon.Pick(c.Rand, "", "/", "\\", "/\\", "\\/", "//") + mon.Pick(c.Rand, "", "a", "evil.com", "evil.com/x", "@evil.com", "\tx") + junk(c)
			} else if c.IntN(2) == 0 {
				u = "/" + u
			}
			c.Log("%q", u)
			same := utils.IsSameSiteURLPath(u)
			if same {
				c.Check(!leaves(u), "IsSameSiteURLPath(%q) is true, but a browser leaves the site", u)
				c.M.Count("same_site", 1)
			} else {
				if len(u) >= 2 && u[0] == '/' && !strings.ContainsAny(u, "\t\n\r") {
					c.Check(leaves(u), "IsSameSiteURLPath(%q) is false", u)
				}
				c.M.Count("other_site", 1)
				c.Nontrivial()
			}
		})
		m.Cases("malicious", m.N(4000*6), func(c *mon.C) {
			p := junk(c)
			if c.IntN(2) == 0 {
				p = steps(c)
			}
			c.Log("%q", p)
			bad := utils.IsMaliciousPath(p)
			out := filepath.Join("/srv/files", p)
			inside := out == "/srv/files" || strings.HasPrefix(out, "/srv/files/")
			if !bad {
				c.Check(inside && !filepath.IsAbs(p), "IsMaliciousPath(%q) is false, but below a directory it leads to %s", p, out)
				c.M.Count("harmless_paths", 1)
			} else {
				c.Check(filepath.IsAbs(p) || strings.Contains(p, ".."), "IsMaliciousPath(%q) is true", p)
				c.M.Count("malicious_paths", 1)
				c.Nontrivial()
			}
		})
		m.Cases("links", m.N(1500*6), func(c *mon.C) {
			prefix := strings.Repeat("/", c.IntN(3)) + mon.Pick(c.Rand, "", plain(c), plain(c)+"/"+plain(c)) + strings.Repeat("/", c.IntN(3))
			var params []any
			var want []string
			if t := strings.Trim(prefix, "/"); t != "" {
				want = strings.Split(t, "/")
			}
			left := 0
			for n := c.IntN(5); n > 0; n-- {
				k := plain(c)
				var kv any = k
				if c.IntN(5) == 0 {
					kv, k = "", ""
				} else if c.IntN(5) == 0 {
					i := c.IntN(50)
					kv, k = i, fmt.Sprint(i)
				}
				v := mon.Pick[any](c.Rand, plain(c), plain(c), c.IntN(100), -1, int64(5), 1.5, true, 0, "0", uint8(0), 0.0, false)
				params = append(params, kv, v)
				if k == "" || v == 0 || v == "0" || v == uint8(0) || v == 0.0 {
					left++
					continue
				}
				want = append(want, k, fmt.Sprint(v))
			}
			if c.IntN(4) == 0 {
				params = append(params, "odd")
				left++
			}
			c.Log("%q %v", prefix, params)
			handed := append([]any(nil), params...)
			got := utils.BuildUrl(prefix, params...)
			c.Check(reflect.DeepEqual(params, handed), "BuildUrl changed its parameters %q to %q", handed, params)
			c.Keep("a link", func() string { return got })
			w := ""
			if len(want) > 0 {
				w = "/" + strings.Join(want, "/")
			}
			c.Check(got == w, "BuildUrl(%q, %q) is %q, want %q", prefix, params, got, w)
			c.M.Count("links", 1)
			if left > 0 {
				c.Nontrivial()
			}
		})
		m.Cases("names", m.N(1000*6), func(c *mon.C) {
			seg := mon.Pick(c.Rand, ".", ".", "/", "--", "张")
			n := c.IntN(4)
			want, s := "", ""
			for i := 0; i <= n; i++ {
				p := mon.Pick(c.Rand, "", "a", "tar", "PNG", "x y", "-", "é")
				if i > 0 {
					s += seg
					want = p
				}
				s += p
			}
			if n == 0 {
				want = ""
			}
			c.Log("%q by %q", s, seg)
			if seg != "--" || !strings.Contains(s, "---") {
				c.Check(utils.GetSuffixName(s, seg) == want, "GetSuffixName(%q, %q) is %q, want %q", s, seg, utils.GetSuffixName(s, seg), want)
			}
			ext := mon.Pick(c.Rand, "jpeg", "jpg", "gif", "png", "bmp", "tif", "tiff", "txt", "", "exe", "jpgx", "pn", "svg", "mp4", "png.exe", "jpg/x")
			image := strings.Contains(" jpeg jpg gif png bmp tif tiff ", " "+ext+" ") && ext != ""
			spelled := []byte(ext)
			for i := range spelled {
				if c.IntN(2) == 0 && spelled[i] >= 'a' && spelled[i] <= 'z' {
					spelled[i] -= 32
				}
			}
			f := mon.Pick(c.Rand, "a", "", "a.b", "dir/a", "png", "张", "dir.png/a") + "." + string(spelled) + mon.Pick(c.Rand, "", "", " ")
			c.Check(utils.IsImage(f) == image, "IsImage(%q) is %v", f, !image)
			c.M.Count("names", 2)
		})
		m.Cases("current", 8, func(c *mon.C) {
			fsx.In(c, func(dir string) {
				old := os.Args[0]
				defer func() { os.Args[0] = old }()
				os.Args[0] = []string{"prog", "./prog", "bin/prog", "../prog", "/usr/bin/prog", "bin/./x/../prog", "张/prog", "/prog"}[c.Idx]
				want := []string{dir, dir, dir + "/bin", filepath.Dir(dir), "/usr/bin", dir + "/bin", dir + "/张", "/"}[c.Idx]
				c.Log("%q", os.Args[0])
				c.Check(utils.GetCurrentDir() == want, "started as %q in %s, GetCurrentDir is %q", os.Args[0], dir, utils.GetCurrentDir())
			})
		})
		// hundreds of parameters, long ones
		m.Cases("many", m.N(40), func(c *mon.C) {
			var params []any
			var want strings.Builder
			n := mon.Pick(c.Rand, 33, 65, 129, 300, 1000, 5000)
			long := strings.Repeat("k", mon.Pick(c.Rand, 1, 100, 3000))
			want.WriteString("/p")
			for i := 0; i < n; i++ {
				k, v := fmt.Sprint(long, i), 1+c.IntN(1000)
				params = append(params, k, v)
				fmt.Fprintf(&want, "/%s/%d", k, v)
			}
			c.Log("%d pairs, keys of %d bytes", n, len(long))
			got := utils.BuildUrl("p", params...)
			c.Check(got == want.String(), "BuildUrl with %d pairs of keys of %d bytes gives %d bytes, want %d", n, len(long), len(got), want.Len())
			// paths thousands of bytes long, with their way out at the end
			down := strings.Repeat("a/", mon.Pick(c.Rand, 100, 300, 2200))
			c.Check(!utils.IsMaliciousPath(down+"x"), "IsMaliciousPath is true of %d steps down", len(down)/2)
			up := down + strings.Repeat("../", len(down)/2+1) + "x"
			c.Check(utils.IsMaliciousPath(up), "IsMaliciousPath is false of %d steps down and one more up", len(down)/2)
			host := "/" + strings.Repeat("\t", mon.Pick(c.Rand, 10, 300, 5000)) + "/evil.com"
			c.Check(!utils.IsSameSiteURLPath(host), "IsSameSiteURLPath is true of %d bytes that lead elsewhere", len(host))
			host = "/" + down + "x"
			c.Check(utils.IsSameSiteURLPath(host), "IsSameSiteURLPath is false of a path of %d bytes", len(host))
			file := strings.Repeat("a.", mon.Pick(c.Rand, 10, 300, 40000)) + "PNG"
			c.Check(utils.IsImage(file) && utils.GetSuffixName(file, ".") == "PNG", "the ending of a name of %d bytes: IsImage %v, GetSuffixName of %d bytes", len(file), utils.IsImage(file), len(utils.GetSuffixName(file, ".")))
			c.M.Peak("most_pairs", n)
			c.Nontrivial()
		})
	})
}
