package c32

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

// name draws an entry name and whether it leads outside of the destination;
// never further up than the scratch directory.
func name(c *mon.C, dest string) (string, bool) {
	up := func(n int) string { return strings.Repeat("../", n) }
	base := filepath.Base(dest)
	switch c.IntN(19) {
	case 15:
		return mon.Pick(c.Rand, "..\\victim", "..\\..\\victim", "in\\..\\..\\victim", "..\\"+base+"x", "a\\b", "\\abs"), false // a name like another
	case 16:
		return mon.Pick(c.Rand, "%2e%2e/victim", "..%2fvictim", "%2e%2e%2fvictim", "C:/x", "C:\\x", "~/x", "$HOME/x", "*", "..;/x", ".. /victim", " ../x", "in/.. /.. /victim", "．．/x", "-rf", "a:b"), false
	case 17:
		return mon.Pick(c.Rand, "in/../in/./x", "./y", "in//z", "in/..//w", "../"+base+"/../"+base+"/v"), false
	case 0:
		return up(1+c.IntN(3)) + "victim", true
	case 1:
		return up(1+c.IntN(3)) + "new/deep/file", true
	case 2:
		return "in/" + up(2) + "victim", true
	case 3:
		return "in/deep/" + up(3+c.IntN(2)) + "new", true
	case 4:
		return up(1) + base + "-evil/file", true // shares the destination's name as a prefix
	case 5:
		return up(1) + base + "x", true
	case 6:
		return up(1+c.IntN(2)) + "newdir/", true // a directory
	case 7:
		return "./" + up(1) + "victim", true
	case 8:
		return "in//" + up(2) + "victim", true
	case 9:
		return "in/" + up(1) + "back", false // stays inside
	case 10:
		return up(1) + base + "/round", false // out and in again
	case 11:
		return "..hidden", false
	case 12:
		return "a..b/c..", false
	case 13:
		return ".../x", false
	case 14:
		return "/abs/file", false // taken below the destination
	}
	return fmt.Sprint("plain", c.IntN(5)), false
}

func TestProp(t *testing.T) {
	mon.Run(t, "C32", "hostile archives (entries climbing out in many spellings, beside harmless ones) are unzipped next to victims; everything outside the destination is compared before and after; non-trivial = an entry led outside", func(m *mon.M) {
		m.Cases("hostile", m.N(700), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				work := filepath.Join(dir, "a", "b", "c", "d", "work")
				fsx.Must(os.MkdirAll(work, 0o755))
				fsx.Must(os.Chdir(work))
				for d := work; len(d) >= len(dir); d = filepath.Dir(d) {
					fsx.Write(d+"/victim", []byte("victim"))
				}
				dest := mon.Pick(c.Rand, "dest", "dest/", "./dest", work+"/dest", "p/../dest", "sub/dest", "dest/deep", "lnk", "", ".", "./", "dest/..", work)
				clean := filepath.Join(work, dest)
				if filepath.IsAbs(dest) {
					clean = dest
				}
				lexical := clean
				if dest == "lnk" { // the destination is reached by a link
					clean = work + "/real/inner"
					fsx.Must(os.Symlink("real/inner", "lnk"))
				}
				fsx.Must(os.MkdirAll(clean, 0o755))
				fsx.Write("dest/victim", []byte("victim"))
				fsx.Write("destx", []byte("neighbour"))
				fsx.Write("dest-evil/keep", []byte("neighbour"))
				var buf bytes.Buffer
				w := zip.NewWriter(&buf)
				var ns []string
				escapes, rooted := false, false
				for i, n := 0, 1+c.IntN(4); i < n; i++ {
					nm, out := name(c, lexical)
					if c.IntN(30) == 0 || dest == "" && c.IntN(4) == 0 {
						nm, out = dir+"/victim", false // below the destination, if there is one
					}
					// undecided: without a name for the destination these cannot be told from others
					rooted = rooted || dest == "" && strings.HasPrefix(nm, "/") || filepath.Clean(dest) == "." && strings.HasPrefix(nm, "../"+filepath.Base(lexical)+"/")
					escapes = escapes || out
					ns = append(ns, nm)
					h := &zip.FileHeader{Name: nm, Method: mon.Pick(c.Rand, zip.Store, zip.Deflate)}
					if c.IntN(5) == 0 {
						h.SetMode(mon.Pick(c.Rand, os.ModeSymlink|0o777, 0o777, 0o644, os.ModeNamedPipe|0o644))
					}
					f, err := w.CreateHeader(h)
					fsx.Must(err)
					if !strings.HasSuffix(nm, "/") {
						f.Write([]byte("EVIL"))
					}
				}
				fsx.Must(w.Close())
				fsx.Write(work+"/x.zip", buf.Bytes())
				outside := func() map[string]fsx.Entry {
					t := fsx.Tree(dir)
					rel, _ := filepath.Rel(dir, clean)
					for k := range t {
						if strings.HasPrefix(k, rel+"/") {
							delete(t, k)
						}
					}
					return t
				}
				before := outside()
				_, err := utils.Unzip("x.zip", dest)
				c.Log("destination %q, entries %q: %v", dest, ns, err)
				if d := fsx.Diff(outside(), before); d != "" {
					c.Fail("unzipping %q into %q: %s", ns, dest, d)
				}
				if escapes {
					c.Nontrivial()
					c.M.Count("escapes_tried", 1)
					c.Check(err != nil, "unzipping %q into %q: no error", ns, dest)
					return
				}
				if rooted { // may be refused, or taken below the destination
					c.M.Count("undecided_names_tried", 1)
					c.Nontrivial()
					return
				}
				c.Check(err == nil, "unzipping the harmless %q into %q: %v", ns, dest, err)
				for _, n := range ns {
					b, err := os.ReadFile(filepath.Join(lexical, n))
					c.Check(err == nil && string(b) == "EVIL", "harmless entry %q did not arrive: %v", n, err)
				}
			})
		})
		m.Cases("links", m.N(300), func(c *mon.C) {
			// an entry that is a link leading outside, and entries that go
			// through it or take its name
			fsx.In(c, func(dir string) {
				work := filepath.Join(dir, "a", "b", "work")
				fsx.Write(work+"/victim", []byte("victim"))
				fsx.Write(work+"/in/victim", []byte("victim"))
				fsx.Write(dir+"/victim", []byte("victim"))
				fsx.Must(os.Chdir(work))
				dest := mon.Pick(c.Rand, "dest", work+"/dest", "./dest/")
				if c.IntN(2) == 0 {
					fsx.Must(os.Mkdir("dest", 0o755))
				}
				var buf bytes.Buffer
				w := zip.NewWriter(&buf)
				var ns []string
				put := func(name string, mode os.FileMode, content string) {
					h := &zip.FileHeader{Name: name, Method: mon.Pick(c.Rand, zip.Store, zip.Deflate)}
					h.SetMode(mode)
					f, err := w.CreateHeader(h)
					fsx.Must(err)
					if !strings.HasSuffix(name, "/") {
						f.Write([]byte(content))
					}
					ns = append(ns, name)
				}
				ln := mon.Pick(c.Rand, "ln", "in/ln", "in/deep/ln")
				steps := strings.Repeat("../", strings.Count(ln, "/"))
				if c.IntN(3) == 0 {
					put("first", 0o644, "plain")
				}
				if c.IntN(2) == 0 { // to a directory
					put(ln, os.ModeSymlink|0o777, mon.Pick(c.Rand, steps+"..", work, dir, steps+"../in", steps+"../../..", steps+"../", steps))
					for n := 1 + c.IntN(3); n > 0; n-- {
						switch c.IntN(4) {
						case 0:
							put(ln+"/victim", 0o644, "EVIL")
						case 1:
							put(ln+"/new", 0o644, "EVIL")
						case 2:
							put(ln+"/newdir/", os.ModeDir|0o755, "")
						default:
							put(ln+"/../victim", 0o644, "EVIL")
						}
					}
				} else { // to a file
					put(ln, os.ModeSymlink|0o777, mon.Pick(c.Rand, steps+"../victim", work+"/victim", dir+"/victim", steps+"../none", work+"/none"))
					for n := 1 + c.IntN(2); n > 0; n-- {
						put(ln, 0o644, "EVIL")
					}
				}
				fsx.Must(w.Close())
				fsx.Write(work+"/x.zip", buf.Bytes())
				outside := func() map[string]fsx.Entry {
					t := fsx.Tree(dir)
					for k := range t {
						if k == "a/b/work/dest" || strings.HasPrefix(k, "a/b/work/dest/") {
							delete(t, k)
						}
					}
					return t
				}
				before := outside()
				_, err := utils.Unzip("x.zip", dest)
				c.Log("destination %q, entries %q of which %q is a link: %v", dest, ns, ln, err)
				c.Nontrivial()
				c.M.Count("links_tried", 1)
				if d := fsx.Diff(outside(), before); d != "" {
					c.Fail("unzipping %q, of which %q is a link, into %q: %s", ns, ln, dest, d)
				}
			})
		})
	})
}
