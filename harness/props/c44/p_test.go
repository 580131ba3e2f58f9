package c44

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

// bad draws a name that leads somewhere else; never further up than the scratch directory.
func bad(c *mon.C) string {
	up := strings.Repeat("../", 1+c.IntN(3))
	switch c.IntN(9) {
	case 0:
		return ""
	case 1:
		return "."
	case 2:
		return ".."
	case 3:
		return up + "victim"
	case 4:
		return up + "new.txt"
	case 5:
		return "sub/x"
	case 6:
		return "good/" + up + "victim"
	case 7:
		return "/x"
	}
	return up
}

func TestProp(t *testing.T) {
	mon.Run(t, "C44", "the upload functions are given names that lead elsewhere (parents, separators, empty), with victims placed there; the whole scratch tree is compared before and after; non-trivial = every case", func(m *mon.M) {
		m.Cases("escape", m.N(700), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				work := filepath.Join(dir, "a", "b", "c", "work")
				fsx.Must(os.MkdirAll(work, 0o755))
				fsx.Must(os.Chdir(work))
				for _, d := range []string{dir, dir + "/a", dir + "/a/b", dir + "/a/b/c", work, work + "/breakpointDir", work + "/breakpointDir/good", work + "/breakpointDir/sum", work + "/fileDir"} {
					fsx.Write(d+"/victim", []byte("victim"))
					fsx.Write(d+"/victim_0", []byte("chunk"))
				}
				if c.IntN(3) == 0 { // nothing was ever uploaded
					for _, d := range []string{"breakpointDir", "fileDir"} {
						fsx.Must(os.RemoveAll(filepath.Join(work, d)))
					}
					c.M.Count("before_any_upload", 1)
				} else {
					fsx.Write("breakpointDir/good/f_0", []byte("F0"))
					fsx.Write("breakpointDir/sub/x/f_0", []byte("X0"))
					fsx.Write("fileDir/sub/y", []byte("Y"))
				}
				before := fsx.Tree(dir)
				name, sum := bad(c), "good"
				both := c.IntN(3)
				if both > 0 {
					sum = bad(c)
				}
				if both == 1 {
					name = "f"
				}
				what := ""
				var err error
				switch c.IntN(3) {
				case 0:
					what = "a chunk of"
					_, err = utils.BreakPointContinue([]byte("EVIL"), name, c.IntN(2), 2, sum)
				case 1:
					what = "finishing"
					_, err = utils.MakeFile(name, sum)
				default:
					what = "removing the chunks of"
					name, sum = "", bad(c)
					err = utils.RemoveChunk(sum)
				}
				c.Log("%s name %q digest %q: %v", what, name, sum, err)
				c.Nontrivial()
				c.Check(err != nil, "%s name %q digest %q: no error", what, name, sum)
				if d := fsx.Diff(fsx.Tree(dir), before); d != "" {
					c.Fail("%s name %q digest %q: %s", what, name, sum, d)
				}
			})
		})
		m.Cases("plain", m.N(500), func(c *mon.C) {
			// names that only look as if they led elsewhere work, and stay where they belong
			odd := []string{"f", "a.txt", "%2e%2e", "%2e%2e%2fvictim", "..%2f..%2fvictim", "%2fx", "%00", " ", "  ", "\t", "\n", ". ", " .", ".. ", " ..", "..\t", "...", "..a", "a..", "..\\victim", "..\\..\\victim", "\\x", "C:", "C:\\x", "~", "~root", "$HOME", "$(id)", "`id`", ";", "*", "?", "[a-z]", "-", "-rf", "--", "#", "&#46;&#46;", "..;", "．．", "\u2025", "\xff\xfe", "victim", "good", "f_0", "_", "0", ".hidden", "a\rb", "'", "\"", "|", "张三",
				strings.Repeat("a", 64), strings.Repeat("b", 65), strings.Repeat("c", 128), strings.Repeat("d", 129), strings.Repeat("e", 200) + ".txt", strings.Repeat("e", 200) + ".pdf", strings.Repeat("张", 70), strings.Repeat("..%2f", 40), strings.Repeat(".", 150)}
			fsx.In(c, func(dir string) {
				work := filepath.Join(dir, "a", "b", "c", "work")
				fsx.Must(os.MkdirAll(work, 0o755))
				fsx.Must(os.Chdir(work))
				for _, d := range []string{dir, dir + "/a", dir + "/a/b", dir + "/a/b/c", work, work + "/breakpointDir", work + "/breakpointDir/a good one", work + "/fileDir"} {
					fsx.Write(d+"/the victim", []byte("victim"))
					fsx.Write(d+"/the victim_0", []byte("chunk"))
				}
				name, sum := odd[c.IntN(len(odd))], odd[c.IntN(len(odd))]
				if c.IntN(3) == 0 {
					name = odd[0]
				}
				before := fsx.Tree(dir)
				same := func(what string) {
					if d := fsx.Diff(fsx.Tree(dir), before); d != "" {
						c.Fail("%s name %q digest %q: %s", what, name, sum, d)
					}
				}
				file := func(rel, data string) {
					rel = "a/b/c/work/" + rel
					before[rel] = fsx.Entry{Data: data}
					before[filepath.Dir(rel)] = fsx.Entry{Dir: true}
				}
				for i, s := range []string{"one", "two"} {
					_, err := utils.BreakPointContinue([]byte(s), name, i, 2, sum)
					c.Check(err == nil, "a chunk of name %q digest %q: %v", name, sum, err)
					file("breakpointDir/"+sum+"/"+name+"_"+strconv.Itoa(i), s)
					same("after a chunk of")
				}
				_, err := utils.MakeFile(name, sum)
				c.Log("name %q digest %q: %v", name, sum, err)
				c.Nontrivial()
				c.Check(err == nil, "finishing name %q digest %q: %v", name, sum, err)
				file("fileDir/"+name, "onetwo")
				same("after finishing")
				err = utils.RemoveChunk(sum)
				c.Check(err == nil, "removing the chunks of digest %q: %v", sum, err)
				for k := range before {
					if k == "a/b/c/work/breakpointDir/"+sum || filepath.Dir(k) == "a/b/c/work/breakpointDir/"+sum {
						delete(before, k)
					}
				}
				same("after removing the chunks of")
				c.M.Count("odd_names_used", 1)
			})
		})
	})
}
