package c31

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

var parts = []string{"a", "b.txt", "data", "src", "张三", "with space", "x.tar.gz", ".hidden", "..two", "src2", "A", "caf\xe9", "\xff", "e\u0301", "a\u00a0b", "q'\"?*"}
var modes = []fs.FileMode{0o644, 0o600, 0o755, 0o444, 0o640, 0o700, 0o666, 0o777, 0o664, 0o622}

// tree makes seeded files below root and returns their paths (root included).
func tree(c *mon.C, root string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		p := root
		for d := c.IntN(4); d > 0; d-- {
			p += "/" + parts[c.IntN(len(parts))] + "_d"
		}
		p += "/" + parts[c.IntN(len(parts))]
		if c.IntN(2) == 0 {
			p += fmt.Sprint(i)
		}
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		b := fsx.Bytes(c)
		if n > 50 {
			b = b[:len(b)%50]
		}
		fsx.Write(p, b)
		fsx.Must(os.Chmod(p, modes[c.IntN(len(modes))]))
		out = append(out, p)
	}
	return out
}

// entries reads an archive with the standard library.
func entries(c *mon.C, name string) (map[string]string, []string) {
	r, err := zip.OpenReader(name)
	c.Check(err == nil, "the archive cannot be opened: %v", err)
	defer r.Close()
	out := map[string]string{}
	var order []string
	for _, f := range r.File {
		rc, err := f.Open()
		c.Check(err == nil, "entry %q: %v", f.Name, err)
		b, err := io.ReadAll(rc)
		c.Check(err == nil, "entry %q: %v", f.Name, err)
		rc.Close()
		_, twice := out[f.Name]
		c.Check(!twice, "entry %q is there twice", f.Name)
		out[f.Name] = string(b)
		order = append(order, f.Name)
	}
	return out, order
}

type plain struct{ io.Writer }

func (plain) Close() error { return nil }

func TestProp(t *testing.T) {
	syscall.Umask(0o022)
	mon.Run(t, "C31", "seeded file trees are zipped and unzipped (fresh and occupied destinations, replaced prefixes, many files under a small descriptor limit, archives with directories) and compared byte by byte; non-trivial = at least three files in at least two directories, or more files than descriptors", func(m *mon.M) {
		m.Cases("roundtrip", m.N(250), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				root := mon.Pick(c.Rand, "src", "up/src", dir+"/src", "./src")
				files := tree(c, root, mon.Pick(c.Rand, 0, 1, 2, 5, 12, 30))
				before := fsx.Tree(dir)
				from, to := root+"/", mon.Pick(c.Rand, "", "", "out/", "src/", "a/b/")
				switch c.IntN(8) {
				case 0:
					from, to = "", ""
				case 3: // what could mean something elsewhere means itself here
					from = mon.Pick(c.Rand, ".", "s.c/", "src.", "b.t", "x.tar", ".+", "[a-z]+", "SRC/", "*", "?*", "(", "_d|a", "\\w", "$", "^", "with s", "?")
					to = mon.Pick(c.Rand, "", "$0", "\\1", "&", "Q", "${x}", "%d")
				case 1: // what is replaced occurs more than once
					from, to = "_d/", mon.Pick(c.Rand, "_ee/", "_ee/sub/", "__")
				case 2:
					from, to = "_d", mon.Pick(c.Rand, "_ee", "")
				}
				arch := mon.Pick(c.Rand, "x.zip", "sub.zip", dir+"/y.zip")
				if c.IntN(3) == 0 { // an older, longer archive is in the way
					fsx.Write(arch, bytes.Repeat([]byte("old"), 50000))
				}
				seen := map[string]bool{} // two files under one name are no archive of both
				for _, f := range files {
					name := filepath.Clean("/" + strings.ReplaceAll(f, from, to))
					for d := filepath.Dir(name); d != "/"; d = filepath.Dir(d) {
						if seen[d] {
							from, to = "", ""
						}
					}
					seen[name] = true
				}
				for _, f := range files {
					for d := filepath.Dir(filepath.Clean("/" + strings.ReplaceAll(f, from, to))); d != "/"; d = filepath.Dir(d) {
						if seen[d] {
							from, to = "", ""
						}
					}
				}
				for _, f := range files {
					if name := strings.ReplaceAll(f, from, to); name == "" || strings.HasSuffix(name, "/") {
						from, to = "", "" // no name for a file
					}
				}
				if len(seen) < len(files) {
					from, to = "", ""
				}
				err := utils.ZipFiles(arch, files, from, to)
				c.Check(err == nil, "zipping %d files: %v", len(files), err)
				want := map[string]fsx.Entry{}
				byName := map[string]string{}
				dirs := map[string]bool{}
				for _, f := range files {
					b, err := os.ReadFile(f)
					info, _ := os.Stat(f)
					c.Check(err == nil, "reading back %q: %v", f, err)
					name := strings.ReplaceAll(f, from, to)
					if from == "" {
						name = f
					}
					byName[name] = string(b)
					rel := filepath.Clean("/" + name)[1:]
					want[rel] = fsx.Entry{Mode: info.Mode(), Data: string(b)}
					for d := filepath.Dir(rel); d != "."; d = filepath.Dir(d) {
						want[d] = fsx.Entry{Dir: true}
						dirs[d] = true
					}
				}
				got, order := entries(c, arch)
				for i, f := range files {
					name := strings.ReplaceAll(f, from, to)
					if from == "" {
						name = f
					}
					c.Check(i < len(order) && order[i] == name, "entry %d of %d is not %q", i, len(order), name)
					c.Check(got[name] == byName[name], "entry %q holds %s, want %s", name, fsx.Short(got[name]), fsx.Short(byName[name]))
				}
				c.Check(len(got) == len(byName), "%d entries for %d files", len(got), len(byName))

				dest := mon.Pick(c.Rand, "dest", "dest/", "p/q/dest", dir+"/dest", "./dest", "", ".")
				if len(order) > 0 && strings.HasPrefix(order[0], "/") && dest == "" {
					dest = "." // "" does not hold what begins with "/"
				}
				if filepath.Clean(dest) == "." { // the working directory
					fsx.Must(os.Mkdir("here", 0o755))
					fsx.Must(os.Chdir("here"))
					if !filepath.IsAbs(arch) {
						arch = "../" + arch
					}
				}
				occupied := c.IntN(3) == 0
				if occupied {
					fsx.Write(filepath.Join(dest, "kept.keep"), []byte("kept"))
					want["kept.keep"] = fsx.Entry{Data: "kept"}
					n := 0
					for rel, e := range want {
						if !e.Dir && rel != "kept.keep" && n < 3 {
							old := bytes.Repeat([]byte("longer than before "), 6000)
							switch c.IntN(4) {
							case 0: // as long as what is to come
								old = bytes.Repeat([]byte("z"), len(e.Data))
							case 1: // and alike but for a byte
								old = []byte(e.Data)
								if len(old) > 0 {
									old[c.IntN(len(old))] ^= 1
								}
							case 2:
								old = []byte(e.Data)[:len(e.Data)/2]
							}
							fsx.Write(filepath.Join(dest, rel), old)
							if c.IntN(2) == 0 { // and of another age
								when := time.Now().Add(time.Duration(c.IntN(3)-1) * 1000 * time.Hour)
								fsx.Must(os.Chtimes(filepath.Join(dest, rel), when, when))
							}
							n++
						}
					}
				}
				mask := mon.Pick(c.Rand, 0o022, 0o022, 0o077, 0o027, 0o002, 0)
				syscall.Umask(mask)
				paths, err := utils.Unzip(arch, dest)
				c.Check(syscall.Umask(0o022) == mask, "unzipping changes the umask")
				c.Log("%d files in %d directories, prefix %q -> %q, %d entries, occupied=%v", len(files), len(dirs), from, to, len(order), occupied)
				c.Check(err == nil, "unzipping %d entries: %v", len(order), err)
				if len(files) > 0 {
					now := fsx.Tree(filepath.Clean(dest))
					if d := fsx.Diff(now, want); d != "" {
						c.Fail("after unzipping %d entries: %s", len(order), d)
					}
					if !occupied {
						for rel, e := range want {
							if !e.Dir {
								c.Check(now[rel].Mode.Perm() == e.Mode.Perm()&^fs.FileMode(mask), "%q has mode %v, was zipped with %v, umask %o", rel, now[rel].Mode, e.Mode, mask)
							}
						}
					}
				}
				c.Keep("the paths of unzipped files", func() string { return strings.Join(paths, "|") })
				c.Check(len(paths) == len(order), "Unzip names %d paths for %d entries", len(paths), len(order))
				for i, p := range paths {
					c.Check(p == filepath.Join(dest, order[i]), "Unzip names %q for entry %q", p, order[i])
				}
				for k, e := range before {
					if !e.Dir {
						b, err := os.ReadFile(filepath.Join(dir, k))
						c.Check(err == nil && string(b) == e.Data, "source %q was changed", k)
					}
				}
				c.M.Count("files", len(files))
				if len(files) > 2 && len(dirs) > 1 {
					c.Nontrivial()
				}
				c.Check(fsx.Descriptors() < 60, "%d files are still open", fsx.Descriptors())
			})
		})
		m.Cases("many", m.N(4), func(c *mon.C) {
			// more files than a process may have open
			fsx.In(c, func(dir string) {
				files := tree(c, "src", 300+c.IntN(200))
				var old syscall.Rlimit
				fsx.Must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old))
				fsx.Must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 128, Max: old.Max}))
				err := utils.ZipFiles("x.zip", files, "src/", "")
				var err2 error
				var paths []string
				if err == nil {
					paths, err2 = utils.Unzip("x.zip", "dest")
				}
				fsx.Must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old))
				c.Log("%d files, 128 descriptors: %v, %v", len(files), err, err2)
				c.Nontrivial()
				c.Check(err == nil, "zipping %d files with 128 descriptors: %v", len(files), err)
				c.Check(err2 == nil && len(paths) == len(files), "unzipping %d files with 128 descriptors: %v", len(files), err2)
				if d := fsx.Diff(fsx.Tree("dest"), fsx.Tree("src")); d != "" {
					c.Fail("%d files: %s", len(files), d)
				}
			})
		})
		m.Cases("large", m.N(3), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				b := fsx.Big(c, c.Idx)
				fsx.Write("src/large", b)
				fsx.Write("src/small", []byte("small"))
				err := utils.ZipFiles("x.zip", []string{"src/large", "src/small"}, "src/", "")
				_, err2 := utils.Unzip("x.zip", "dest")
				c.Log("%d bytes: %v, %v", len(b), err, err2)
				c.Check(err == nil && err2 == nil, "zipping and unzipping %d bytes: %v, %v", len(b), err, err2)
				got, _ := os.ReadFile("dest/large")
				c.Check(bytes.Equal(got, b), "a file of %d bytes comes back as %d other ones", len(b), len(got))
				small, _ := os.ReadFile("dest/small")
				c.Check(string(small) == "small", "a small file after a large one comes back as %q", small)
				c.M.Count("large_bytes", len(b))
				c.Nontrivial()
			})
		})
		m.Cases("foreign", m.N(150), func(c *mon.C) {
			// archives made elsewhere: stored or deflated, with directory entries
			fsx.In(c, func(dir string) {
				var buf bytes.Buffer
				w := zip.NewWriter(&buf)
				want := map[string]fsx.Entry{}
				n := 1 + c.IntN(15)
				for i := 0; i < n; i++ {
					p := ""
					for d := c.IntN(3); d > 0; d-- {
						p += parts[c.IntN(len(parts))] + "_d/"
					}
					if c.IntN(3) == 0 {
						p += parts[c.IntN(len(parts))] + "_d/"
						_, err := w.Create(p)
						fsx.Must(err)
						want[strings.TrimSuffix(p, "/")] = fsx.Entry{Dir: true}
					} else {
						p += fmt.Sprint("f", i)
						b := fsx.Bytes(c)
						fw, err := w.CreateHeader(&zip.FileHeader{Name: p, Method: mon.Pick(c.Rand, zip.Store, zip.Deflate)})
						fsx.Must(err)
						fw.Write(b)
						want[p] = fsx.Entry{Data: string(b)}
					}
					for d := filepath.Dir(strings.TrimSuffix(p, "/")); d != "."; d = filepath.Dir(d) {
						want[d] = fsx.Entry{Dir: true}
					}
				}
				fsx.Must(w.Close())
				fsx.Write("x.zip", buf.Bytes())
				dest := mon.Pick(c.Rand, "dest", "dest//", "in/../dest", "./././dest", dir+"/./dest/", "", ".", "./", "../dest")
				var err error
				switch dest {
				case "", ".", "./", "../dest": // from inside
					fsx.Must(os.Mkdir("dest", 0o755))
					fsx.Must(os.Chdir("dest"))
					_, err = utils.Unzip("../x.zip", dest)
					fsx.Must(os.Chdir(dir))
				default:
					_, err = utils.Unzip("x.zip", dest)
				}
				c.Log("%d entries into %q: %v", n, dest, err)
				c.Check(err == nil, "unzipping %d entries into %q: %v", n, dest, err)
				if d := fsx.Diff(fsx.Tree("dest"), want); d != "" {
					c.Fail("an archive of %d entries: %s", n, d)
				}
				// damaged in transit: an error, never a file silently different
				b := buf.Bytes()
				if c.IntN(2) == 0 {
					b = b[:c.IntN(len(b))]
				} else {
					b[c.IntN(len(b))] ^= byte(1 + c.IntN(255))
				}
				fsx.Write("broken.zip", b)
				_, err = utils.Unzip("broken.zip", "dest2")
				c.M.Count("damaged_archives", 1)
				if err != nil {
					c.Nontrivial()
					c.M.Count("damaged_archives_refused", 1)
					return
				}
				if _, e := os.Lstat("dest2"); e == nil {
					for k, e := range fsx.Tree("dest2") {
						// a flipped bit in a name or a mode may pass; content may not
						if w, ok := want[k]; ok && !e.Dir && !w.Dir && e.Mode.IsRegular() {
							known := false
							for _, w := range want { // one name may have become another
								known = known || !w.Dir && e.Data == w.Data
							}
							c.Check(known, "a damaged archive was accepted and %q holds %s, want %s", k, fsx.Short(e.Data), fsx.Short(w.Data))
						}
					}
				}
			})
		})
		m.Cases("rewritten", m.N(30), func(c *mon.C) {
			// sources, archives and places of the same names, lengths and ages again and again
			fsx.In(c, func(dir string) {
				for i := 0; i < 3; i++ {
					fsx.Write(fmt.Sprintf("src/f%d", i), fsx.Dress(c, bytes.Repeat([]byte("x"), 1+c.IntN(3000))))
				}
				files := []string{"src/f0", "src/f1", "src/f2"}
				dest := mon.Pick(c.Rand, "dest", dir+"/dest")
				for i := 0; i < 5; i++ {
					for _, f := range files {
						if c.IntN(3) > 0 {
							fsx.Again(c, f)
						}
					}
					fsx.Freeze("src")
					err := utils.ZipFiles("x.zip", files, "src/", "")
					fsx.Freeze(".")
					_, err2 := utils.Unzip("x.zip", dest)
					fsx.Freeze(".")
					c.Log("%v %v", err, err2)
					c.Check(err == nil && err2 == nil, "zipping and unzipping the %d. time: %v, %v", i, err, err2)
					if d := fsx.Diff(fsx.Tree("dest"), fsx.Tree("src")); d != "" {
						c.Fail("zipping and unzipping the %d. time: %s", i, d)
					}
					switch c.IntN(4) {
					case 0:
						fsx.Must(os.RemoveAll("dest"))
					case 1:
						fsx.Must(os.Remove("dest/f1"))
					case 2:
						fsx.Again(c, "dest/f0")
					}
				}
				c.M.Count("rewritten", 5)
				c.Nontrivial()
			})
		})
		m.Cases("errors", 11, func(c *mon.C) {
			fsx.In(c, func(dir string) {
				fsx.Write("a", []byte("a"))
				fsx.Write("dest/a/inner", []byte("a"))
				c.Nontrivial()
				var err error
				what := ""
				switch c.Idx {
				case 0:
					what = "zipping a missing file"
					err = utils.ZipFiles("x.zip", []string{"a", "missing"}, "", "")
				case 1:
					what = "zipping into a missing directory"
					err = utils.ZipFiles("no/x.zip", []string{"a"}, "", "")
				case 2:
					what = "unzipping a missing archive"
					_, err = utils.Unzip("no.zip", "dest")
				case 3:
					what = "unzipping something that is no archive"
					_, err = utils.Unzip("a", "dest")
				case 4:
					what = "unzipping a file over a directory"
					c.Check(utils.ZipFiles("x.zip", []string{"a"}, "", "") == nil, "zipping")
					_, err = utils.Unzip("x.zip", "dest")
				case 5:
					what = "unzipping a directory over a file"
					fsx.Write("d/f/x", []byte("a"))
					c.Check(utils.ZipFiles("x.zip", []string{"d/f/x"}, "d/", "") == nil, "zipping")
					fsx.Write("dest/f", []byte("in the way"))
					_, err = utils.Unzip("x.zip", "dest")
				case 6, 7, 8:
					var buf bytes.Buffer
					w := zip.NewWriter(&buf)
					fw, _ := w.Create("first")
					fw.Write([]byte("first"))
					switch c.Idx {
					case 6:
						what = "unzipping an empty directory over a file"
						w.Create("d/")
						fsx.Write("dest/d", []byte("in the way"))
					case 7:
						what = "unzipping an entry packed in an unknown way"
						w.RegisterCompressor(77, func(w io.Writer) (io.WriteCloser, error) { return plain{w}, nil })
						fw, _ = w.CreateHeader(&zip.FileHeader{Name: "odd", Method: 77})
						fw.Write([]byte("odd"))
					case 8:
						what = "unzipping below a file"
						w.Create("d/e/f/")
						fsx.Write("dest/d", []byte("in the way"))
					}
					fsx.Must(w.Close())
					fsx.Write("x.zip", buf.Bytes())
					_, err = utils.Unzip("x.zip", "dest")
				case 9, 10:
					what = "unzipping an archive whose entry has lost its head"
					fsx.Write("b", bytes.Repeat([]byte("b"), 100))
					c.Check(utils.ZipFiles("x.zip", []string{"a", "b"}, "", "") == nil, "zipping")
					b, _ := os.ReadFile("x.zip")
					at := 0
					if c.Idx == 10 {
						at = bytes.LastIndex(b, []byte("PK\x03\x04"))
					}
					b[at]++
					fsx.Write("x.zip", b)
					fsx.Must(os.RemoveAll("dest"))
					_, err = utils.Unzip("x.zip", "dest")
				}
				c.Log("%s: %v", what, err)
				c.Check(err != nil, "%s: no error", what)
			})
		})
		m.Cases("crowd", m.N(3), func(c *mon.C) {
			// thousands of entries; more than 16 bits count, most of them directories
			fsx.In(c, func(dir string) {
				n := []int{6000, 11000, 66000}[c.Idx%3]
				if n > 60000 {
					f, err := os.Create("x.zip")
					fsx.Must(err)
					w := zip.NewWriter(f)
					want := map[string]fsx.Entry{}
					for i := 0; i < n; i++ {
						d := fmt.Sprintf("d%d/", i%300)
						want[d[:len(d)-1]] = fsx.Entry{Dir: true}
						if i%100 == 99 {
							d += fmt.Sprint(i)
							want[d] = fsx.Entry{Data: d}
						}
						e, err := w.Create(d)
						fsx.Must(err)
						if i%100 == 99 {
							e.Write([]byte(d))
						}
					}
					fsx.Must(w.Close())
					fsx.Must(f.Close())
					_, err = utils.Unzip("x.zip", "dest")
					c.Log("%d entries: %v", n, err)
					c.Check(err == nil, "unzipping %d entries: %v", n, err)
					if d := fsx.Diff(fsx.Tree("dest"), want); d != "" {
						c.Fail("%d entries: %s", n, d)
					}
				} else {
					var files []string
					for i := 0; i < n; i++ {
						p := fmt.Sprintf("src/%d/%d", i%10, i)
						fsx.Write(p, []byte(p))
						files = append(files, p)
					}
					err := utils.ZipFiles("x.zip", files, "src/", "")
					paths, err2 := utils.Unzip("x.zip", "dest")
					c.Log("%d files: %v, %v", n, err, err2)
					c.Check(err == nil && err2 == nil && len(paths) == n, "zipping and unzipping %d files: %v, %v, %d paths", n, err, err2, len(paths))
					if d := fsx.Diff(fsx.Tree("dest"), fsx.Tree("src")); d != "" {
						c.Fail("%d files: %s", n, d)
					}
				}
				c.M.Peak("most_entries", n)
				c.Nontrivial()
			})
		})
	})
}
