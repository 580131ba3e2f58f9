package c35

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

var parts = []string{"a", "b", "c.txt", "d", "张三", "with space", ".hidden", "x.tar.gz", "a b", "*", "-rf"}

type world struct {
	c    *mon.C
	dir  string
	root map[string]fsx.Entry // what the tree should be
}

func (w *world) path(depth int) string {
	p := parts[w.c.IntN(len(parts))]
	for w.c.IntN(3) > 0 && depth > 0 {
		p += "/" + parts[w.c.IntN(len(parts))]
		depth--
	}
	return p
}

// some draws a path, preferring one that exists.
func (w *world) some(files, dirs bool) string {
	var ks []string
	for k, e := range w.root {
		if e.Dir && dirs || !e.Dir && files {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(ks) == 0 || w.c.IntN(8) == 0 {
		return w.path(3)
	}
	return ks[w.c.IntN(len(ks))]
}

// spell writes a path in one of several ways.
func (w *world) spell(p string) string {
	switch w.c.IntN(5) {
	case 0:
		return w.dir + "/" + p
	case 1:
		return "./" + p
	}
	return p
}

// under reports whether a parent of p is missing, a file or a link.
func (w *world) parents(p string) (missing, blocked bool) {
	for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
		e, ok := w.root[d]
		if !ok {
			missing = true
		} else if !e.Dir {
			return false, true
		}
	}
	return missing, false
}

func (w *world) mkParents(p string) {
	for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
		w.root[d] = fsx.Entry{Dir: true}
	}
}

func (w *world) children(p string) []string {
	var out []string
	for k := range w.root {
		if strings.HasPrefix(k, p+"/") {
			out = append(out, k)
		}
	}
	return out
}

func (w *world) isLink(p string) bool {
	return !w.root[p].Dir && w.root[p].Mode&os.ModeSymlink != 0
}

func TestProp(t *testing.T) {
	syscall.Umask(0o022)
	mon.Run(t, "C35", "seeded histories of copies, moves, deletions, directory creations and listings on a scratch tree against a model, the whole tree compared after every call, all predicates asked; non-trivial = a copy over an existing file and a move of a directory", func(m *mon.M) {
		m.Cases("history", m.N(220), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				w := &world{c: c, dir: dir}
				for i, n := 0, 2+c.IntN(10); i < n; i++ {
					p := w.path(3)
					switch c.IntN(3) {
					case 0:
						os.MkdirAll(p, 0o755)
					default:
						if os.MkdirAll(filepath.Dir(p), 0o755) == nil {
							os.WriteFile(p, fsx.Bytes(c), 0o644)
						}
					}
				}
				if c.IntN(2) == 0 {
					os.Symlink(mon.Pick(c.Rand, "a", "nowhere", ".", dir+"/d"), "link")
				}
				w.root = fsx.Tree(".")
				over, moved := 0, 0
				still := c.IntN(3) == 0 // times tell nothing
				for s := 0; s < 25; s++ {
					if still {
						fsx.Freeze(".")
					}
					what := ""
					switch c.IntN(10) {
					case 0, 1, 2:
						what = w.copy(&over)
					case 3, 4, 5:
						what = w.move(&moved)
					case 6:
						p := w.some(true, true)
						what = fmt.Sprintf("delete %q", p)
						if _, blocked := w.parents(p); blocked {
							continue
						}
						err := utils.DeLFile(w.spell(p))
						c.Check(err == nil, "%s: %v", what, err)
						for _, k := range append(w.children(p), p) {
							delete(w.root, k)
						}
					case 7:
						p := w.some(true, true)
						if c.IntN(2) == 0 {
							p = w.path(3)
						}
						what = fmt.Sprintf("make directory %q", p)
						e, ok := w.root[p]
						_, blocked := w.parents(p)
						var err error
						if w.isLink(p) {
							continue
						}
						if c.IntN(2) == 0 {
							err = utils.MkDir(w.spell(p))
						} else {
							q := w.some(false, true)
							if _, ok := w.root[q]; !ok || !w.root[q].Dir {
								q = p
							}
							err = utils.CreateDir(w.spell(q), w.spell(p))
						}
						bad := ok && !e.Dir || blocked
						c.Check((err != nil) == bad, "%s (in the way: %v): %v", what, bad, err)
						if !bad {
							w.root[p] = fsx.Entry{Dir: true}
							w.mkParents(p)
						}
					case 8:
						what = w.scan()
					default:
						p := w.some(true, true)
						if c.IntN(3) == 0 {
							p = "link"
						}
						if _, blocked := w.parents(p); !blocked {
							w.ask(p)
						}
						continue
					}
					c.Log("%s", what)
					c.M.Count("calls", 1)
					now := fsx.Tree(".")
					if d := fsx.Diff(now, w.root); d != "" {
						c.Fail("after %s: %s", what, d)
						return
					}
					w.root = now
				}
				c.M.Count("copies_over_a_file", over)
				c.M.Count("moved_directories", moved)
				if over > 0 && moved > 0 {
					c.Nontrivial()
				}
				c.Check(fsx.Descriptors() < 60, "%d files are still open", fsx.Descriptors())
			})
		})
		m.Cases("unreadable", 4, func(c *mon.C) {
			if os.Getuid() == 0 {
				return
			}
			fsx.In(c, func(dir string) {
				fsx.Write("d/a", []byte("a"))
				fsx.Write("d/s/b", []byte("b"))
				fsx.Write("f", []byte("secret"))
				fsx.Must(os.Chmod("d/s", 0))
				fsx.Must(os.Chmod("f", 0))
				c.Nontrivial()
				c.Log("unreadable %d", c.Idx)
				switch c.Idx {
				case 0:
					fs, err := utils.ScanDir("d")
					c.Check(err != nil, "listing a tree with an unreadable directory gives %q and no error", fs)
				case 1:
					_, err := utils.CopyFile("g", "f")
					c.Check(err != nil, "copying an unreadable file: no error")
				case 2:
					_, err := utils.FileMd5("f")
					c.Check(err != nil, "digest of an unreadable file: no error")
				case 3:
					_, err := utils.CopyFile("f", "d/a")
					c.Check(err != nil, "copying onto a file that cannot be written: no error")
				}
			})
		})
		m.Cases("gone", 8, func(c *mon.C) {
			// names in a working directory that is no longer there mean nothing
			fsx.In(c, func(dir string) {
				fsx.Write("was/a", []byte("a"))
				fsx.Write("b", []byte("b"))
				fsx.Must(os.Chdir("was"))
				fsx.Must(os.RemoveAll(dir + "/was"))
				defer os.Chdir(dir)
				before := fsx.Tree(dir)
				what, err := "", error(nil)
				switch c.Idx {
				case 0:
					what, err = "moving a", utils.FileMove("a", "c")
				case 1:
					what, err = "moving to a", utils.FileMove(dir+"/b", "c")
				case 2:
					what, err = "moving a", utils.FileMove("a", dir+"/c")
				case 3:
					_, err = utils.CopyFile(dir+"/c", "a")
					what = "copying a"
				case 4:
					_, err = utils.CopyFile("c", dir+"/b")
					what = "copying to c"
				case 5:
					what, err = "creating d", utils.CreateDir("d")
				case 6:
					what, err = "making d", utils.MkDir("d/e")
				case 7:
					_, err = utils.FileMd5("a")
					what = "digest of a"
				}
				c.Log("%s: %v", what, err)
				c.Nontrivial()
				c.Check(err != nil, "%s in a working directory that is gone: no error", what)
				c.Check(!utils.FileExist("a") && !utils.IsDir("a") && !utils.IsFile("a"), "a, in a working directory that is gone, is there")
				if d := fsx.Diff(fsx.Tree(dir), before); d != "" && what != "moving a" {
					c.Fail("%s in a working directory that is gone: %s", what, d)
				}
			})
		})
		m.Cases("again", m.N(60), func(c *mon.C) {
			// the same calls on the same paths, with changes in between that no time
			// and no length tells
			fsx.In(c, func(dir string) {
				w := &world{c: c, dir: dir}
				p := "r"
				for d := 1 + c.IntN(4); d > 0; d-- {
					p += "/" + parts[c.IntN(len(parts))]
				}
				fsx.Must(os.MkdirAll(p, 0o755))
				root := mon.Pick(c.Rand, "r", dir+"/r", "r/", filepath.Dir(p), p)
				for i := 0; i < 12; i++ {
					what := ""
					f := fmt.Sprintf("%s/f%d", p, c.IntN(3))
					switch c.IntN(6) {
					case 0:
						what = "writing " + f
						fsx.Write(f, []byte("one"))
					case 1:
						what = "removing " + f
						os.Remove(f)
					case 2:
						what = "making and deleting a directory"
						c.Check(utils.CreateDir(f+".d/e", f+".e") == nil && utils.MkDir(f+".d/g") == nil, "making directories the %d. time", i)
						c.Check(utils.IsDir(f+".d/e") && utils.IsDir(f+".d/g") && utils.IsDir(f+".e"), "directories made the %d. time are not there", i)
						c.Check(utils.DeLFile(f+".d") == nil && utils.DeLFile(f+".e") == nil && !utils.FileIsExisted(f+".d") && !utils.FileIsExisted(f+".e"), "directories deleted the %d. time are there", i)
					case 3:
						what = "copying over " + f
						fsx.Write("src", []byte(mon.Pick(c.Rand, "one", "two")))
						fsx.Freeze("src")
						b, _ := os.ReadFile("src")
						n, err := utils.CopyFile(f, "src")
						got, _ := os.ReadFile(f)
						c.Check(err == nil && n == 3 && string(got) == string(b), "copying %q over a file the %d. time: %v, %q", b, i, err, got)
						os.Remove("src")
					case 4:
						what = "moving to " + f
						fsx.Write("src", []byte("two"))
						c.Check(utils.FileMove("src", f) == nil && utils.FileIsExisted(f) && !utils.FileExist("src"), "moving the %d. time", i)
					case 5:
						what = "making it a directory"
						os.Remove(f)
						fsx.Must(os.Mkdir(f, 0o755))
						ok, err := utils.PathExists(f)
						c.Check(ok && err == nil && utils.IsDir(f) && !utils.IsFile(f) && !utils.FileExist(f), "a directory that was a file before is taken for one")
						fsx.Must(os.Remove(f))
						ok, err = utils.PathExists(f)
						c.Check(!ok && err == nil && !utils.IsDir(f) && !utils.FileIsExisted(f), "a directory that was removed is taken for one")
					}
					fsx.Freeze(".")
					c.Log("%s", what)
					w.root = fsx.Tree(".")
					_, isFile := w.root[f]
					c.Check(utils.FileIsExisted(f) == isFile && utils.FileExist(f) == isFile && utils.IsFile(f) == isFile, "after %s the predicates do not agree with the file system", what)
					var want, have []string
					r, _ := filepath.Abs(root)
					r, _ = filepath.Rel(dir, r)
					for k, e := range w.root {
						if !e.Dir && strings.HasPrefix(k, r+"/") {
							want = append(want, k)
						}
					}
					got, err := utils.ScanDir(root)
					c.Check(err == nil, "listing %q the %d. time: %v", root, i, err)
					for _, g := range got {
						g, _ = filepath.Abs(g)
						g, _ = filepath.Rel(dir, g)
						have = append(have, g)
					}
					sort.Strings(want)
					sort.Strings(have)
					c.Check(fmt.Sprintf("%q", want) == fmt.Sprintf("%q", have), "listing %q after %s gives %q, want %q", root, what, have, want)
				}
				c.M.Count("again", 12)
				c.Nontrivial()
			})
		})
		m.Cases("itself", m.N(60), func(c *mon.C) {
			// a file copied or moved onto itself, however it is spelled
			fsx.In(c, func(dir string) {
				data := fsx.Bytes(c)
				fsx.Write("d/f", data)
				fsx.Write("d/other", []byte("other"))
				fsx.Must(os.Symlink("f", "d/sym"))
				fsx.Must(os.Symlink("d", "e"))
				fsx.Must(os.Link("d/f", "d/hard"))
				names := []string{"d/f", "./d/f", dir + "/d/f", "d/../d/f", "d/sym", "e/f", "e/sym", "d/hard", "d//f"}
				src, dst := mon.Pick(c.Rand, names...), mon.Pick(c.Rand, names...)
				what := fmt.Sprintf("copying %d bytes from %q to %q, the same file", len(data), src, dst)
				_, err := utils.CopyFile(dst, src)
				c.Log("%s: %v", what, err)
				c.Nontrivial()
				for _, n := range names {
					b, rerr := os.ReadFile(n)
					c.Check(rerr == nil && string(b) == string(data), "%s (%v): %q holds %s, want %s", what, err, n, fsx.Short(string(b)), fsx.Short(string(data)))
				}
				// a copy through a link goes to what it leads to or takes its place
				next := fsx.Bytes(c)
				fsx.Write("src", next)
				_, err = utils.CopyFile("d/sym", "src")
				b, _ := os.ReadFile("d/sym")
				c.Check(err == nil && string(b) == string(next), "copying over a link: %v, it holds %s, want %s", err, fsx.Short(string(b)), fsx.Short(string(next)))
				// taking a link away leaves what it led to
				err = utils.DeLFile("e")
				_, rerr := os.Stat("d/other")
				c.Check(err == nil && rerr == nil && !utils.FileIsExisted("e"), "deleting a link: %v, %v", err, rerr)
				c.M.Count("copies_onto_itself", 1)
			})
		})
		m.Cases("locked", m.N(60), func(c *mon.C) {
			if os.Getuid() == 0 {
				return
			}
			// a place where nothing can be changed, or not even looked at
			fsx.In(c, func(dir string) {
				fsx.Write("d/a", []byte("a"))
				fsx.Write("d/s/b", []byte("b"))
				fsx.Write("free", []byte("free"))
				fsx.Write("tree/x/y", []byte("y"))
				before := fsx.Tree(".")
				mode := mon.Pick[os.FileMode](c.Rand, 0o555, 0o444, 0)
				fsx.Must(os.Chmod("d", mode))
				var err error
				what := ""
				switch c.Idx % 9 {
				case 0:
					what = "making a directory in it"
					err = utils.MkDir("d/new/deep")
				case 1:
					what = "making directories, one of them in it"
					err = utils.CreateDir("tree/x", "d/new", "tree")
				case 2:
					what = "moving a file out of it"
					err = utils.FileMove("d/a", "tree/a")
				case 3:
					what = "moving a file into it"
					err = utils.FileMove("free", mon.Pick(c.Rand, "d/free", "d/new/free", "d/a"))
				case 4:
					what = "moving a tree into it"
					err = utils.FileMove("tree", "d/tree")
				case 5:
					what = "deleting what is in it"
					err = utils.DeLFile(mon.Pick(c.Rand, "d/a", "d/s/b", "d/s"))
					if mode == 0o555 && err == nil { // d/s/b alone can go
						before["d/s/b"] = fsx.Tree("d/s")["b"]
						if _, e := os.Lstat("d/s/b"); os.IsNotExist(e) {
							delete(before, "d/s/b")
							err = fmt.Errorf("none needed")
						}
					}
				case 6:
					what = "copying into it"
					_, err = utils.CopyFile("d/new", "free")
				case 7:
					what = "asking about a path below it"
					if mode == 0o555 {
						mode = 0
						fsx.Must(os.Chmod("d", mode))
					}
					var ok bool
					ok, err = utils.PathExists("d/s")
					c.Check(!ok, "a path that cannot be looked at exists, says PathExists")
					c.Check(!utils.IsDir("d/s") && !utils.IsFile("d/a"), "a path that cannot be looked at is a directory or a file")
				case 8:
					what = "moving it away and deleting in one that is locked"
					c.Check(utils.FileMove("d", "moved") == nil, "moving a locked directory")
					fsx.Must(os.Rename("moved", "d"))
					err = utils.DeLFile("d")
					if err == nil {
						_, e := os.Lstat("d")
						c.Check(os.IsNotExist(e), "deleting a locked directory: no error and it is there")
						return
					}
					fsx.Must(os.Chmod("d", 0o755)) // what was below may be gone in part
					c.Log("%s", what)
					return
				}
				c.Log("%s (mode %o): %v", what, mode, err)
				c.Nontrivial()
				c.Check(err != nil, "%s (mode %o): no error", what, mode)
				fsx.Must(os.Chmod("d", 0o755))
				now := fsx.Tree(".")
				for k, e := range before {
					g, ok := now[k]
					if !ok && c.Idx%9 == 5 && strings.HasPrefix(k, "d/s/") {
						continue // below a directory that could not go itself
					}
					c.Check(ok && g.Dir == e.Dir && g.Data == e.Data, "%s (mode %o) failed and %q is not as it was", what, mode, k)
				}
				c.M.Count("locked_places", 1)
			})
		})
		m.Cases("large", m.N(3), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				b := fsx.Big(c, c.Idx)
				fsx.Write("a", b)
				n, err := utils.CopyFile("b", "a")
				c.Log("%d bytes: %d, %v", len(b), n, err)
				c.Check(err == nil && n == int64(len(b)), "copying %d bytes: %d, %v", len(b), n, err)
				got, _ := os.ReadFile("b")
				c.Check(bytes.Equal(got, b), "a copy of %d bytes has %d other ones", len(b), len(got))
				c.Check(utils.FileMove("b", "d/c") == nil, "moving a large file")
				got, _ = os.ReadFile("d/c")
				c.Check(bytes.Equal(got, b), "a file of %d bytes that was moved has %d other ones", len(b), len(got))
				fsx.Write("a", b[:len(b)/2])
				n, err = utils.CopyFile("d/c", "a")
				got, _ = os.ReadFile("d/c")
				c.Check(err == nil && n == int64(len(b)/2) && bytes.Equal(got, b[:len(b)/2]), "copying %d bytes over %d: %d, %v, %d bytes there", len(b)/2, len(b), n, err, len(got))
				c.M.Count("large_bytes", len(b))
				c.Nontrivial()
			})
		})
		m.Cases("many", m.N(2), func(c *mon.C) {
			// directories of many entries and deep ones
			fsx.In(c, func(dir string) {
				want := map[string]bool{}
				for i, n := 0, []int{1000 + c.IntN(3000), 11000}[c.Idx%2]; i < n; i++ {
					p := fmt.Sprintf("big/%d", i)
					fsx.Write(p, nil)
					want[p] = true
				}
				p := "big/deep"
				for i, n := 0, []int{20 + c.IntN(80), 300 + c.IntN(900)}[c.Idx%2]; i < n; i++ {
					p += fmt.Sprint("/", i%7)
					if i%5 == 0 {
						fsx.Write(p+"/f", nil)
						want[p+"/f"] = true
					}
				}
				fsx.Must(os.MkdirAll(p, 0o755))
				got, err := utils.ScanDir("big")
				c.Log("%d files: %d, %v", len(want), len(got), err)
				c.Nontrivial()
				c.Check(err == nil && len(got) == len(want), "%d files, %d listed: %v", len(want), len(got), err)
				for _, g := range got {
					c.Check(want[g], "%q is listed twice or does not exist", g)
					delete(want, g)
				}
				c.Check(utils.FileMove("big", "new/place/big") == nil, "moving a large tree")
				got2, _ := utils.ScanDir("new/place/big")
				c.Check(len(got2) == len(got), "%d files moved, %d there", len(got), len(got2))
				c.Check(utils.DeLFile("new") == nil && !utils.FileIsExisted("new"), "deleting a large tree")
			})
		})
		m.Cases("pipes", m.N(30), func(c *mon.C) {
			// what comes from or goes to a pipe or a device arrives whole
			fsx.In(c, func(dir string) {
				data := fsx.Bytes(c)
				for i := c.IntN(3); i > 0; i-- {
					data = append(data, fsx.Bytes(c)...)
				}
				fsx.Write("f", data)
				fsx.Must(syscall.Mkfifo("p", 0o600))
				var got []byte
				var n int64
				var err error
				done := make(chan struct{})
				var what string
				c.Nontrivial()
				switch c.Idx % 3 {
				case 0:
					what = "copying to a pipe"
					go func() { got, _ = os.ReadFile("p"); close(done) }()
					n, err = utils.CopyFile("p", "f")
					c.Check(err == nil, "%s: %v", what, err)
					<-done
				case 1:
					what = "copying from a pipe"
					fsx.Write("g", bytes.Repeat([]byte("old"), c.IntN(3000)))
					go func() { os.WriteFile("p", data, 0); close(done) }()
					n, err = utils.CopyFile("g", "p")
					c.Check(err == nil, "%s: %v", what, err)
					<-done
					got, _ = os.ReadFile("g")
				case 2:
					what = "copying to the null device"
					n, err = utils.CopyFile(os.DevNull, "f")
					got = data
				}
				c.Log("%s: %d bytes, %v", what, n, err)
				c.Check(err == nil && n == int64(len(data)), "%s: %d of %d bytes, %v", what, n, len(data), err)
				c.Check(bytes.Equal(got, data), "%s: %s arrived, want %s", what, fsx.Short(string(got)), fsx.Short(string(data)))
				c.M.Count("copies_through_pipes", 1)
			})
		})
		m.Cases("devices", m.N(40), func(c *mon.C) {
			// a move to another file system arrives whole or leaves all as it was
			fsx.In(c, func(dir string) {
				shm, err := os.MkdirTemp("/dev/shm", "verif-c35-")
				if err != nil {
					return
				}
				defer os.RemoveAll(shm)
				var s1, s2 syscall.Stat_t
				if syscall.Stat(shm, &s1) != nil || syscall.Stat(dir, &s2) != nil || s1.Dev == s2.Dev {
					return
				}
				fsx.Write("t/f", fsx.Bytes(c))
				fsx.Write("t/d/g", fsx.Bytes(c))
				fsx.Must(os.Symlink("f", "t/l"))
				src := mon.Pick(c.Rand, "t", "t/f", "t/d")
				was := fsx.Tree(src)
				data, _ := os.ReadFile(src)
				before := fsx.Tree("t")
				dst := mon.Pick(c.Rand, shm+"/x", shm+"/p/q/x")
				err = utils.FileMove(src, dst)
				c.Log("moving %q to another file system: %v", src, err)
				c.Nontrivial()
				c.M.Count("moves_across_devices", 1)
				if err != nil {
					if d := fsx.Diff(fsx.Tree("t"), before); d != "" {
						c.Fail("a refused move to another file system (%v): %s", err, d)
					}
					return
				}
				if d := fsx.Diff(fsx.Tree(dst), was); d != "" {
					c.Fail("after a move to another file system: %s", d)
				}
				b, _ := os.ReadFile(dst)
				c.Check(string(b) == string(data), "after a move to another file system %q holds %s, want %s", src, fsx.Short(string(b)), fsx.Short(string(data)))
				_, lerr := os.Lstat(src)
				c.Check(os.IsNotExist(lerr), "after a move to another file system %q is still there", src)
			})
		})
	})
}

func (w *world) copy(over *int) string {
	c := w.c
	src, dst := w.some(true, false), w.some(true, true)
	if c.IntN(8) == 0 {
		dst = src
	}
	what := fmt.Sprintf("copy %q to %q", src, dst)
	if w.isLink(src) || w.isLink(dst) {
		return "nothing"
	}
	e, ok := w.root[src]
	d, has := w.root[dst]
	n, err := utils.CopyFile(w.spell(dst), w.spell(src))
	if !ok {
		c.Check(err != nil, "%s, which does not exist: no error", what)
		return what
	}
	missing, blocked := w.parents(dst)
	if missing || blocked || has && d.Dir {
		c.Check(err != nil, "%s, which cannot be: no error", what)
		return what
	}
	if e.Dir {
		c.Check(err != nil, "%s, a directory: no error", what)
		if !has { // an empty file may be left
			os.Remove(dst)
			return what
		}
		w.root[dst] = fsx.Tree(".")[dst]
		return what
	}
	c.Check(err == nil && n == int64(len(e.Data)), "%s of %d bytes: %d, %v", what, len(e.Data), n, err)
	if has && dst != src {
		*over++
	}
	w.root[dst] = fsx.Entry{Data: e.Data}
	return fmt.Sprintf("%s (%d bytes over %d)", what, len(e.Data), len(d.Data))
}

func (w *world) move(moved *int) string {
	c := w.c
	src, dst := w.some(true, true), w.some(true, true)
	if c.IntN(2) == 0 {
		dst = w.path(3)
	}
	what := fmt.Sprintf("move %q to %q", src, dst)
	if c.IntN(20) == 0 {
		c.Check(utils.FileMove(w.spell(src), "") == nil, "moving to nowhere failed")
		return "move to nowhere"
	}
	if w.isLink(src) || w.isLink(dst) {
		return "nothing"
	}
	e, ok := w.root[src]
	d, has := w.root[dst]
	_, blocked := w.parents(dst)
	err := utils.FileMove(w.spell(src), w.spell(dst))
	if blocked {
		c.Check(err != nil, "%s, below a file: no error", what)
		return what
	}
	w.mkParents(dst)
	switch {
	case !ok:
		c.Check(err != nil, "%s, which does not exist: no error", what)
		return what
	case src == dst:
		if err != nil { // renaming a directory onto itself may be refused
			c.Check(e.Dir, "%s: %v", what, err)
		}
		return what
	case strings.HasPrefix(dst, src+"/"), has && d.Dir != e.Dir, has && d.Dir:
		if has && d.Dir && e.Dir && len(w.children(dst)) == 0 && !strings.HasPrefix(dst, src+"/") && err == nil {
			break // an empty directory may be replaced
		}
		c.Check(err != nil, "%s, which cannot be: no error", what)
		return what
	}
	c.Check(err == nil, "%s: %v", what, err)
	for _, k := range append(w.children(src), src) {
		w.root[dst+k[len(src):]] = w.root[k]
		delete(w.root, k)
	}
	if e.Dir {
		*moved++
	}
	return what
}

func (w *world) scan() string {
	c := w.c
	p := w.some(false, true)
	if c.IntN(4) == 0 {
		p = "."
	}
	e, ok := w.root[p]
	sp := p
	if p != "." {
		sp = w.spell(p)
	}
	what := fmt.Sprintf("list %q", sp)
	if w.isLink(p) {
		return what
	}
	if c.IntN(3) == 0 {
		sp += "/"
	}
	got, err := utils.ScanDir(sp)
	if p != "." && (!ok || !e.Dir) {
		c.Check(err != nil, "%s, which is no directory: %q and no error", what, got)
		return what
	}
	c.Check(err == nil, "%s: %v", what, err)
	var want, have []string
	for k, e := range w.root {
		if !e.Dir && (p == "." || strings.HasPrefix(k, p+"/")) {
			want = append(want, k)
		}
	}
	for _, g := range got {
		abs, _ := filepath.Abs(g)
		rel, _ := filepath.Rel(w.dir, abs)
		have = append(have, rel)
	}
	sort.Strings(want)
	sort.Strings(have)
	c.Check(fmt.Sprintf("%q", want) == fmt.Sprintf("%q", have), "%s gives %q, want %q", what, have, want)
	return what
}

// ask compares the predicates with the file system.
func (w *world) ask(p string) {
	c := w.c
	sp := w.spell(p)
	l, lerr := os.Lstat(sp)
	s, serr := os.Stat(sp)
	isDir := serr == nil && s.IsDir()
	kind := fmt.Sprintf("%q (exists %v, directory %v, link %v)", p, serr == nil, isDir, lerr == nil && l.Mode()&os.ModeSymlink != 0)
	c.Check(utils.IsDir(sp) == isDir, "IsDir of %s is %v", kind, !isDir)
	c.Check(utils.IsFile(sp) == (serr == nil && !isDir), "IsFile of %s is %v", kind, utils.IsFile(sp))
	c.Check(utils.FileIsExisted(sp) == (serr == nil), "FileIsExisted of %s is %v", kind, utils.FileIsExisted(sp))
	if lerr != nil || l.Mode()&os.ModeSymlink == 0 {
		c.Check(utils.FileExist(sp) == (serr == nil && !isDir), "FileExist of %s is %v", kind, utils.FileExist(sp))
	}
	ok, err := utils.PathExists(sp)
	c.Check(ok == isDir && (err != nil) == (serr == nil && !isDir), "PathExists of %s is %v, %v", kind, ok, err)
	c.M.Count("predicates_asked", 5)
}
