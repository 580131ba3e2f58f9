// Package fsx gives cases a scratch directory and reads whole file trees.
package fsx

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/mon"
)

// In runs f with a fresh scratch directory as the working directory. While f
// runs nothing is collected, so that a file left open stays open: in the end no
// more files may be open than in the beginning.
func In(c *mon.C, f func(dir string)) {
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	dir, err := os.MkdirTemp(base, "case")
	must(err)
	dir, err = filepath.EvalSymlinks(dir)
	must(err)
	old, err := os.Getwd()
	must(err)
	must(os.Chdir(dir))
	defer func() {
		os.Chdir(old)
		filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err == nil && d.IsDir() {
				os.Chmod(p, 0o755)
			}
			return nil
		})
		os.RemoveAll(dir)
	}()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	before := open()
	f(dir)
	for fd, what := range open() {
		if before[fd] != what && !strings.HasPrefix(what, "anon_inode:") {
			c.Fail("%s was left open", strings.Replace(what, dir, "...", 1))
		}
	}
}

// open reads what every descriptor of the process leads to.
func open() map[string]string {
	d, err := os.ReadDir("/proc/self/fd")
	must(err)
	out := map[string]string{}
	for _, e := range d {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			out[e.Name()] = l
		}
	}
	return out
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprint("scratch directory: ", err))
	}
}

// Must stops the harness on an error of its own.
func Must(err error) { must(err) }

// Write makes a file with its parents.
func Write(path string, data []byte) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, data, 0o644))
}

// Entry is one thing in a tree.
type Entry struct {
	Dir  bool
	Mode fs.FileMode
	Data string // content of a file, target of a link
}

// Tree reads everything below root, by relative path.
func Tree(root string) map[string]Entry {
	out := map[string]Entry{}
	must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if rel == "." {
			return nil
		}
		info, err := d.Info()
		if err != nil {
			return err
		}
		e := Entry{Dir: d.IsDir(), Mode: info.Mode()}
		switch {
		case d.IsDir():
		case info.Mode()&fs.ModeSymlink != 0:
			e.Data, _ = os.Readlink(p)
		case info.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if errors.Is(err, fs.ErrPermission) && os.Chmod(p, 0o600) == nil { // a file of ours that may not be read
				b, err = os.ReadFile(p)
				must(os.Chmod(p, info.Mode()))
			}
			if err != nil {
				return err
			}
			e.Data = string(b)
		}
		out[rel] = e
		return nil
	}))
	return out
}

// Diff names the first difference in kinds and contents of two trees.
func Diff(got, want map[string]Entry) string {
	var names []string
	for k := range got {
		names = append(names, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	for _, k := range names {
		g, ok := got[k]
		w, has := want[k]
		switch {
		case !ok:
			return fmt.Sprintf("%q is missing", k)
		case !has:
			return fmt.Sprintf("%q should not be there", k)
		case g.Dir != w.Dir:
			return fmt.Sprintf("%q: directory %v, want %v", k, g.Dir, w.Dir)
		case g.Data != w.Data:
			return fmt.Sprintf("%q holds %s, want %s", k, Short(g.Data), Short(w.Data))
		}
	}
	return ""
}

// Short shows a content.
func Short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q... (%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Bytes draws a content: empty, text, binary, repetitive or large.
func Bytes(c *mon.C) []byte {
	n := mon.Pick(c.Rand, 0, 1, 2, c.IntN(100), c.IntN(5000), 4096, 32768, 32769, c.IntN(100000))
	b := make([]byte, n)
	switch c.IntN(3) {
	case 0:
		for i := range b {
			b[i] = byte(c.Uint32())
		}
	case 1:
		for i := range b {
			b[i] = "line of text\r\n\x00\xff"[i%16]
		}
	default:
		k := byte(c.Uint32())
		for i := range b {
			b[i] = k
		}
		if n > 0 && c.IntN(3) == 0 { // islands in a sea of zeros
			clear(b)
			for k := c.IntN(4); k > 0; k-- {
				b[c.IntN(n)] = byte(c.Uint32())
			}
		}
	}
	return Dress(c, b)
}

var (
	heads = []string{"\ufeff", "\xff\xfe", "\xfe\xff", "PK\x03\x04", "\x1f\x8b", "\x7fELF", "#!/bin/sh\n", " ", "\n", "\r\n", "\x00", "0x", "%PDF-", "\"", "{", "=", "+"}
	tails = []string{"\n", "\r\n", "\r", " ", "\t", "\x00", "\x1a", "=", "==", "\x01", "\x10\x10", "\xff", "\\", "\"", "}", "\ufeff"}
)

// Dress sometimes gives b a beginning or an end that programs like to treat
// in a special way.
func Dress(c *mon.C, b []byte) []byte {
	if c.IntN(4) == 0 {
		b = append([]byte(heads[c.IntN(len(heads))]), b...)
	}
	if c.IntN(4) == 0 {
		b = append(b, tails[c.IntN(len(tails))]...)
	}
	return b
}

// Big draws a content of many megabytes, more of them for a larger i: zeros
// with islands.
func Big(c *mon.C, i int) []byte {
	b := make([]byte, []int{9<<20 + 1, 33<<20 + 5, 130<<20 + 3, 65 << 20, 300<<20 + 7}[i%5])
	for k := 0; k < len(b); k += 1 << 19 {
		j := min(len(b), k+c.IntN(1<<19))
		for e := min(len(b), j+c.IntN(300)); j < e; j++ {
			b[j] = byte(c.Uint32())
		}
	}
	b[len(b)-1] = 1 + byte(c.IntN(255))
	return b
}

// FileLimit makes writes beyond n bytes of a file fail while f runs.
func FileLimit(n uint64, f func()) {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

// Descriptors counts this process's open files.
func Descriptors() int {
	d, err := os.ReadDir("/proc/self/fd")
	must(err)
	return len(d)
}

// Freeze gives everything below root, root included, one and the same age, so
// that times say nothing about what has changed.
func Freeze(root string) {
	when := time.Unix(1600000000, 0)
	must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.Type()&fs.ModeSymlink != 0 {
			return err
		}
		return os.Chtimes(p, when, when)
	}))
}

// Again replaces what path holds by as many other bytes (not all the same if
// there are any), of the same age, in place or as another file.
func Again(c *mon.C, path string) []byte {
	b, err := os.ReadFile(path)
	must(err)
	if len(b) > 0 {
		b[c.IntN(len(b))] ^= byte(1 + c.IntN(255))
	}
	if c.IntN(3) == 0 {
		Write(path+".new", b)
		must(os.Rename(path+".new", path))
	} else {
		Write(path, b)
	}
	Freeze(path)
	return b
}
