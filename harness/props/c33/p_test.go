package c33

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/signal"
	"strings"
	"syscall"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

// job is one call that writes a file, with what it should hold in the end.
type job struct {
	what string
	file string
	want func(got []byte) bool
	size int // about what has to be written
	do   func() error
}

func draw(c *mon.C, kind int) job {
	data := make([]byte, mon.Pick(c.Rand, 1, 10, 1+c.IntN(3000), 1+c.IntN(20000), 1+c.IntN(200000)))
	for i := range data {
		data[i] = byte(c.Uint32()) // does not compress
	}
	same := func(b []byte) bool { return bytes.Equal(b, data) }
	switch kind {
	case 0:
		fsx.Write("src", data)
		return job{"CopyFile", "dst", same, len(data), func() error {
			n, err := utils.CopyFile("dst", "src")
			if err == nil && n != int64(len(data)) {
				c.Fail("CopyFile of %d bytes says %d", len(data), n)
			}
			return err
		}}
	case 1:
		row := []string{}
		for n := 0; n < 1+len(data)/50; n++ {
			row = append(row, fmt.Sprintf("%x", data[:min(25, len(data))]))
		}
		line := strings.Join(row, ",") + "\r\n"
		return job{"WriteCsv", "out.csv", func(b []byte) bool { return string(b) == line }, len(line), func() error { return utils.WriteCsv("out.csv", row) }}
	case 2:
		fsx.Write("a", data)
		fsx.Write("b", data[:len(data)/2])
		return job{"ZipFiles", "x.zip", func(b []byte) bool {
			r, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
			if err != nil || len(r.File) != 2 {
				return false
			}
			for i, w := range [][]byte{data, data[:len(data)/2]} {
				f, err := r.File[i].Open()
				if err != nil {
					return false
				}
				g, err := io.ReadAll(f)
				if err != nil || !bytes.Equal(g, w) {
					return false
				}
			}
			return true
		}, len(data) + len(data)/2 + 200, func() error { return utils.ZipFiles("x.zip", []string{"a", "b"}, "", "") }}
	case 3:
		return job{"BreakPointContinue", "breakpointDir/sum/f_3", same, len(data), func() error {
			_, err := utils.BreakPointContinue(data, "f", 3, 9, "sum")
			return err
		}}
	case 4:
		n := 1 + c.IntN(5)
		for i := 0; i < n; i++ {
			_, err := utils.BreakPointContinue(data[len(data)*i/n:len(data)*(i+1)/n], "f", i, n, "sum")
			fsx.Must(err)
		}
		return job{"MakeFile", "fileDir/f", same, len(data), func() error {
			_, err := utils.MakeFile("f", "sum")
			return err
		}}
	}
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	fsx.Must(os.MkdirAll("dest", 0o755))
	f, err := w.CreateHeader(&zip.FileHeader{Name: "f", Method: mon.Pick(c.Rand, zip.Store, zip.Deflate)})
	fsx.Must(err)
	f.Write(data)
	f, _ = w.Create("later")
	f.Write([]byte("x"))
	fsx.Must(w.Close())
	fsx.Write("x.zip", buf.Bytes())
	return job{"Unzip", "dest/f", same, len(data), func() error {
		_, err := utils.Unzip("x.zip", "dest")
		return err
	}}
}

const kinds = 6

func TestProp(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	mon.Run(t, "C33", "each writing function on a full device and with every write beyond a seeded offset failing (file size limit); success must mean a complete file; non-trivial = the fault was hit", func(m *mon.M) {
		m.Cases("limit", m.N(900), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				j := draw(c, c.Idx%kinds)
				limit := mon.Pick(c.Rand, 0, 1, c.IntN(j.size+1), c.IntN(j.size+1), j.size-1, j.size, j.size+1, 2*j.size, 4095, 4096, 4097)
				var err error
				fsx.FileLimit(uint64(max(limit, 0)), func() { err = j.do() })
				got, rerr := os.ReadFile(j.file)
				c.Log("%s of %d bytes, limit %d: %v", j.what, j.size, limit, err)
				if err == nil {
					c.Check(rerr == nil && j.want(got), "%s of %d bytes with only %d bytes of room reports success, the file has %d bytes", j.what, j.size, limit, len(got))
				} else {
					c.Nontrivial()
					c.M.Count("faults_reported", 1)
					c.Check(limit < j.size+400, "%s of %d bytes with %d bytes of room: %v", j.what, j.size, limit, err)
					if j.what == "MakeFile" {
						c.Check(os.IsNotExist(rerr), "%s failed and left a partial file of %d bytes", j.what, len(got))
					}
				}
				// with room again, doing it once more heals
				if j.what != "WriteCsv" {
					err = j.do()
					got, rerr = os.ReadFile(j.file)
					c.Check(err == nil && rerr == nil && j.want(got), "%s of %d bytes, repeated after a failure at %d: %v, the file has %d bytes", j.what, j.size, limit, err, len(got))
				}
				c.Check(fsx.Descriptors() < 60, "%d files are still open after %s", fsx.Descriptors(), j.what)
			})
		})
		m.Cases("full", m.N(120), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				j := draw(c, c.Idx%kinds)
				fsx.Must(os.MkdirAll(parent(j.file), 0o755))
				fsx.Must(os.Symlink("/dev/full", j.file))
				err := j.do()
				c.Log("%s of %d bytes onto a full device: %v", j.what, j.size, err)
				c.Nontrivial()
				c.M.Count("faults_reported", 1)
				c.Check(err != nil, "%s of %d bytes onto a full device reports success", j.what, j.size)
			})
		})
		m.Cases("unreadable", m.N(96), func(c *mon.C) {
			// what has to be copied cannot be read
			fsx.In(c, func(dir string) {
				j := draw(c, []int{0, 2, 4}[c.Idx%3])
				file := map[string]string{"CopyFile": "src", "ZipFiles": mon.Pick(c.Rand, "a", "b"), "MakeFile": "breakpointDir/sum/f_0"}[j.what]
				if j.what == "MakeFile" {
					all, _ := os.ReadDir("breakpointDir/sum")
					file = "breakpointDir/sum/" + all[c.IntN(len(all))].Name()
				}
				fsx.Must(os.Remove(file))
				way := mon.Pick(c.Rand, "missing", "a directory", "a dead link", "forbidden")
				if os.Getuid() == 0 && way == "forbidden" || j.what == "MakeFile" && way == "missing" {
					way = "a directory"
				}
				switch way {
				case "a directory":
					fsx.Must(os.MkdirAll(file+"/x", 0o755))
				case "a dead link":
					fsx.Must(os.Symlink("nowhere", file))
				case "forbidden":
					fsx.Must(os.WriteFile(file, []byte("secret"), 0o000))
				}
				err := j.do()
				c.Log("%s while %s is %s: %v", j.what, file, way, err)
				c.Nontrivial()
				c.M.Count("faults_reported", 1)
				c.Check(err != nil, "%s while %s is %s reports success", j.what, file, way)
				if j.what == "MakeFile" {
					_, rerr := os.Lstat(j.file)
					c.Check(os.IsNotExist(rerr), "%s failed while %s is %s and left a partial file", j.what, file, way)
				}
				c.Check(fsx.Descriptors() < 60, "%d files are still open after %s", fsx.Descriptors(), j.what)
			})
		})
		m.Cases("denied", m.N(96), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				j := draw(c, c.Idx%kinds)
				fsx.Must(os.MkdirAll(parent(j.file), 0o755))
				way := c.Idx / kinds % 4
				if os.Getuid() == 0 && way > 1 {
					way = 0
				}
				up := parent(j.file)
				switch way {
				case 0:
					fsx.Must(os.Mkdir(j.file, 0o755)) // a directory is in the way
				case 1: // a file is where its directory should be
					if up == "." {
						fsx.Must(os.Mkdir(j.file, 0o755))
						break
					}
					if d := parent(up); d != "." && c.IntN(2) == 0 {
						up = d
					}
					fsx.Must(os.RemoveAll(up))
					fsx.Must(os.WriteFile(up, []byte("in the way"), 0o644))
				case 2:
					fsx.Must(os.WriteFile(j.file, []byte("x"), 0o444)) // read-only
				case 3: // nothing can be made there
					fsx.Must(os.Chmod(up, 0o555))
				}
				err := j.do()
				if way == 3 {
					fsx.Must(os.Chmod(up, 0o755))
				}
				c.Log("%s of %d bytes where nothing can be written (%d): %v", j.what, j.size, way, err)
				c.Nontrivial()
				c.M.Count("faults_reported", 1)
				c.Check(err != nil, "%s of %d bytes where nothing can be written (%d) reports success", j.what, j.size, way)
				if way == 1 && up != "." {
					b, rerr := os.ReadFile(up)
					c.Check(parent(j.file) == "." || rerr == nil && string(b) == "in the way", "%s removed or changed a file in its way", j.what)
				}
			})
		})
	})
}

func parent(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[:i]
	}
	return "."
}
