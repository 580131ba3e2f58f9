package c43

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

var pieces = []string{"a", "hello world", "张三", "two\nlines", "\t", "$HOME", "`x`", "%s", "\\n", "*", ";", "&", "|", "\"", "'", "!", "#", " ", "\r\n", "exit 3", "EOF"}

func text(c *mon.C) string {
	var s strings.Builder
	for n := 1 + c.IntN(5); n > 0; n-- {
		s.WriteString(pieces[c.IntN(len(pieces))])
	}
	return s.String()
}

func quote(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }

// command draws a script that reads no input, with what it prints, what it
// prints as errors and its exit status.
func command(c *mon.C) (script, out, errs string, status int) {
	var s, o, e strings.Builder
	sep := "\n"
	for n := 1 + c.IntN(4); n > 0; n-- {
		switch c.IntN(8) {
		case 7: // any bytes, on either stream
			var x []byte
			var esc strings.Builder
			for k := 1 + c.IntN(40); k > 0; k-- {
				b := mon.Pick(c.Rand, byte(c.IntN(256)), 0, 0xff, 0xc3, 0x80, '\r', '\n', 0x1b, '\b')
				x = append(x, b)
				fmt.Fprintf(&esc, "\\%03o", b)
			}
			s.WriteString("printf '" + esc.String() + "'")
			if c.IntN(3) == 0 {
				s.WriteString(" >&2")
				e.Write(x)
			} else {
				o.Write(x)
			}
			s.WriteString(sep)
		case 0, 1:
			x := text(c)
			s.WriteString("printf %s " + quote(x) + sep)
			o.WriteString(x)
		case 2:
			x := text(c)
			s.WriteString("printf %s " + quote(x) + " >&2" + sep)
			e.WriteString(x)
		case 3: // more than any buffer holds
			k := 1 + c.IntN(300000)
			s.WriteString(fmt.Sprintf("head -c %d /dev/zero | tr '\\0' x%s", k, sep))
			o.WriteString(strings.Repeat("x", k))
		case 4:
			k := 1 + c.IntN(100000)
			s.WriteString(fmt.Sprintf("head -c %d /dev/zero | tr '\\0' e >&2%s", k, sep))
			e.WriteString(strings.Repeat("e", k))
		case 5:
			s.WriteString("for i in 1 2 3; do echo $i; echo e$i >&2; done" + sep)
			o.WriteString("1\n2\n3\n")
			e.WriteString("e1\ne2\ne3\n")
		default: // an inner failure that is not the last
			s.WriteString("false" + sep)
		}
		if c.IntN(8) == 0 { // longer than an argument may be
			s.WriteString(": " + strings.Repeat("no operation ", c.IntN(30000)) + sep)
		}
	}
	switch c.IntN(4) {
	case 0:
		status = 1 + c.IntN(255)
		s.WriteString(fmt.Sprintf("exit %d", status))
	case 1:
		status = 1
		s.WriteString("false")
	case 2:
		status = 128 + 9
		s.WriteString("kill -9 $$")
	default:
		s.WriteString("true")
	}
	return s.String(), o.String(), e.String(), status
}

func TestProp(t *testing.T) {
	mon.Run(t, "C43", "shell scripts that print text with quotes, line breaks and wide characters and amounts beyond any buffer on either stream and end well, with a status or by a signal, run alone and several at once in a scratch directory; non-trivial = a script that prints to both streams or fails", func(m *mon.M) {
		one := func(c *mon.C) {
			s, o, e, status := command(c)
			c.Log("status %d, %s, %s", status, fsx.Short(o), fsx.Short(e))
			got, err := utils.ShellExec(s)
			if status != 0 {
				if err == nil {
					c.Fail("a script that ends with %d gives no error: %s", status, fsx.Short(s))
					return
				}
				if err.Error() != e {
					c.Fail("a script that ends with %d and prints the errors %s gives the error %s", status, fsx.Short(e), fsx.Short(err.Error()))
				}
				c.M.Count("failed_scripts", 1)
				c.Nontrivial()
				return
			}
			if err != nil {
				c.Fail("a script that ends well gives the error %s: %s", fsx.Short(err.Error()), fsx.Short(s))
				return
			}
			c.Keep("what a script printed", got.String)
			if got.String() != o {
				c.Fail("a script that prints %s gives %s", fsx.Short(o), fsx.Short(got.String()))
			}
			c.M.Count("bytes_printed", len(o))
			if o != "" && e != "" {
				c.Nontrivial()
			}
		}
		m.Cases("one", m.N(150), func(c *mon.C) {
			fsx.In(c, func(string) {
				n := fsx.Descriptors()
				one(c)
				if c.IntN(3) == 0 {
					one(c)
				}
				c.Check(fsx.Descriptors() <= n, "%d files are left open", fsx.Descriptors()-n)
			})
		})
		m.Cases("effects", m.N(40), func(c *mon.C) {
			fsx.In(c, func(dir string) {
				x := text(c)
				c.Log("%q", x)
				fsx.Must(os.Setenv("VERIF_TEXT", x))
				fsx.Must(os.Mkdir("d", 0o755))
				// runs here, in this environment, and is done when it returns
				got, err := utils.ShellExec("printf %s \"$VERIF_TEXT\" > d/f; cd d; cat f; rm f; sleep 0.02; printf %s done > g")
				c.Check(err == nil && got.String() == x, "the script prints %v, %v, want %q", got, err, x)
				first := got
				c.Keep("what a script printed", first.String)
				b, _ := os.ReadFile("d/g")
				c.Check(string(b) == "done", "the script was not done when ShellExec returned")
				_, err = os.Stat("d/f")
				c.Check(err != nil, "the script's rm had no effect")
				cwd, _ := os.Getwd()
				c.Check(cwd == dir, "ShellExec changed the working directory")
				// a shell started for one call knows nothing of another
				_, err = utils.ShellExec("X=1; export X; cd d")
				c.Check(err == nil, "%v", err)
				got, err = utils.ShellExec("printf '%s' \"$X\"; ls")
				c.Check(err == nil && got.String() == "d\n", "the script prints %v, %v", got, err)
				c.Nontrivial()
			})
		})
		m.Cases("large", m.N(2), func(c *mon.C) {
			fsx.In(c, func(string) {
				n := []int{17<<20 + 3, 70 << 20, 130 << 20}[c.Idx%3]
				got, err := utils.ShellExec(fmt.Sprintf("printf start; head -c %d /dev/zero; printf end", n))
				c.Log("%d bytes: %v", n, err)
				c.Check(err == nil, "printing %d bytes: %v", n, err)
				b := got.Bytes()
				c.Check(len(b) == n+8 && string(b[:5]) == "start" && string(b[n+5:]) == "end", "a script that prints %d bytes gives %d", n+8, len(b))
				_, err = utils.ShellExec(fmt.Sprintf("head -c %d /dev/zero | tr '\\0' e >&2; printf end >&2; exit 3", n/8))
				c.Check(err != nil, "no error")
				e := err.Error()
				c.Check(len(e) == n/8+3 && strings.HasSuffix(e, "eeend"), "a script that prints %d bytes of errors gives an error of %d", n/8+3, len(e))
				c.Nontrivial()
			})
		})
		m.Cases("slow", 1, func(c *mon.C) {
			// scripts that take their time, or leave one behind that goes on printing
			fsx.In(c, func(string) {
				long := m.N(35)
				if long > 60 {
					long = 60
				}
				var wg sync.WaitGroup
				for i, s := range []struct {
					script, out string
					ok          bool
				}{
					{"sleep 6; printf done", "done", true},
					{"printf start; sleep 13; printf end", "startend", true},
					{fmt.Sprintf("sleep %d; printf done", long), "done", true},
					{fmt.Sprintf("for i in 1 2 3 4 5 6 7; do printf $i; sleep %d; done", long/7), "1234567", true},
					{fmt.Sprintf("sleep %d; printf no >&2; exit 3", long-5), "no", false},
					{"printf early; (sleep 7; printf late) &", "earlylate", true},
					{"(sleep 2; printf 1; sleep 9; printf 2) & printf 0; exit 0", "012", true},
					{"(trap '' HUP TERM; sleep 4; printf late) & exit 0", "late", true},
				} {
					c.Go(&wg, func() {
						got, err := utils.ShellExec(s.script)
						switch {
						case s.ok && (err != nil || got.String() != s.out):
							c.Fail("slow script %d (%s): %v, %v, want %q", i, s.script, got, err, s.out)
						case !s.ok && (err == nil || err.Error() != s.out):
							c.Fail("slow script %d (%s): %v, %v, want the error %q", i, s.script, got, err, s.out)
						}
					})
				}
				wg.Wait()
				c.Log("slow scripts, up to %d s", long)
				c.M.Peak("longest_script_s", long)
				c.Nontrivial()
			})
		})
		m.Cases("bad", 6, func(c *mon.C) {
			fsx.In(c, func(string) {
				s := []string{"no-such-command-anywhere", "cat /none/none", "if", "echo ok; exit 7", "(exit 2)", "set -e; false; echo not here"}[c.Idx]
				c.Log("%q", s)
				out, err := utils.ShellExec(s)
				c.Check(err != nil && out == nil, "%q gives %v, %v", s, out, err)
				if c.Idx < 3 {
					c.Check(len(err.Error()) > 0, "%q: the error is empty", s)
				}
				c.Nontrivial()
			})
		})
		m.Cases("at once", m.N(12), func(c *mon.C) {
			fsx.In(c, func(string) {
				var wg sync.WaitGroup
				for g := 0; g < 6; g++ {
					x := fmt.Sprintf("%d %s", g, text(c))
					c.Go(&wg, func() {
						for i := 0; i < 3; i++ {
							got, err := utils.ShellExec("printf %s " + quote(x) + "; sleep 0.0" + fmt.Sprint(g))
							if err == nil {
								c.Keep("what a script printed", got.String)
							}
							if err != nil || got.String() != x {
								c.Fail("scripts at once: %q prints %v, %v", x, got, err)
								return
							}
						}
					})
				}
				wg.Wait()
				c.Log("%d", c.Idx)
				c.M.Count("scripts_at_once", 18)
				c.Nontrivial()
			})
		})
	})
}
