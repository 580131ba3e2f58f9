package c49

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/mon"
)

const role = "VERIF_C49_ROLE"

// every process of the experiment counts the signals that could be sent.
var hups, others atomic.Int64

func count() {
	ch := make(chan os.Signal, 100)
	signal.Notify(ch, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGALRM, syscall.SIGCONT)
	go func() {
		for s := range ch {
			if s == syscall.SIGHUP {
				hups.Add(1)
			} else {
				others.Add(1)
			}
		}
	}()
}

func TestMain(m *testing.M) {
	switch os.Getenv(role) {
	case "":
		os.Exit(m.Run())
	case "caller":
		caller()
	case "bystander":
		count()
		fmt.Println("ready")
		bufio.NewReader(os.Stdin).ReadString('\n')
		fmt.Println(hups.Load(), others.Load())
	case "parent":
		parent()
	case "middle": // starts a caller and goes away, so that it gets a new parent
		c := exec.Command(os.Args[0])
		c.Env = append(os.Environ(), role+"=caller", "VERIF_C49_WAIT="+strconv.Itoa(os.Getpid()))
		c.Stdin, c.Stdout = os.Stdin, os.Stdout
		if err := c.Start(); err != nil {
			fmt.Println("middle:", err)
		}
		time.Sleep(100 * time.Millisecond) // it was this one's child for a while
	}
	os.Exit(0)
}

// caller calls Reload as often as asked, telling the result each time.
func caller() {
	count()
	if w := os.Getenv("VERIF_C49_WAIT"); w != "" {
		for strconv.Itoa(os.Getppid()) == w {
			time.Sleep(time.Millisecond)
		}
	}
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadString('\n')
		if err != nil || strings.TrimSpace(line) == "end" {
			break
		}
		e := utils.Reload()
		fmt.Printf("%d %v\n", os.Getppid(), e == nil)
	}
	fmt.Println(hups.Load(), others.Load())
}

// parent starts the callers and bystanders, counts what it gets and reports.
func parent() {
	count()
	calls, _ := strconv.Atoi(os.Getenv("VERIF_C49_CALLS"))
	kind := os.Getenv("VERIF_C49_KIND")
	if kind == "middle" { // orphans of this family come to this process
		syscall.RawSyscall6(syscall.SYS_PRCTL, 36, 1, 0, 0, 0, 0)
	}
	by := start("bystander")
	by.line()
	who := "caller"
	if kind == "middle" {
		who = "middle"
	}
	k := start(who)
	if kind == "middle" {
		k.cmd.Process.Wait()
	}
	for i := 0; i < calls; i++ {
		was := hups.Load()
		k.say("call")
		var ppid int
		var ok bool
		if _, err := fmt.Sscan(k.line(), &ppid, &ok); err != nil {
			fmt.Println("RESULT lost")
			return
		}
		// a signal is on its way for a moment
		until := time.Now().Add(15 * time.Second)
		for ok && hups.Load() == was && time.Now().Before(until) {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(20 * time.Millisecond)
		fmt.Printf("RESULT call %v %d %v\n", ok, hups.Load()-was, ppid == os.Getpid())
	}
	k.say("end")
	var a, b int
	fmt.Sscan(k.line(), &a, &b)
	fmt.Println("RESULT caller", a+b)
	by.say("end")
	a = 99
	fmt.Sscan(by.line(), &a, &b)
	fmt.Println("RESULT bystander", a+b)
	fmt.Println("RESULT other", others.Load())
	fmt.Println("RESULT end")
}

type child struct {
	cmd *exec.Cmd
	in  *os.File
	out *bufio.Reader
}

func start(who string) *child {
	inR, inW, _ := os.Pipe()
	outR, outW, _ := os.Pipe()
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), role+"="+who)
	c.Stdin, c.Stdout = inR, outW
	if err := c.Start(); err != nil {
		fmt.Println("RESULT start", err)
		os.Exit(0)
	}
	inR.Close()
	outW.Close()
	return &child{c, inW, bufio.NewReader(outR)}
}

func (c *child) say(s string) { c.in.WriteString(s + "\n") }
func (c *child) line() string { s, _ := c.out.ReadString('\n'); return s }

func TestProp(t *testing.T) {
	mon.Run(t, "C49", "families of processes in which one calls Reload: its parent, the parent's parent, a sibling and the caller itself count the signals they get; non-trivial = the parent got its signals", func(m *mon.M) {
		if os.Getuid() == 0 {
			t.Fatal("signals are sent: run this as an unprivileged user")
		}
		count()
		m.Cases("families", m.N(24), func(c *mon.C) {
			kind := mon.Pick(c.Rand, "caller", "middle")
			path := os.Getenv("PATH")
			switch c.Idx % 6 {
			case 3: // no program can be started
				path = "/nonexistent"
			case 5: // or the one that is does not do it
				path, _ = os.MkdirTemp(os.Getenv("VERIF_WORK"), "path")
				defer os.RemoveAll(path)
				if err := os.WriteFile(path+"/kill", []byte("#!/bin/sh\nexit 1\n"), 0o755); err != nil {
					panic(err)
				}
			}
			calls := 1 + c.IntN(4)
			was := hups.Load() + others.Load()
			p := exec.Command(os.Args[0])
			p.Env = append(os.Environ(), role+"=parent", "VERIF_C49_CALLS="+strconv.Itoa(calls), "VERIF_C49_KIND="+kind, "PATH="+path)
			out, err := p.Output()
			res := []string{}
			for _, l := range strings.Split(string(out), "\n") {
				if s, ok := strings.CutPrefix(l, "RESULT "); ok {
					res = append(res, s)
				}
			}
			what := fmt.Sprintf("%d calls by a child (%s), kind of path %d", calls, kind, c.Idx%6)
			c.Log("%s: %s", what, strings.Join(res, "; "))
			c.Check(err == nil && len(res) > 0 && res[len(res)-1] == "end", "%s: the family did not survive: %v, %v", what, err, res)
			for _, r := range res {
				var ok, child bool
				var n int
				if _, err := fmt.Sscanf(r, "call %t %d %t", &ok, &n, &child); err == nil {
					c.Check(child, "harness: the caller is not this parent's child")
					if ok {
						c.Check(n == 1, "%s: Reload succeeded and its parent got %d hang-ups", what, n)
						c.M.Count("signals", n)
						c.Nontrivial()
					} else {
						c.Check(n == 0, "%s: Reload failed and its parent got %d hang-ups", what, n)
						c.M.Count("failures_told", 1)
						c.Check(path != os.Getenv("PATH"), "%s: Reload failed", what)
					}
				}
				for _, who := range []string{"caller", "bystander", "other"} {
					if s, ok := strings.CutPrefix(r, who+" "); ok {
						c.Check(s == "0", "%s: %s signals to %s", what, s, map[string]string{"caller": "the caller itself", "bystander": "another child", "other": "the parent other than hang-up"}[who])
					}
				}
			}
			time.Sleep(10 * time.Millisecond)
			c.Check(hups.Load()+others.Load() == was, "%s: a process further up got a signal", what)
		})
		m.Cases("stranger", 1, func(c *mon.C) {
			// the parent belongs to someone else: nothing can be sent, and that is said
			st, err := os.Stat("/proc/" + strconv.Itoa(os.Getppid()))
			if err != nil || int(st.Sys().(*syscall.Stat_t).Uid) == os.Getuid() {
				c.Log("the parent is this user's own: not asked")
				return
			}
			err = utils.Reload()
			c.Log("the parent is user %d's: %v", st.Sys().(*syscall.Stat_t).Uid, err)
			c.Check(err != nil, "Reload under a parent of user %d, to whom this process may send nothing, returns no error", st.Sys().(*syscall.Stat_t).Uid)
			c.M.Count("failures_told", 1)
			c.Nontrivial()
		})
	})
}
