package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------------------
// Running the real command on generated projects.
// ---------------------------------------------------------------------------

// Files is a project: relative path to content. Paths ending with '/' are directories.
type Files map[string]string

func (f Files) text() string {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "=== %s\n%s", k, f[k])
		if !strings.HasSuffix(f[k], "\n") {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func (f Files) write(dir string) error {
	for k, v := range f {
		p := filepath.Join(dir, k)
		if strings.HasSuffix(k, "/") {
			if err := os.MkdirAll(p, 0o755); err != nil {
				return err
			}
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(v), 0o644); err != nil {
			return err
		}
	}
	return nil
}

type Res struct {
	Exit     int
	Signal   string
	Stdout   []byte
	Stderr   []byte
	Const    []byte // content of the -c file, when requested through runProject
	TimedOut bool
	CPU      time.Duration
	MaxRSS   int64
	NoTty    bool // terminals are not available
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")

// onTty repeats a run with some of the streams connected to a terminal. It returns what differs, colours apart.
func (c *Check) onTty(r *rand.Rand, cmd Cmd, res *Res) string {
	cmd.Tty = pick(r, "o", "o", "e", "oe", "io", "ioe", "i")
	x := cmd.run()
	if x.NoTty {
		c.count("terminals not available", 1)
		return ""
	}
	c.count("runs on a terminal", 1)
	if x.Exit != res.Exit || x.Signal != res.Signal {
		return fmt.Sprintf("on a terminal (%s): %s instead of %s", cmd.Tty, x.brief(), res.brief())
	}
	if a, b := ansi.ReplaceAllString(x.err(), ""), ansi.ReplaceAllString(res.err(), ""); a != b {
		return fmt.Sprintf("on a terminal (%s) the diagnostic differs: %q instead of %q", cmd.Tty, x.err(), res.err())
	}
	if !bytes.Equal(x.Stdout, res.Stdout) {
		return fmt.Sprintf("on a terminal (%s) the standard output differs: %s", cmd.Tty, firstDiff(res.Stdout, x.Stdout))
	}
	return ""
}

func (r *Res) err() string { return string(r.Stderr) }

// ok reports a successful compilation.
func (r *Res) ok() bool { return r.Exit == 0 && r.Signal == "" && !r.TimedOut }

// crash reports a run that ended in anything but exit status 0 or 1.
func (r *Res) crash() bool {
	return r.TimedOut || r.Signal != "" || (r.Exit != 0 && r.Exit != 1)
}

func (r *Res) brief() string {
	e := r.err()
	if len(e) > 1500 {
		e = e[:1500] + "..."
	}
	s := fmt.Sprintf("exit=%d", r.Exit)
	if r.Signal != "" {
		s += " signal=" + r.Signal
	}
	if r.TimedOut {
		s += fmt.Sprintf(" timed out after %v of CPU time", r.CPU)
	}
	return s + " stderr: " + e
}

const (
	wallLimit = 60 * time.Second
	cpuLimit  = 20 * time.Second
)

var runCount atomic.Int64

type rlimit struct{ Cur, Max uint64 }

func prlimit(pid int, res int, cur uint64) {
	l := rlimit{cur, cur}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(res), uintptr(unsafe.Pointer(&l)), 0, 0, 0)
}

type Cmd struct {
	Bin    string
	Dir    string
	Args   []string
	Env    []string // added to the minimal environment
	Stdout *os.File // overrides capturing
	Stderr *os.File
	NoMem  bool // no address space limit (race detector)
	Wall   time.Duration
	NoCPU  bool // no CPU time limit
	UID    int  // user to run as, 0 is the current one
	FSize  int64
	Limit  bool // FSize is set
	Stdin  *os.File
	Tty    string // streams connected to a terminal: any of i, o, e; what is written there is captured
}

// openPty returns the controlling side of a new terminal and the terminal in raw mode.
func openPty() (m, t *os.File, err error) {
	m, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(f *os.File, req uintptr, p unsafe.Pointer) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
			return e
		}
		return nil
	}
	var n, zero int32
	if err = ioctl(m, 0x80045430 /* TIOCGPTN */, unsafe.Pointer(&n)); err == nil {
		err = ioctl(m, 0x40045431 /* TIOCSPTLCK */, unsafe.Pointer(&zero))
	}
	if err == nil {
		t, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err == nil {
		var tio syscall.Termios
		if err = ioctl(t, syscall.TCGETS, unsafe.Pointer(&tio)); err == nil {
			tio.Oflag &^= syscall.OPOST
			tio.Lflag &^= syscall.ECHO
			err = ioctl(t, syscall.TCSETS, unsafe.Pointer(&tio))
		}
	}
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, t, nil
}

func baseEnv() []string {
	return []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "LANG=C", "GOTRACEBACK=single"}
}

func (c Cmd) run() *Res {
	runCount.Add(1)
	wall := c.Wall
	if wall == 0 {
		wall = wallLimit
	}
	ctx, cancel := context.WithTimeout(context.Background(), wall)
	defer cancel()
	bin, args := c.Bin, c.Args
	if c.Limit {
		// this program sets the limit and becomes the command
		exe, err := os.Executable()
		if err != nil {
			return &Res{Exit: -1, Stderr: []byte(err.Error())}
		}
		args = append([]string{"exec", fmt.Sprint(c.FSize), bin}, args...)
		bin = exe
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = c.Dir
	cmd.Env = append(baseEnv(), c.Env...)
	var so, se bytes.Buffer
	if c.Stdout != nil {
		cmd.Stdout = c.Stdout
	} else {
		cmd.Stdout = &so
	}
	if c.Stderr != nil {
		cmd.Stderr = c.Stderr
	} else {
		cmd.Stderr = &se
	}
	var drained []chan struct{}
	var ends []*os.File
	for _, k := range c.Tty {
		m, t, err := openPty()
		if err != nil {
			return &Res{Exit: -1, NoTty: true}
		}
		defer m.Close()
		ends = append(ends, t)
		if k == 'i' {
			cmd.Stdin = t
			continue
		}
		b := &so
		if k == 'o' {
			cmd.Stdout = t
		} else {
			cmd.Stderr, b = t, &se
		}
		d := make(chan struct{})
		drained = append(drained, d)
		go func() {
			io.Copy(b, m) // ends with an error when the last user has closed the terminal
			close(d)
		}()
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if c.UID != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(c.UID), Gid: uint32(c.UID)}
	}
	if c.Stdin != nil {
		cmd.Stdin = c.Stdin
	}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	defer runtime.UnlockOSThread()
	r := &Res{}
	err := cmd.Start()
	for _, t := range ends {
		t.Close()
	}
	if err != nil {
		r.Exit = -1
		r.Stderr = []byte("cannot start: " + err.Error())
		return r
	}
	if !c.NoMem {
		prlimit(cmd.Process.Pid, 9 /* RLIMIT_AS */, 6<<30)
	}
	if !c.NoCPU {
		prlimit(cmd.Process.Pid, 0 /* RLIMIT_CPU */, uint64(cpuLimit/time.Second)+5)
	}
	err = cmd.Wait()
	for _, d := range drained {
		<-d
	}
	r.Stdout, r.Stderr = so.Bytes(), se.Bytes()
	if ps := cmd.ProcessState; ps != nil {
		r.CPU = ps.UserTime() + ps.SystemTime()
		if ru, ok := ps.SysUsage().(*syscall.Rusage); ok {
			r.MaxRSS = ru.Maxrss
		}
		ws := ps.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			r.Signal = ws.Signal().String()
			r.Exit = -1
		} else {
			r.Exit = ws.ExitStatus()
		}
	} else if err != nil {
		r.Exit = -1
	}
	if ctx.Err() != nil {
		r.TimedOut = true
	}
	return r
}

// ---------------------------------------------------------------------------

type Worker struct {
	c    *Check
	n    int
	dir  string
	nsub int
}

// fresh returns a new empty directory for one project, the previous ones of the worker are removed by clean.
func (w *Worker) fresh() string {
	w.nsub++
	d := filepath.Join(w.dir, fmt.Sprintf("p%d", w.nsub))
	if err := os.MkdirAll(d, 0o755); err != nil {
		fatalf("mkdir: %v", err)
	}
	return d
}

func (w *Worker) clean() {
	for i := 1; i <= w.nsub; i++ {
		os.RemoveAll(filepath.Join(w.dir, fmt.Sprintf("p%d", i)))
	}
	w.nsub = 0
}

// project writes files to a fresh directory.
func (w *Worker) project(f Files) string {
	d := w.fresh()
	if err := f.write(d); err != nil {
		fatalf("write project: %v", err)
	}
	return d
}

// compile writes the project and runs the command in it.
func (w *Worker) compile(f Files, args ...string) *Res {
	return w.compileEnv(f, nil, args...)
}

func (w *Worker) compileEnv(f Files, env []string, args ...string) *Res {
	d := w.project(f)
	return w.runIn(d, env, args...)
}

func (w *Worker) runIn(d string, env []string, args ...string) *Res {
	a := append([]string(nil), args...)
	a = append(a, "bus.fbd")
	r := Cmd{Bin: w.c.bin, Dir: d, Args: a, Env: env}.run()
	for i, x := range args {
		if x == "-c" && i+1 < len(args) {
			r.Const, _ = os.ReadFile(filepath.Join(d, args[i+1]))
		}
	}
	return r
}

// compileText compiles a single file description.
func (w *Worker) compileText(t string, args ...string) *Res {
	return w.compile(Files{"bus.fbd": t}, args...)
}

// ---------------------------------------------------------------------------

// parallel runs f for every index, with one scratch directory per worker.
func (c *Check) parallel(n int, f func(w *Worker, i int)) {
	nw := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VH_WORKERS")); err == nil {
		nw = v
	}
	if c.workers > 0 {
		nw = c.workers
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &Worker{c: c, n: k, dir: filepath.Join(c.scratch, fmt.Sprintf("w%d", k))}
			os.MkdirAll(w.dir, 0o755)
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.stop.Load() {
					return
				}
				func() {
					defer func() {
						if e := recover(); e != nil {
							buf := make([]byte, 16384)
							buf = buf[:runtime.Stack(buf, false)]
							c.internal(fmt.Sprintf("case %d: %v\n%s", i, e, buf))
						}
					}()
					f(w, i)
				}()
				w.clean()
			}
		}(k)
	}
	wg.Wait()
}
