package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() { register("C21", checkC21) }

// snapshot describes every file of a tree: type, mode, size, time and content.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		s := fi.Mode().String()
		switch {
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %d %s %s", fi.Size(), fi.ModTime(), hash64(string(b)))
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " " + t
		}
		m[rel] = s
		return nil
	})
	return m
}

// changed lists the differences of two snapshots but for the allowed paths.
func changed(a, b map[string]string, allowed ...string) string {
	ok := map[string]bool{".": true}
	for _, x := range allowed {
		ok[filepath.Clean(x)] = true
	}
	var l []string
	for k, v := range a {
		if ok[k] {
			continue
		}
		if w, in := b[k]; !in {
			l = append(l, k+" removed")
		} else if v != w && !strings.HasPrefix(v, "d") {
			l = append(l, k+" changed")
		}
	}
	for k := range b {
		if _, in := a[k]; !in && !ok[k] {
			l = append(l, k+" created")
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// cliProject is a project whose main file holds several buses.
type cliProject struct {
	files Files
	buses []string
	mark  map[string]string // bus to the name of a functionality only it has
	main  string            // path of the main file
}

func genCli(r *rand.Rand, big bool) *cliProject {
	p := &cliProject{files: Files{}, mark: map[string]string{}}
	p.main = pick(r, "bus.fbd", "src/bus.fbd", "regs.txt", "main", "debug.fbd", "-x.fbd", "a b/ł.fbd")
	names := []string{"main", "tb", "Main", "bus1", "tb_2", "x", "help", "debug", "c"}
	r.Shuffle(len(names)-1, func(a, b int) { names[a+1], names[b+1] = names[b+1], names[a+1] })
	p.buses = names[:1+r.Intn(4)]
	order := append([]string(nil), p.buses...)
	r.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
	t := "import k \"fbd-k\"\n"
	for i, n := range order {
		mark := fmt.Sprintf("only_in_%d", i)
		p.mark[n] = mark
		if r.Intn(3) == 0 {
			t += fmt.Sprintf("type T%d bus\n  width = %s\n  %s config; width = k.W\n", i, pick(r, "8", "16", "32", "64"), mark)
			t += fmt.Sprintf("%s T%d\n", n, i)
		} else {
			t += fmt.Sprintf("%s bus\n  width = %s\n  %s config; width = k.W\n", n, pick(r, "8", "16", "32", "64"), mark)
			for k := r.Intn(6); k > 0; k-- {
				t += fmt.Sprintf("  f%d %s; width = %d\n", k, pick(r, "config", "status", "mask"), 1+r.Intn(60))
			}
			if big {
				for k := 0; k < 400; k++ {
					t += fmt.Sprintf("  g%d [3]status; width = %d\n", k, 1+r.Intn(60))
				}
			}
		}
	}
	p.files[p.main] = t
	p.files["lib/fbd-k/k.fbd"] = fmt.Sprintf("const W = %d\nconst L = [1, 2, %d]\n", 1+r.Intn(40), r.Intn(100))
	p.files["lib/fbd-k/m.fbd"] = "const B = true\nconst S = \"text\"\n" + strings.Repeat("# note\n", r.Intn(20))
	if big {
		t := ""
		for k := 0; k < 2000; k++ {
			t += fmt.Sprintf("const C%d = %d\n", k, r.Intn(1<<30))
		}
		p.files["lib/fbd-k/big.fbd"] = t
	}
	return p
}

// reference compiles the bus with the simplest command line.
func (w *Worker) reference(p *cliProject, bus string, ts bool) *Res {
	d := w.project(p.files)
	a := []string{"-main", bus, "-c", "const.json", p.main}
	if ts {
		a = append([]string{"-add-timestamp"}, a...)
	}
	x := Cmd{Bin: w.c.bin, Dir: d, Args: a}.run()
	x.Const, _ = os.ReadFile(filepath.Join(d, "const.json"))
	return x
}

var stampValue = regexp.MustCompile(`("TIMESTAMP",(?s:.*?)"InitValue": )"(?:\\.|[^"\\])*"`)

func noStamp(b []byte) []byte {
	return stampValue.ReplaceAll(b, []byte("$1\"\""))
}

// failing decides a run that must report a failure.
func (c *Check) failing(i int, what string, x *Res, f Files) bool {
	if x.TimedOut {
		c.inconclusive("wall clock watchdog")
		return false
	}
	if x.Exit == 0 && x.Signal == "" {
		c.violation(i, what+": the command reports success", f, string(x.Stdout))
		return false
	}
	if x.Signal == "broken pipe" || x.Signal == "file size limit exceeded" {
		c.count("ended by a signal: "+x.Signal, 1)
		return true
	}
	if x.Signal != "" {
		c.violation(i, what+": ended by a signal: "+x.brief(), f, "")
		return false
	}
	if len(bytes.TrimSpace(x.Stderr)) == 0 {
		c.violation(i, what+": the command fails without a message", f, "")
		return false
	}
	c.count("failures reported", 1)
	return true
}

func checkC21(c *Check) {
	c.rule = "command lines with random flags and parameters in random orders, wrong and missing arguments; inputs that are missing, directories, unreadable, failing; outputs on full devices, with limited file sizes, to missing and read-only places, through slow non-blocking pipes; and failing system calls injected with strace into every operation on every input and output file; exit status 0 is accepted only with complete outputs equal to the reference, the tree of inputs is compared before and after; non-trivial: distinct combinations of command line, fault and outcome"
	c.assume = []string{"a closed standard output is replaced by /dev/null by the Go runtime before main and is not judged", "death by SIGPIPE or SIGXFSZ is a failure reported by status", "the undocumented parameter -r is not used", "output paths equal to input paths are not used"}
	user := nobody
	if x := (Cmd{Bin: c.bin, Dir: c.scratch, Args: []string{"-version"}, UID: nobody}).run(); x.Exit != 0 {
		user = 0
		c.count("unprivileged user not available", 1)
	}
	// (a) command lines
	c.parallel(c.n(3000, 30000), func(w *Worker, i int) {
		r := newRand(c.seed, "C21a", i)
		p := genCli(r, false)
		bus := p.buses[r.Intn(len(p.buses))]
		ts := r.Intn(3) == 0
		ref := w.reference(p, bus, ts)
		what := "reference"
		if c.unusable(i, ref, p.files, what) {
			return
		}
		j, err := decodeBus(ref.Stdout)
		if ref.Exit != 0 || err != nil {
			c.violation(i, "a valid project is rejected: "+ref.brief(), p.files, "")
			return
		}
		if j.Name != bus {
			c.violation(i, fmt.Sprintf("-main %s: the name of the bus is %q", bus, j.Name), p.files, string(ref.Stdout))
			return
		}
		for n, m := range p.mark {
			if has := bytes.Contains(ref.Stdout, []byte(`"`+m+`"`)); has != (n == bus) {
				c.violation(i, fmt.Sprintf("-main %s: functionality %s of bus %s: %v", bus, m, n, has), p.files, string(ref.Stdout))
				return
			}
		}
		if has := bytes.Contains(ref.Stdout, []byte(`"TIMESTAMP"`)); has != ts {
			c.violation(i, fmt.Sprintf("timestamp requested: %v, present: %v", ts, has), p.files, string(ref.Stdout))
			return
		}
		for k := 0; k < 6; k++ {
			debug, cons := r.Intn(3) == 0, r.Intn(3)
			var opts [][]string
			if debug {
				opts = append(opts, []string{"-debug"})
			}
			if ts {
				opts = append(opts, []string{"-add-timestamp"})
			}
			if bus != "main" || r.Intn(2) == 0 {
				opts = append(opts, []string{"-main", bus})
			}
			cpath := ""
			switch cons {
			case 1:
				cpath = "const.json"
				opts = append(opts, []string{"-c"})
			case 2:
				cpath = pick(r, "out.json", "consts", "./o/c.json", "/o.json", "x.fbd.json", "con st.json", "ż.json", "help", "version")
				opts = append(opts, []string{"-c", cpath})
			}
			r.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
			var args []string
			for _, o := range opts {
				args = append(args, o...)
			}
			d := w.project(p.files)
			if strings.HasPrefix(cpath, "/") {
				for n, a := range args {
					if a == cpath {
						args[n] = filepath.Join(d, cpath)
					}
				}
				cpath = strings.TrimPrefix(cpath, "/")
			}
			if strings.HasPrefix(cpath, "./o") {
				os.Mkdir(filepath.Join(d, "o"), 0o755)
			}
			if cpath != "" && r.Intn(2) == 0 { // something is there already
				os.WriteFile(filepath.Join(d, cpath), bytes.Repeat([]byte("{old content}\n"), r.Intn(5000)), 0o644)
			}
			m := p.main
			switch r.Intn(4) {
			case 0:
				m = filepath.Join(d, m)
			case 1:
				m = "./" + m
			case 2:
				m = "lib/../" + m
			}
			if r.Intn(8) == 0 {
				os.Symlink(filepath.Join(d, p.main), filepath.Join(d, "lnk"))
				m = "lnk"
			}
			args = append(args, m)
			before := snapshot(d)
			x := Cmd{Bin: c.bin, Dir: d, Args: args}.run()
			after := snapshot(d)
			c.eval(1)
			what := fmt.Sprintf("arguments %q", args)
			if c.unusable(i, x, p.files, what) {
				return
			}
			if x.Exit != 0 {
				c.violation(i, what+": rejected: "+x.brief(), p.files, "")
				return
			}
			if !bytes.Equal(noStamp(x.Stdout), noStamp(ref.Stdout)) {
				c.violation(i, what+": the output differs from the one of the simplest command line: "+firstDiff(ref.Stdout, x.Stdout), p.files, "")
				return
			}
			if cpath != "" {
				b, err := os.ReadFile(filepath.Join(d, cpath))
				if err != nil || !bytes.Equal(b, ref.Const) {
					c.violation(i, fmt.Sprintf("%s: the constants file differs from the reference: %v %s", what, err, firstDiff(ref.Const, b)), p.files, "")
					return
				}
			}
			if l := changed(before, after, cpath); l != "" {
				c.violation(i, what+": files touched: "+l, p.files, "")
				return
			}
			dbg := bytes.Contains(x.Stderr, []byte("debug: "))
			if dbg != debug || !debug && len(x.Stderr) > 0 {
				c.violation(i, fmt.Sprintf("%s: debug messages requested: %v, stderr: %.300q", what, debug, x.err()), p.files, "")
				return
			}
			c.count("command lines", 1)
			c.nontrivial(what)
			if i < 3 && k == 0 {
				c.sample(what)
			}
		}
		// help and version take over
		d := w.project(p.files)
		fl := pick(r, "-help", "-version")
		args := []string{fl}
		for _, o := range [][]string{{"-debug"}, {"-add-timestamp"}, {"-c", "out.json"}, {"-c"}, {"-main", "nothing"}, {p.main}} {
			if r.Intn(2) == 0 {
				if o[0] == "-c" && r.Intn(2) == 0 || o[0] == p.main {
					args = append(args, o...)
				} else {
					args = append(append([]string(nil), o...), args...)
				}
			}
		}
		before := snapshot(d)
		x := Cmd{Bin: c.bin, Dir: d, Args: args}.run()
		what = fmt.Sprintf("arguments %q", args)
		c.eval(1)
		if c.unusable(i, x, p.files, what) {
			return
		}
		swallowed := false // the flag may be the value of -c
		for n, a := range args {
			if a == fl && n > 0 && args[n-1] == "-main" {
				swallowed = true
			}
		}
		if !swallowed {
			switch {
			case x.Exit != 0 || fl == "-help" && (!bytes.Contains(x.Stdout, []byte("-add-timestamp")) || !bytes.Contains(x.Stdout, []byte("-main")) || !bytes.Contains(x.Stdout, []byte("-c "))) || fl == "-version" && !regexp.MustCompile(`^v?\d+\.\d+\S*\n?$`).Match(x.Stdout):
				c.violation(i, what+": "+x.brief()+" stdout: "+string(x.Stdout), p.files, "")
				return
			}
			if l := changed(before, snapshot(d)); l != "" {
				c.violation(i, what+": files touched: "+l, p.files, "")
				return
			}
			c.count("help and version", 1)
			c.nontrivial(what)
		}
		// wrong command lines
		m := p.main
		bad := [][]string{{}, {"-main"}, {"-main", m}, {"-nothing", m}, {"--help", m}, {"-mainx", "tb", m}, {"-main", "", m}, {"-c", "", m}, {""}, {"-debug", ""}, {"-main", "none", m}, {"-main", "k", m}, {"-main", "W", m}, {"x", m}, {m, m}, {"-add-timestamp", "x", m}, {"-debug=true", m}, {"-main=" + bus, m}, {"-h", m}, {"-v", m}, {"-add_timestamp", m}, {"-Debug", m}}
		args = bad[r.Intn(len(bad))]
		before = snapshot(d)
		x = Cmd{Bin: c.bin, Dir: d, Args: args}.run()
		c.eval(1)
		what = fmt.Sprintf("wrong arguments %q", args)
		if x.Exit == 0 && x.Signal == "" || x.crash() || len(x.Stdout) > 0 || len(bytes.TrimSpace(x.Stderr)) == 0 {
			c.violation(i, what+": "+x.brief()+" stdout: "+string(x.Stdout), p.files, "")
			return
		}
		if l := changed(before, snapshot(d)); l != "" {
			c.violation(i, what+": files touched: "+l, p.files, "")
			return
		}
		c.count("wrong command lines", 1)
		c.nontrivial(what)
	})
	// (b) inputs that cannot be read
	c.parallel(c.n(600, 6000), func(w *Worker, i int) {
		r := newRand(c.seed, "C21b", i)
		p := genCli(r, false)
		d := w.project(p.files)
		os.Chmod(d, 0o777)
		m, uid := p.main, 0
		victim := m
		kind := pick(r, "missing", "directory", "dangling link", "parent is a file", "failing device", "no permission", "no permission for a package file", "loop", "package file replaced", "name too long")
		mp := filepath.Join(d, m)
		switch kind {
		case "missing":
			os.Remove(mp)
		case "directory":
			m = pick(r, ".", "lib", "lib/fbd-k", "/")
			victim = m
		case "dangling link":
			os.Remove(mp)
			os.Symlink("nowhere", mp)
		case "parent is a file":
			m += "/x.fbd"
			victim = m
		case "failing device":
			m = "/proc/self/mem"
			victim = m
		case "no permission":
			if user == 0 {
				return
			}
			os.Chmod(mp, []os.FileMode{0, 0o200, 0o111, 0o300}[r.Intn(4)])
			uid = user
		case "no permission for a package file":
			if user == 0 {
				return
			}
			victim = "lib/fbd-k/" + pick(r, "k.fbd", "m.fbd")
			os.Chmod(filepath.Join(d, victim), []os.FileMode{0, 0o200, 0o333}[r.Intn(3)])
			uid = user
		case "loop":
			os.Remove(mp)
			os.Symlink(filepath.Base(m), mp)
		case "package file replaced":
			victim = "lib/fbd-k/m.fbd"
			os.Remove(filepath.Join(d, victim))
			os.Symlink("/proc/self/mem", filepath.Join(d, victim))
		case "name too long":
			m = strings.Repeat("x", 300) + ".fbd"
			victim = m
		}
		args := []string{m}
		if r.Intn(2) == 0 {
			args = []string{"-c", "const.json", m}
		}
		before := snapshot(d)
		x := Cmd{Bin: c.bin, Dir: d, Args: args, UID: uid}.run()
		c.eval(1)
		if !c.failing(i, "input: "+kind, x, p.files) {
			return
		}
		if x.crash() || len(x.Stdout) > 0 || !strings.Contains(x.err(), victim) {
			c.violation(i, fmt.Sprintf("input: %s: %s stdout: %s", kind, x.brief(), x.Stdout), p.files, "")
			return
		}
		if l := changed(before, snapshot(d)); l != "" {
			c.violation(i, "input: "+kind+": files touched: "+l, p.files, "")
			return
		}
		c.count("unreadable input: "+kind, 1)
		c.nontrivial(kind + fmt.Sprint(args))
	})
	// (c) outputs that cannot be written
	c.parallel(c.n(800, 8000), func(w *Worker, i int) {
		r := newRand(c.seed, "C21c", i)
		p := genCli(r, i%16 == 0)
		bus := p.buses[r.Intn(len(p.buses))]
		ref := w.reference(p, bus, false)
		if ref.Exit != 0 {
			c.violation(i, "a valid project is rejected: "+ref.brief(), p.files, "")
			return
		}
		kind := pick(r, "stdout full", "stdout full", "file size", "file size", "file size", "constants full", "constants directory", "constants in a missing directory", "constants read only", "constants in a read only directory", "constants below a file", "stdout not writable", "stdout pipe without a reader", "slow pipe", "slow pipe", "constants through a link")
		d := w.project(p.files)
		os.Chmod(d, 0o777)
		cpath := "const.json"
		cmd := Cmd{Bin: c.bin, Dir: d}
		fails := true
		var lim int64
		switch kind {
		case "stdout full":
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				return
			}
			defer f.Close()
			cmd.Stdout = f
			if r.Intn(2) == 0 {
				cpath = ""
			}
		case "constants full":
			cpath = "/dev/full"
			if r.Intn(2) == 0 {
				os.Symlink("/dev/full", filepath.Join(d, "full"))
				cpath = "full"
			}
		case "constants directory":
			cpath = pick(r, "lib", ".", "/", "lib/fbd-k/")
		case "constants in a missing directory":
			cpath = pick(r, "no/const.json", "/nonexistent/dir/c.json")
		case "constants read only":
			if user == 0 {
				return
			}
			os.WriteFile(filepath.Join(d, cpath), []byte("{}"), 0o644)
			cmd.UID = user
		case "constants in a read only directory":
			if user == 0 {
				return
			}
			os.Chmod(d, 0o755)
			cmd.UID = user
		case "constants below a file":
			cpath = p.main + "/c.json"
		case "stdout not writable":
			f, _ := os.Open("/dev/null")
			defer f.Close()
			cmd.Stdout = f
		case "stdout pipe without a reader":
			a, b, err := os.Pipe()
			if err != nil {
				return
			}
			a.Close()
			defer b.Close()
			cmd.Stdout = b
		case "file size":
			so := filepath.Join(w.fresh(), "out")
			f, err := os.Create(so)
			if err != nil {
				return
			}
			defer f.Close()
			cmd.Stdout = f
			top := max(len(ref.Stdout), len(ref.Const)) + 2
			lim = int64(r.Intn(top))
			if r.Intn(3) == 0 {
				lim = int64(max(0, pick(r, len(ref.Stdout), len(ref.Const))+r.Intn(3)-1))
			}
			if r.Intn(3) == 0 {
				cpath = ""
			}
			cmd.Limit, cmd.FSize = true, lim
			fails = lim < int64(len(ref.Stdout)) || cpath != "" && lim < int64(len(ref.Const))
		case "slow pipe":
			fails = false
		case "constants through a link":
			os.MkdirAll(filepath.Join(d, "real"), 0o755)
			os.WriteFile(filepath.Join(d, "real/c.json"), bytes.Repeat([]byte("x"), r.Intn(100000)), 0o644)
			os.Symlink("real/c.json", filepath.Join(d, "lnk.json"))
			cpath = "lnk.json"
			fails = false
		}
		if cpath != "" {
			cmd.Args = []string{"-c", cpath}
		}
		cmd.Args = append(cmd.Args, "-main", bus, p.main)
		before := snapshot(d)
		var x *Res
		if kind == "slow pipe" {
			x = slowRun(r, cmd)
			if x == nil {
				return
			}
		} else {
			x = cmd.run()
		}
		after := snapshot(d)
		c.eval(1)
		c.count("outputs: "+kind, 1)
		c.nontrivial(kind + fmt.Sprint(cpath, lim, fails))
		what := fmt.Sprintf("output: %s (%d)", kind, lim)
		if fails {
			if !c.failing(i, what, x, p.files) {
				return
			}
		} else {
			if x.TimedOut {
				c.inconclusive("wall clock watchdog")
				return
			}
			if kind == "file size" {
				x.Stdout, _ = os.ReadFile(cmd.Stdout.Name())
			}
			if x.Exit != 0 || x.Signal != "" {
				c.violation(i, what+": fails though everything can be written: "+x.brief(), p.files, "")
				return
			}
			if !bytes.Equal(x.Stdout, ref.Stdout) {
				c.violation(i, what+": success with other output: "+firstDiff(ref.Stdout, x.Stdout), p.files, "")
				return
			}
			if cpath != "" {
				b, _ := os.ReadFile(filepath.Join(d, cpath))
				if !bytes.Equal(b, ref.Const) {
					c.violation(i, what+": success with other constants: "+firstDiff(ref.Const, b), p.files, "")
					return
				}
			}
		}
		if l := changed(before, after, cpath, "real/c.json"); l != "" {
			c.violation(i, what+": files touched: "+l, p.files, "")
		}
	})
	if c.stop.Load() {
		return
	}
	c.inject()
}

// slowRun runs the command with a non-blocking pipe read slowly.
func slowRun(r *rand.Rand, cmd Cmd) *Res {
	var fds [2]int
	if syscall.Pipe2(fds[:], syscall.O_CLOEXEC) != nil {
		return nil
	}
	if r.Intn(2) == 0 {
		syscall.SetNonblock(fds[1], true)
	}
	if r.Intn(2) == 0 {
		syscall.Syscall(syscall.SYS_FCNTL, uintptr(fds[1]), 1031 /* F_SETPIPE_SZ */, 4096)
	}
	b := os.NewFile(uintptr(fds[1]), "pipe")
	cmd.Stdout = b
	step := 1 + r.Intn(20000)
	pause := time.Duration(r.Intn(300)) * time.Microsecond
	var out bytes.Buffer
	done := make(chan struct{})
	go func() {
		defer close(done)
		buf := make([]byte, step)
		for {
			n, err := syscall.Read(fds[0], buf)
			if err == syscall.EINTR {
				continue
			}
			if n <= 0 {
				return
			}
			out.Write(buf[:n])
			time.Sleep(pause)
		}
	}()
	x := cmd.run()
	b.Close()
	<-done
	syscall.Close(fds[0])
	x.Stdout = out.Bytes()
	return x
}

type fault struct {
	call, err string
}

// inject makes single system calls fail.
func (c *Check) inject() {
	st, err := exec.LookPath("strace")
	if err == nil {
		if b, e := exec.Command(st, "-f", "-o", filepath.Join(c.scratch, "st"), "true").CombinedOutput(); e != nil {
			err = fmt.Errorf("%v %s", e, b)
		}
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "no system call faults: %v\n", err)
		c.count("strace not available", 1)
		return
	}
	faults := []fault{}
	for _, e := range []string{"EIO", "EACCES", "ENOENT", "EMFILE", "ENFILE", "ENOMEM", "EINTR", "ELOOP"} {
		faults = append(faults, fault{"openat", e})
	}
	for _, e := range []string{"EIO", "EISDIR", "ESTALE", "EINTR", "EAGAIN", "EBADF"} {
		faults = append(faults, fault{"read", e})
	}
	for _, e := range []string{"ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPIPE", "EROFS", "EINTR"} {
		faults = append(faults, fault{"write", e})
	}
	for _, e := range []string{"EIO", "ENOSPC", "EDQUOT"} {
		faults = append(faults, fault{"close", e})
	}
	for _, e := range []string{"EIO", "EACCES", "ENOMEM"} {
		faults = append(faults, fault{"fstat", e}, fault{"newfstatat", e}, fault{"fcntl", e}, fault{"epoll_ctl", e})
	}
	c.parallel(c.n(1600, 16000), func(w *Worker, i int) {
		r := newRand(c.seed, "C21d", i)
		p := genCli(r, i%8 == 0)
		bus := p.buses[r.Intn(len(p.buses))]
		ref := w.reference(p, bus, false)
		if ref.Exit != 0 {
			c.violation(i, "a valid project is rejected: "+ref.brief(), p.files, "")
			return
		}
		d := w.project(p.files)
		od := w.fresh()
		op, cp := filepath.Join(od, "out"), filepath.Join(od, "const.json")
		f := faults[r.Intn(len(faults))]
		var target string
		switch f.call {
		case "write":
			target = pick(r, op, cp)
		case "close":
			target = cp
		case "openat":
			target = pick(r, filepath.Join(d, p.main), filepath.Join(d, "lib/fbd-k/k.fbd"), filepath.Join(d, "lib/fbd-k/m.fbd"), cp)
		case "read":
			target = pick(r, filepath.Join(d, p.main), filepath.Join(d, "lib/fbd-k/k.fbd"), filepath.Join(d, "lib/fbd-k/m.fbd"))
		case "newfstatat":
			target = filepath.Join(d, p.main)
		default:
			target = pick(r, filepath.Join(d, p.main), filepath.Join(d, "lib/fbd-k/k.fbd"), filepath.Join(d, "lib/fbd-k/m.fbd"), cp, op)
		}
		when := pick(r, "1", "1", "1+", "2", "2+")
		so, err := os.Create(op)
		if err != nil {
			return
		}
		lf := filepath.Join(od, "log")
		args := []string{"-f", "-o", lf, "-P", target, "-e", "trace=" + f.call, "-e", "inject=" + f.call + ":error=" + f.err + ":when=" + when,
			c.bin, "-c", cp, "-main", bus, filepath.Join(d, p.main)}
		if f.err == "EINTR" && when != "1" && when != "2" {
			so.Close()
			return // retried forever
		}
		before := snapshot(d)
		x := Cmd{Bin: st, Dir: d, Args: args, Stdout: so, NoMem: true}.run()
		so.Close()
		c.eval(1)
		if x.TimedOut {
			c.inconclusive("wall clock watchdog under strace")
			return
		}
		lb, _ := os.ReadFile(lf)
		hit := bytes.Count(lb, []byte("(INJECTED)"))
		c.count("system calls failed", int64(hit))
		if hit > 0 {
			c.count("faults in "+f.call, 1)
			rel, _ := filepath.Rel(filepath.Dir(od), target)
			c.nontrivial(f.call + f.err + when + filepath.Base(rel) + fmt.Sprint(x.Exit))
			c.seen("faults", f.call+" "+f.err+" on "+filepath.Base(rel))
		}
		what := fmt.Sprintf("%s of %s fails with %s (when %s, %d times)", f.call, filepath.Base(target), f.err, when, hit)
		if l := changed(before, snapshot(d)); l != "" {
			c.violation(i, what+": files touched: "+l, p.files, string(lb))
			return
		}
		if x.Exit == 0 && x.Signal == "" {
			o, _ := os.ReadFile(op)
			k, _ := os.ReadFile(cp)
			if !bytes.Equal(o, ref.Stdout) {
				c.violation(i, what+": success with incomplete output: "+firstDiff(ref.Stdout, o), p.files, string(lb))
			} else if !bytes.Equal(k, ref.Const) {
				c.violation(i, what+": success with incomplete constants: "+firstDiff(ref.Const, k), p.files, string(lb))
			} else {
				c.count("succeeded with complete outputs", 1)
			}
			// a failed operation must not be ignored
			if hit > 0 && (f.call == "close" && target == cp || f.call == "write" && f.err != "EINTR") {
				c.violation(i, what+": success though the output may be incomplete", p.files, string(lb))
			}
			return
		}
		if hit == 0 {
			c.violation(i, what+": a valid project is rejected: "+x.brief(), p.files, string(lb))
			return
		}
		c.failing(i, what, x, p.files)
	})
}
