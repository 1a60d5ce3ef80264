package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() { register("C13", checkC13) }

//go:embed driver/driver.go.txt
var driverSrc string

var declaredPanic = regexp.MustCompile(`(?m)^(panic: |fatal error: |\s+panic: ).*(unimplemented|not yet implemented|not yet supported|implement me)`)

// declared tells if the command stopped with the declaration that something is not implemented.
func declared(r *Res) bool {
	return r.Exit == 2 && r.Signal == "" && declaredPanic.MatchString(r.err())
}

// buildDriver builds the command with the in-process driver, or returns an empty string.
func (c *Check) buildDriver() string {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv("0", c.verif)
	b, err := cmd.Output()
	if err != nil {
		return ""
	}
	src := filepath.Join(strings.TrimSpace(string(b)), "src", "log", "log.go")
	t, err := os.ReadFile(src)
	if err != nil {
		return ""
	}
	s := strings.ReplaceAll(string(t), "os.Exit(1)", "vhExit()")
	s += `
// VHExit replaces the end of the process.
var VHExit func()

func vhExit() {
	if VHExit != nil {
		VHExit()
	}
	os.Exit(1)
}
`
	lf := filepath.Join(c.scratch, "log.go")
	o := filepath.Join(c.scratch, "overlay.json")
	os.WriteFile(lf, []byte(s), 0o644)
	j, _ := json.Marshal(map[string]any{"Replace": map[string]string{src: lf}})
	os.WriteFile(o, j, 0o644)
	// The coverage tool ignores overlays, the driver is put into a copy of the working tree.
	tree := filepath.Join(c.scratch, "tree")
	err = c.copyTree(tree)
	if err == nil {
		err = os.WriteFile(filepath.Join(tree, "cmd/fbdl/vh_driver.go"), []byte(driverSrc), 0o644)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "the driver cannot be built, only the command is run: %v\n", err)
		return ""
	}
	bin := filepath.Join(c.scratch, "fbdl-driver")
	cmd = exec.Command("go", "build", "-overlay", o, "-cover", "-covermode=atomic", "-coverpkg=./...", "-o", bin, "./cmd/fbdl")
	cmd.Dir = tree
	cmd.Env = goEnv("0", c.verif)
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the driver cannot be built, only the command is run: %v\n%s\n", err, b)
		return ""
	}
	return bin
}

// judgeCrash decides one run of the command on arbitrary input.
func (c *Check) judgeCrash(i int, r *Res, f Files, what string) bool {
	if r.TimedOut && r.CPU < cpuLimit && r.Signal != "" {
		c.inconclusive("wall clock watchdog")
		return false
	}
	if r.Exit == -1 && r.Signal == "" {
		c.internal("cannot run the command: " + r.err())
		return false
	}
	switch {
	case declared(r):
		c.count("declared as not implemented", 1)
	case r.crash():
		c.violation(i, what+": the command crashed: "+r.brief(), f, "")
		return false
	case r.Exit == 1 && len(strings.TrimSpace(r.err())) < 3:
		c.violation(i, what+": rejected without a message", f, "")
		return false
	case r.Exit == 1 && len(r.Stdout) > 0:
		c.violation(i, what+": rejected with output", f, string(r.Stdout))
		return false
	case r.Exit == 0 && !json.Valid(r.Stdout):
		c.violation(i, what+": accepted without a complete JSON document", f, string(r.Stdout))
		return false
	case r.Exit == 0:
		c.count("accepted", 1)
	default:
		c.count("rejected", 1)
		h, _, _ := strings.Cut(r.err(), "\n")
		c.seen("messages", regexp.MustCompile(`'[^']*'|[0-9]+`).ReplaceAllString(h, "X"))
	}
	return true
}

// corpusProject makes one project: valid, ill-formed or garbled.
func corpusProject(r *rand.Rand, i int, cat []ill) Files {
	o := fullOpt(i)
	o.MaxElems, o.MaxDepth = 1+r.Intn(4), 1+r.Intn(2)
	d := genDesign(r, o)
	st := func() *Style { return wild(r) }
	switch r.Intn(4) {
	case 0:
		f := newFactorer(r, r.Intn(3))
		factorProfile(f, r.Intn(5))
		return f.factor(d, st)
	case 1:
		return Files{"bus.fbd": printItems([]*Item{d.item()}, st())}
	}
	for {
		x := cat[r.Intn(len(cat))]
		switch {
		case x.body != "":
			f, _ := placeBody(r, d, x.body, func() *Style { return diagStyle(r) })
			return f
		case x.top != "":
			return Files{"bus.fbd": d.flat() + x.top}
		case x.design != nil:
			g := &Gen{r: r, o: o, bw: d.busWidth()}
			b := d.clone()
			if x.design(g, b) {
				return Files{"bus.fbd": b.flat()}
			}
		}
	}
}

// hostile lists inputs meant to exhaust the compiler.
func hostile(c *Check) []Files {
	var l []Files
	add := func(t string) { l = append(l, Files{"bus.fbd": t}) }
	rep := strings.Repeat
	sizes := []int{10, 100, 1000, 5000}
	if !c.quick() {
		sizes = append(sizes, 20000, 100000)
	}
	for _, n := range sizes {
		for _, w := range [][2]string{{"(", ")"}, {"[", "]"}, {"-", ""}, {"!", ""}, {"log2(", ")"}, {"abs(", ")"}, {"1 + (", ")"}, {"1 + ", ""}, {"2 ** ", ""}, {"[1, ", "]"}, {"1 : ", ""}, {"+", ""}, {"true && ", ""}, {"\"a\" + ", ""}, {"1, ", ""}, {"- -", ""}, {"1 << ", ""}, {"1 - ", ""}} {
			e := rep(w[0], n) + "1" + rep(w[1], n)
			add("main bus\n  c config; width = " + e + "\n")
			add("const A = " + e + "\nmain bus\n  const B = A\n  c config\n")
			add("const A = " + rep(w[0], n) + "\nmain bus\n  c config\n")
			add("main bus\n  c [" + e + "]config\n")
			add("type T(a = " + e + ") config; width = a\nmain bus\n  c T\n")
		}
		depth := min(n, 1500)
		nest := "main bus\n"
		for k := 1; k <= depth; k++ {
			nest += rep("  ", k) + "b block\n"
		}
		add(nest + rep("  ", depth+1) + "c config\n")
		add(nest)
		chain := ""
		m := min(n, 500) // resolving chains takes cubic time
		for k := 0; k < m; k++ {
			chain += fmt.Sprintf("type T%d T%d\n", k, k+1)
		}
		add(chain + fmt.Sprintf("type T%d config\nmain bus\n  c T0\n", m))
		add(chain + fmt.Sprintf("type T%d T0\nmain bus\n  c T0\n", m))
		cc := ""
		for k := 0; k < m; k++ {
			cc += fmt.Sprintf("const C%d = C%d + 1\n", k, k+1)
		}
		add(cc + fmt.Sprintf("const C%d = 1\nmain bus\n  c config; width = C0 %% 50 + 1\n", m))
		add(cc + fmt.Sprintf("const C%d = C0\nmain bus\n  c config; width = C0\n", m))
		bt := ""
		for k := 0; k < m; k++ {
			bt += fmt.Sprintf("type B%d block\n  x B%d\n", k, k+1)
		}
		add(bt + fmt.Sprintf("type B%d block\n  c config\nmain bus\n  b B0\n", m))
		add(bt + fmt.Sprintf("type B%d block\n  c B0\nmain bus\n  b B0\n", m))
		many := "main bus\n"
		for k := 0; k < n; k++ {
			many += fmt.Sprintf("  c%d config; width = %d\n", k, k%70+1)
		}
		add(many)
		add("main bus\n" + rep("  c config\n", n))
		add("main bus\n  c config" + rep("; width = 1", n) + "\n")
		add("main bus\n  c config; width = 1 # " + rep("x", n) + "\n")
		add(rep("# c\n", n) + "main bus\n  c config\n")
		add(rep("\n", n) + "main bus\n  c config\n")
		add(rep(" ", n) + "main bus\n  c config\n")
		add("main bus\n" + rep(" ", n) + "c config\n")
		add("main bus\n  " + rep("c", n) + " config\n")
		add("main bus\n  c config; init-value = b\"" + rep("1", n) + "\"; width = " + fmt.Sprint(n) + "\n")
		add("main bus\n  c config; init-value = x\"" + rep("f", n) + "\"; width = " + fmt.Sprint(4*n) + "\n")
		add("main bus\n  c config; width = " + rep("9", n) + "\n")
		add("main bus\n  c config; width = 0x" + rep("f", n) + "\n")
		add("main bus\n  c config; width = 0b" + rep("1", n) + "\n")
		add("const A = 1." + rep("0", n) + "1\nmain bus\n  c config\n")
		add("const A = 1e" + rep("9", n) + "\nmain bus\n  c config\n")
		add("const A = \"" + rep("a", n) + "\"\nmain bus\n  c config\n")
		add("const A = \"" + rep("a", n) + "\nmain bus\n  c config\n")
		add("type T(" + rep("a, ", n) + "b) config\nmain bus\n  c T(1)\n")
		ps, as := "", ""
		for k := 0; k < n; k++ {
			ps += fmt.Sprintf("a%d = %d, ", k, k)
			as += fmt.Sprintf("a%d = %d, ", k, k+1)
		}
		add("type T(" + ps + "b = 1) config; width = b\nmain bus\n  c T(" + as + "b = 2)\n")
		add("main bus\n  c T(" + rep("1, ", n) + "1)\n")
		add("main bus\n  p proc\n" + rep("    a param\n", n))
		st := "main bus\n  p proc\n"
		for k := 0; k < n; k++ {
			st += fmt.Sprintf("    a%d param; width = 7\n", k)
		}
		add(st)
		add(strings.Replace(st, "proc", "stream", 1))
		add(strings.Replace(strings.Replace(st, "proc", "group", 1), "param; width = 7", "irq", -1))
		add(strings.Replace(strings.Replace(st, "proc", "group", 1), "param; width = 7", "config; width = 7", -1))
		add("import \"" + rep("x", n) + "\"\nmain bus\n  c config\n")
		imp := "import\n"
		for k := 0; k < n; k++ {
			imp += fmt.Sprintf("  p%d \"fbd-p\"\n", k)
		}
		l = append(l, Files{"bus.fbd": imp + "main bus\n  c config; width = p0.A\n", "fbd-p/a.fbd": "const A = 3\n"})
	}
	// mutual use of packages
	for n := 2; n < 6; n++ {
		f := Files{"bus.fbd": "import p \"p0\"\nmain bus\n  b p.T\n  c config; width = p.A\n"}
		g := Files{"bus.fbd": "import p \"p0\"\nmain bus\n  b p.T\n  c config; width = p.A\n"}
		for k := 0; k < n; k++ {
			q := (k + 1) % n
			f[fmt.Sprintf("fbd-p%d/a.fbd", k)] = fmt.Sprintf("import q \"p%d\"\nconst A = q.A\ntype T block\n  x q.T\n", q)
			g[fmt.Sprintf("fbd-p%d/a.fbd", k)] = fmt.Sprintf("import q \"p%d\"\nconst A = q.B\nconst B = 3\ntype T block\n  x q.U\ntype U block\n  c config\n", q)
		}
		l = append(l, f, g)
	}
	big := []string{"9223372036854775807", "9223372036854775806", "4611686018427387904", "1099511627776", "4294967296", "2147483648", "1000000"}
	for _, v := range big {
		for _, k := range []string{"config", "mask", "status", "static", "irq", "proc", "stream", "block", "blackbox", "group"} {
			body := map[string]string{"static": "; init-value = 0", "blackbox": "; size = 1", "block": "\n    c status", "group": "\n    c status"}[k]
			add(fmt.Sprintf("main bus\n  x [%s]%s%s\n", v, k, body))
			if k == "proc" || k == "stream" {
				add(fmt.Sprintf("main bus\n  x %s\n    p [%s]param\n", k, v))
				add(fmt.Sprintf("main bus\n  x [3]%s\n    p [%s]return; width = 7\n", k, v))
				add(fmt.Sprintf("main bus\n  x [%s]%s\n    p [%s]return; width = 7\n", v, k, v))
				add(fmt.Sprintf("main bus\n  x %s\n    p param; width = %s\n    q param; width = 9\n", k, v))
				add(fmt.Sprintf("main bus\n  x %s; delay = %s s\n    p param\n", k, v))
			}
			if k == "block" {
				add(fmt.Sprintf("main bus\n  x [%s]block\n    y [%s]block\n      c [%s]status\n", v, v, v))
				add(fmt.Sprintf("main bus\n  x block\n    align = %s\n    c status\n", v))
				add(fmt.Sprintf("main bus\n  x block\n    masters = %s\n    c status\n", v))
			}
			if k == "group" {
				add(fmt.Sprintf("main bus\n  x group\n    c [%s]status; width = 3\n    d [%s]config\n", v, v))
			}
		}
		for _, k := range []string{"config", "mask", "status", "static"} {
			iv := ""
			if k == "static" {
				iv = "; init-value = b\"1\""
			}
			add(fmt.Sprintf("main bus\n  x %s; width = %s%s\n", k, v, iv))
			add(fmt.Sprintf("main bus\n  x [3]%s; width = %s%s\n", k, v, iv))
			add(fmt.Sprintf("main bus\n  width = %s\n  x %s; width = 8%s\n", v, k, iv))
			add(fmt.Sprintf("main bus\n  width = %s\n  x [%s]%s; width = 8%s\n", v, v, k, iv))
		}
		add(fmt.Sprintf("main bus\n  x config; range = %s\n", v))
		add(fmt.Sprintf("main bus\n  x config; range = 0:%s\n", v))
		add(fmt.Sprintf("main bus\n  x config; range = [0:1, 5:%s]\n", v))
		add(fmt.Sprintf("main bus\n  masters = %s\n  x config\n", v))
		add(fmt.Sprintf("main bus\n  align = %s\n  x config\n", v))
		add(fmt.Sprintf("main bus\n  x blackbox; size = %s\n  y blackbox; size = %s\n", v, v))
		add(fmt.Sprintf("main bus\n  x [2]blackbox; size = %s\n", v))
		add(fmt.Sprintf("const A = 2 ** %s\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = %s ** 2\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = 1 ** %s\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = 0 - 1 ** %s\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = 1 << %s\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = 1 >> %s\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = %s %% (0 - 1)\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = (0 - %s - 1) / (0 - 1)\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = (0 - %s - 1) %% (0 - 1)\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = abs(0 - %s - 1)\nmain bus\n  x config\n", v))
		add(fmt.Sprintf("const A = 0:%s\nmain bus\n  const B = A\n  x config; range = A\n", v))
	}
	for _, t := range []string{"", " ", "  ", "   ", "\n", "\t", "\r", "\x00", "#", "# a", "#\n", "##\n", "\xff", "\xef\xbb\xbf", "\xef\xbb\xbfmain bus\n", "ż", "\"", "\"\n", "\"a", "b\"", "x\"", "o\"", "b\"\n", "b\"1", "main", "main ", "main bus", "main bus ", "main bus;", "main bus\n", "main bus\n ", "main bus\n  ", "main bus\n  c", "main bus\n  c ", "main bus\n  c c", "main bus\n  c config", "main bus\n  c config\n  ", "main bus\n  c config\n\n\n", "main bus\n  c [", "main bus\n  c [1", "main bus\n  c [1]", "const", "const ", "const\n", "const\n ", "const\n  ", "const\n  A", "const A", "const A ", "const A=", "const A=1", "const A = -", "const A = 1 +", "const A = (", "const A = [", "const A = [1,", "const A = f(", "const A = f(1,", "const A = a.", "const A = .", "const A = 1.", "const A = 0x", "const A = 1e", "const A = 1e-", "const A = 1 s", "const A = 1 n", "const A = !", "const A = 1 :", "import", "import ", "import\n", "import\n  ", "import \"", "import a", "import a ", "import \"\"", "import a \"", "type", "type ", "type T", "type T ", "type T(", "type T(a", "type T(a,", "type T(a=", "type T()", "type T(a)", "type T(a) ", "type T c", "type T T", "type T bus;", "type T [", "type T [1]", "type T [1]c", ";", ",", "(", ")", "[", "]", "=", "=1", ":", "-", "+", "*", "/", "%", "<", ">", "&", "|", "!", "@", "~", "^", "?", ".", "..", "1", "0", "01", "1a", "a1", "_", "-a", "a-b", "a.b", ".a", "a..b", "true", "false", "width", "width = 3"} {
		add(t)
		add(t + "\n")
		add("main bus\n  c config\n" + t)
		add("main bus\n  c config\n" + t + "\n")
		add("main bus\n  c config\n  " + t)
		add("main bus\n  c config\n  " + t + "\n")
		add("main bus\n  c config; " + t)
		add(t + "\nmain bus\n  c config\n")
		l = append(l, Files{"bus.fbd": "import \"p\"\nmain bus\n  c config\n", "fbd-p/a.fbd": t})
	}
	return l
}

func checkC13(c *Check) {
	c.rule = "hostile inputs (deep nesting, long chains, chains with exponentially many paths, cycles, extreme numbers, fragments), every truncation of descriptions, random bytes and tokens run by the real command; and coverage-guided mutation of a corpus of projects run by main() itself inside one process, built from the working tree with an overlay that only returns from log.Fatal to the driver, every alarm confirmed with the real command; non-trivial: distinct inputs"
	c.assume = []string{"a run is a hang when it exceeds 20 s of CPU time or 6 GB of address space", "panics naming something unimplemented are the compiler's declaration and are counted only", "nesting of expressions to 5000 levels in quick runs, 100000 in thorough runs, of blocks to 1500 levels; chains of types and constants to 500 links, as resolving them takes cubic time; chains in which every link refers several times to the previous one to 62 links"}
	cat := illCatalogue()
	// (a) hostile inputs
	hs := append(hostile(c), fans(c)...)
	c.parallel(len(hs), func(w *Worker, i int) {
		var args []string
		if i%2 == 1 {
			args = []string{"-add-timestamp", "-c", "const.json"}
		}
		res := w.compile(hs[i], args...)
		c.eval(1)
		t := hs[i]
		if len(t.text()) > 20000 {
			x := t.text()
			t = Files{"bus.fbd": t["bus.fbd"], "note.txt": x[:200]}
		}
		c.judgeCrash(i, res, t, "hostile input")
		c.nontrivial(hs[i].text())
		if i%300 == 7 {
			c.sample(fmt.Sprintf("%.120q: exit %d %s", hs[i].text(), res.Exit, res.brief()))
		}
		if os.Getenv("VH_HOSTILE") != "" {
			fmt.Fprintf(os.Stderr, "hostile %d %.2fs %dMB %.60q\n", i, res.CPU.Seconds(), res.MaxRSS/1024, hs[i]["bus.fbd"])
		}
		c.mu.Lock()
		if v := int64(res.CPU / time.Millisecond); v > c.counts["most CPU time of a hostile input, ms"] {
			c.counts["most CPU time of a hostile input, ms"] = v
		}
		if v := res.MaxRSS / 1024; v > c.counts["most memory of a hostile input, MB"] {
			c.counts["most memory of a hostile input, MB"] = v
		}
		c.mu.Unlock()
	})
	// (b) truncations
	nt := c.n(24, 200)
	c.parallel(nt, func(w *Worker, i int) {
		r := newRand(c.seed, "C13b", i)
		f := corpusProject(r, i, cat)
		k := "bus.fbd"
		if r.Intn(3) == 0 {
			var ks []string
			for n := range f {
				if strings.HasSuffix(n, ".fbd") {
					ks = append(ks, n)
				}
			}
			sort.Strings(ks)
			k = ks[r.Intn(len(ks))]
		}
		t := f[k]
		step := 1 + len(t)/400
		for n := r.Intn(step); n < len(t); n += step {
			g := Files{}
			for a, b := range f {
				g[a] = b
			}
			g[k] = t[:n]
			if r.Intn(8) == 0 {
				g[k] = t[n:]
			}
			res := w.compile(g)
			c.eval(1)
			c.count("truncations", 1)
			if !c.judgeCrash(i, res, g, "truncation") {
				return
			}
			c.nontrivial(g[k] + fmt.Sprint(i))
			w.clean()
		}
	})
	// (c) random tokens
	toks := []string{" ", " ", " ", "  ", "\n", "\n", "\n  ", "\n    ", "#", ";", ",", "(", ")", "[", "]", "=", ":", "\"", "'", "@", "x", "1", "0x1", "b\"1\"", "x\"f\"", "o\"1", "\"a\"", "type", "const", "import", "config", "width", "true", "ns", ".", "-", "+", "**", "<", "<<", "&&", "|", "!", "1.5", "1e3", "main", "bus", "block", "proc", "param", "irq", "group", "range", "init-value", "T", "A", "log2", "main bus\n", "\r", "\t", "\xff", "\x00", "ż"}
	c.parallel(c.n(6000, 60000), func(w *Worker, i int) {
		r := newRand(c.seed, "C13c", i)
		t := ""
		for n := r.Intn(40); n >= 0; n-- {
			if r.Intn(40) == 0 {
				t += string([]byte{byte(r.Intn(256))})
			} else {
				t += toks[r.Intn(len(toks))]
				if r.Intn(2) == 0 {
					t += " "
				}
			}
		}
		if r.Intn(2) == 0 {
			t = "main bus\n  c config\n" + t
		}
		f := Files{"bus.fbd": t}
		c.eval(1)
		c.count("random tokens", 1)
		c.judgeCrash(i, w.compile(f), f, "random tokens")
		c.nontrivial(t)
	})
	if c.stop.Load() {
		return
	}
	// (d) in-process mutation
	drv := c.buildDriver()
	if drv == "" {
		c.count("driver not available", 1)
		c.parallel(c.n(40000, 400000), func(w *Worker, i int) {
			r := newRand(c.seed, "C13e", i)
			f := corpusProject(r, i, cat)
			f["bus.fbd"] = garble(r, f["bus.fbd"])
			c.eval(1)
			c.judgeCrash(i, w.compile(f), f, "garbled")
			c.nontrivial(f.text())
		})
		return
	}
	base := c.scratch
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		if d, err := os.MkdirTemp("/dev/shm", "vh-C13-"); err == nil {
			base = d
			cleanupDirs = append(cleanupDirs, d)
		}
	}
	var wg sync.WaitGroup
	workers := 8
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.fuzzWorker(drv, filepath.Join(base, fmt.Sprintf("w%d", k)), k, cat)
		}()
	}
	wg.Wait()
}

type driverResult struct {
	Cases, Ok, Rejected, Declared int
	Blocks, Kept                  int
	Messages                      map[string]int
	Findings                      []struct {
		What  string
		Files map[string]string
	}
	Done   bool
	MaxCPU float64
}

func (c *Check) fuzzWorker(drv, dir string, k int, cat []ill) {
	corpus := filepath.Join(dir, "corpus")
	for i := 0; i < 120; i++ {
		r := newRand(c.seed, fmt.Sprintf("C13d%d", k), i)
		f := corpusProject(r, i, cat)
		if err := f.write(filepath.Join(corpus, fmt.Sprintf("p%d", i))); err != nil {
			c.internal("corpus: " + err.Error())
			return
		}
	}
	w := &Worker{c: c, n: 100 + k, dir: filepath.Join(dir, "confirm")}
	budget := float64(c.n(45, 1500))
	start := time.Now()
	wall := time.Duration(budget*3) * time.Second
	left := budget
	for try := int64(0); left > 1 && time.Since(start) < wall && !c.stop.Load(); try++ {
		cfg := map[string]any{
			"Corpus": corpus, "Seed": c.seed*1000003 + int64(k)*1009 + try, "Cases": 1 << 30, "CPU": left, "Limit": 20.0,
			"State": filepath.Join(dir, "state"), "Result": filepath.Join(dir, "result"), "Grow": 1500,
		}
		b, _ := json.Marshal(cfg)
		cf := filepath.Join(dir, "config.json")
		os.WriteFile(cf, b, 0o644)
		os.Remove(filepath.Join(dir, "result"))
		t0 := time.Now()
		r := Cmd{Bin: drv, Dir: dir, Env: []string{"VH_DRIVER=" + cf, "GOMAXPROCS=2", "GOMEMLIMIT=1500MiB"}, Wall: wall, NoCPU: true}.run()
		left -= max(r.CPU.Seconds(), 0.2)
		_ = t0
		var res driverResult
		if b, err := os.ReadFile(filepath.Join(dir, "result")); err == nil {
			json.Unmarshal(b, &res)
		}
		c.eval(int64(res.Cases))
		c.count("in-process cases", int64(res.Cases))
		c.count("in-process accepted", int64(res.Ok))
		c.count("in-process rejected", int64(res.Rejected))
		c.count("declared as not implemented", int64(res.Declared))
		c.count("inputs kept for new coverage", int64(res.Kept))
		c.mu.Lock()
		if int64(res.Blocks) > c.counts["counter states covered by one worker"] {
			c.counts["counter states covered by one worker"] = int64(res.Blocks)
		}
		c.mu.Unlock()
		for m := range res.Messages {
			c.seen("in-process messages", m)
		}
		for j := 0; j < res.Kept; j++ {
			c.nontrivial(fmt.Sprintf("kept %d %d %d", k, try, j))
		}
		confirm := func(what string, f Files) {
			for n := 0; n < 6; n++ {
				var args []string
				if n%2 == 1 {
					args = []string{"-add-timestamp", "-c", "const.json"}
				}
				x := w.compile(f, args...)
				if !c.judgeCrash(int(try), x, f, "mutated project ("+what+")") {
					return
				}
			}
			c.count("alarms of the driver not confirmed by the command", 1)
		}
		for _, x := range res.Findings {
			h, _, _ := strings.Cut(x.What, "\n")
			confirm(h, Files(x.Files))
		}
		if r.Exit == 0 && res.Done {
			if len(res.Findings) == 0 {
				break
			}
			continue
		}
		// the driver died on the current case
		b, _ = os.ReadFile(filepath.Join(dir, "state"))
		ls := strings.Split(string(b), "\n")
		if len(ls) < 3 {
			c.internal("driver: no state: " + r.brief())
			return
		}
		f := readFiles(ls[0])
		if declaredPanic.MatchString(r.err()) {
			c.count("declared as not implemented", 1)
		} else {
			h, _, _ := strings.Cut(r.err(), "\n")
			confirm(fmt.Sprintf("the driver ended with status %d %s %s", r.Exit, r.Signal, h), f)
		}
		// take the case out of the corpus
		if strings.HasPrefix(filepath.Base(ls[0]), "k") {
			os.RemoveAll(ls[0])
		} else if len(ls[0]) > len(corpus) {
			os.RemoveAll(ls[0])
		}
		c.count("driver restarts", 1)
	}
}

func readFiles(dir string) Files {
	f := Files{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			f[rel] = string(b)
		}
		return nil
	})
	return f
}

var _ = syscall.SIGKILL
