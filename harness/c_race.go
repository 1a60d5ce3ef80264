package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() { register("C17", checkC17) }

// copyTree copies the non-test Go sources of the working tree.
func (c *Check) copyTree(tree string) error {
	return filepath.Walk(c.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(c.repo, p)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return nil
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") || !strings.HasSuffix(p, ".go") && fi.Name() != "go.mod" && fi.Name() != "go.sum" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		q := filepath.Join(tree, rel)
		os.MkdirAll(filepath.Dir(q), 0o755)
		return os.WriteFile(q, b, 0o644)
	})
}

const schedSrc = `// Package vhsched perturbs the schedule.
package vhsched

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"time"
)

var rate, _ = strconv.Atoi(os.Getenv("VH_SCHED"))

func Point() {
	if rate == 0 {
		return
	}
	switch x := rand.IntN(rate); {
	case x < 8:
		runtime.Gosched()
	case x == 8:
		time.Sleep(time.Duration(rand.IntN(200)) * time.Microsecond)
	case x == 9:
		t := time.Now()
		for time.Since(t) < time.Duration(rand.IntN(50))*time.Microsecond {
		}
	}
}
`

// perturb puts scheduling points into every function and loop of a copy of the working tree.
func (c *Check) perturb(tree string) (int, error) {
	mod, err := os.ReadFile(filepath.Join(tree, "go.mod"))
	if err != nil {
		return 0, err
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mod)
	if m == nil {
		return 0, errors.New("no module line")
	}
	imp := string(m[1]) + "/internal/vhsched"
	os.MkdirAll(filepath.Join(tree, "internal/vhsched"), 0o755)
	if err := os.WriteFile(filepath.Join(tree, "internal/vhsched/s.go"), []byte(schedSrc), 0o644); err != nil {
		return 0, err
	}
	points := 0
	err = filepath.Walk(tree, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.Contains(p, "vhsched") {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		n := 0
		add := func(b *ast.BlockStmt) {
			if b == nil {
				return
			}
			call := &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vhsched"), Sel: ast.NewIdent("Point")}}}
			b.List = append([]ast.Stmt{call}, b.List...)
			n++
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				if x.Name.Name != "init" {
					add(x.Body)
				}
			case *ast.FuncLit:
				add(x.Body)
			case *ast.ForStmt:
				add(x.Body)
			case *ast.RangeStmt:
				add(x.Body)
			}
			return true
		})
		if n == 0 {
			return nil
		}
		points += n
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), &ast.File{Name: f.Name, Decls: append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("vhsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", imp)}}}}}, f.Decls...)}); err != nil {
			return err
		}
		return os.WriteFile(p, b.Bytes(), 0o644)
	})
	return points, err
}

// buildRace builds the command with the race detector; the second one has additional scheduling points.
func (c *Check) buildRace() (string, string) {
	a := filepath.Join(c.scratch, "fbdl-race")
	c.goBuild(a, c.repo, "1", "-race")
	tree := filepath.Join(c.scratch, "rtree")
	b := filepath.Join(c.scratch, "fbdl-sched")
	err := c.copyTree(tree)
	n := 0
	if err == nil {
		n, err = c.perturb(tree)
	}
	if err == nil {
		cmd := exec.Command("go", "build", "-race", "-o", b, "./cmd/fbdl")
		cmd.Dir = tree
		cmd.Env = goEnv("1", c.verif)
		var o []byte
		o, err = cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v\n%s", err, o)
		}
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "no perturbed command, the plain one is used: %v\n", err)
		c.count("perturbed command not available", 1)
		return a, a
	}
	c.count("scheduling points inserted", int64(n))
	return a, b
}

// ---------------------------------------------------------------------------
// Projects with many packages and files.
// ---------------------------------------------------------------------------

type rpkg struct {
	name   string
	dir    string
	files  []string
	consts map[string]int64
	names  []string
	types  []string
	widths map[string]int64
	broken []string
}

type rproj struct {
	pkgs  []*rpkg
	files Files
	flat  string // equivalent description of a single file
}

// genRace makes a project with n packages.
func genRace(r *rand.Rand, n int) *rproj {
	p := &rproj{files: Files{}}
	perm := r.Perm(n)
	many := -1 // a package of many files
	if r.Intn(20) == 0 {
		many = r.Intn(n)
	}
	for k := 0; k < n; k++ {
		g := &rpkg{name: fmt.Sprintf("p%d", perm[k]), consts: map[string]int64{}, widths: map[string]int64{}}
		g.dir = pick(r, "", "", "lib/", "a/b/", "z/") + "fbd-" + g.name
		nf := 1 + r.Intn(4)
		if k == many {
			nf = pick(r, 20, 70, 150)
		}
		for j := 0; j < nf; j++ {
			var imports, items []string
			al := map[int]string{}
			for m := r.Intn(4); m > 0 && k > 0; m-- {
				q := r.Intn(k)
				if al[q] != "" {
					continue
				}
				al[q] = "i" + p.pkgs[q].name
				imports = append(imports, fmt.Sprintf("import i%s \"%s\"", p.pkgs[q].name, filepath.Base(p.pkgs[q].dir)))
			}
			var deps []int
			for q := 0; q < k; q++ {
				if al[q] != "" {
					deps = append(deps, q)
				}
			}
			// an import of a later package or of itself, not used
			if r.Intn(4) == 0 {
				q := perm[r.Intn(n)]
				if al[-1] == "" {
					imports = append(imports, fmt.Sprintf("import u%d \"fbd-p%d\"", q, q))
				}
			}
			for m := 1 + r.Intn(6); m > 0; m-- {
				name := fmt.Sprintf("K%d_%d", j, m)
				if r.Intn(4) == 0 {
					name = fmt.Sprintf("SAME%d_%d", j, m) // the same name in many packages
				}
				if _, dup := g.consts[name]; dup {
					continue
				}
				v := int64(r.Intn(1000))
				e := fmt.Sprint(v)
				if len(deps) > 0 && r.Intn(2) == 0 {
					d := p.pkgs[deps[r.Intn(len(deps))]]
					c := d.names[r.Intn(len(d.names))]
					v = d.consts[c] + 1
					e = "i" + d.name + "." + c + " + 1"
				} else if len(g.names) > 0 && r.Intn(2) == 0 {
					c := g.names[r.Intn(len(g.names))]
					v = g.consts[c] + 2
					e = "2 + " + c
				}
				g.consts[name] = v
				g.names = append(g.names, name)
				items = append(items, fmt.Sprintf("const %s = %s", name, e))
			}
			for m := r.Intn(4); m > 0; m-- {
				name := fmt.Sprintf("T%d_%d", j, m)
				w := int64(1 + r.Intn(40))
				g.widths[name] = w
				g.types = append(g.types, name)
				if len(g.names) > 0 && r.Intn(2) == 0 {
					c := g.names[r.Intn(len(g.names))]
					items = append(items, fmt.Sprintf("type %s config\n  width = %s %% 1 + %d", name, c, w))
				} else {
					items = append(items, fmt.Sprintf("type %s(w = %d) config; width = w", name, w))
				}
			}
			for m := r.Intn(3); m > 0; m-- {
				items = append(items, "# "+strings.Repeat("comment ", r.Intn(300)))
			}
			r.Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })
			f := fmt.Sprintf("%s/%s%d.fbd", g.dir, pick(r, "a", "m", "z", "Q"), j)
			t := strings.Join(imports, "\n") + "\n"
			if len(imports) == 0 {
				t = ""
			}
			for _, x := range items {
				if strings.HasPrefix(x, "#") {
					x += "\n"
				}
				t += x + "\n"
			}
			p.files[f] = t
			g.files = append(g.files, f)
		}
		p.pkgs = append(p.pkgs, g)
	}
	main, flat := "", "main bus\n"
	body := "main bus\n"
	used := map[string]bool{}
	for m := 0; m < 3+r.Intn(2*n+1); m++ {
		g := p.pkgs[r.Intn(n)]
		if !used[g.name] {
			used[g.name] = true
			main += fmt.Sprintf("import i%s \"%s\"\n", g.name, filepath.Base(g.dir))
		}
		if len(g.types) > 0 && r.Intn(2) == 0 {
			t := g.types[r.Intn(len(g.types))]
			body += fmt.Sprintf("  x%d i%s.%s\n", m, g.name, t)
			flat += fmt.Sprintf("  x%d config; width = %d\n", m, g.widths[t])
		} else {
			c := g.names[r.Intn(len(g.names))]
			body += fmt.Sprintf("  x%d status; width = i%s.%s %% 50 + 1\n", m, g.name, c)
			flat += fmt.Sprintf("  x%d status; width = %d\n", m, g.consts[c]%50+1)
		}
	}
	p.files["bus.fbd"] = main + body
	p.flat = flat
	return p
}

// breakPkg puts one error into the package.
func (p *rproj) breakPkg(r *rand.Rand, g *rpkg) {
	f := g.files[r.Intn(len(g.files))]
	for _, b := range g.broken {
		if b == f {
			return
		}
	}
	t := p.files[f]
	x := len(g.broken)
	k := r.Intn(9)
	switch {
	case k == 0:
		t += fmt.Sprintf("const BROKEN%d = $\n", x)
	case k == 1:
		t += fmt.Sprintf("const BROKEN%d =\n", x)
	case k == 2:
		// different symbols, as two added definitions of one symbol would conflict with each other
		if x >= len(g.names) {
			return
		}
		t += fmt.Sprintf("const %s = 1\n", g.names[x])
	case k == 3 && len(g.types) > x:
		t += fmt.Sprintf("type %s status\n", g.types[x])
	case k == 4:
		t += fmt.Sprintf("other%d bus\n  c config\n", x)
	case k == 5:
		t += fmt.Sprintf("reg%d config\n", x)
	case k == 6:
		// at the end, the positions of other errors must not change
		t += "import same \"fbd-p0\"\nimport same \"fbd-p0\"\n"
	case k == 7:
		t += fmt.Sprintf("import none%s \"fbd-none-%s\"\n", g.name, g.name)
	default:
		t += fmt.Sprintf("type BROKEN%d config\n  width = 8\n  width = 8\n", x)
	}
	p.files[f] = t
	g.broken = append(g.broken, f)
}

// without returns the files of the project with other packages in their valid form.
func overlayFiles(valid, broken Files, only []string) Files {
	o := Files{}
	for k, v := range valid {
		o[k] = v
	}
	for _, k := range only {
		o[k] = broken[k]
	}
	return o
}

// fifoProject replaces description files by named pipes.
func fifoProject(f Files, dir string, keep func(string) bool) ([]string, error) {
	var ps []string
	for k, v := range f {
		if keep(k) {
			if err := (Files{k: v}).write(dir); err != nil {
				return nil, err
			}
			continue
		}
		p := filepath.Join(dir, k)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := syscall.Mkfifo(p, 0o644); err != nil {
			return nil, err
		}
		ps = append(ps, k)
	}
	sort.Strings(ps)
	return ps, nil
}

// serve feeds the pipes once they are opened, after random delays. It returns the order of the openings and endings.
func serve(r *rand.Rand, f Files, dir string, pipes []string, stop <-chan struct{}) string {
	var mu sync.Mutex
	var order []string
	var wg sync.WaitGroup
	left := append([]string(nil), pipes...)
	delays := map[string]time.Duration{}
	base := time.Duration(1+r.Intn(3000)) * time.Microsecond
	for _, k := range pipes {
		d := time.Duration(r.Int63n(int64(base)))
		if r.Intn(10) == 0 {
			d *= 5
		}
		delays[k] = d
	}
	for len(left) > 0 {
		select {
		case <-stop:
			left = nil
			continue
		default:
		}
		var next []string
		for _, k := range left {
			fd, err := os.OpenFile(filepath.Join(dir, k), os.O_WRONLY|syscall.O_NONBLOCK, 0)
			if err != nil {
				next = append(next, k)
				continue
			}
			wg.Add(1)
			mu.Lock()
			order = append(order, "+"+k)
			mu.Unlock()
			go func() {
				defer wg.Done()
				time.Sleep(delays[k])
				mu.Lock()
				order = append(order, "-"+k)
				mu.Unlock()
				fd.Write([]byte(f[k]))
				fd.Close()
			}()
		}
		left = next
		time.Sleep(100 * time.Microsecond)
	}
	wg.Wait()
	return strings.Join(order, " ")
}

func checkC17(c *Check) {
	c.rule = "projects of 2 to 40 packages with up to four files each, valid and with errors in a subset of the packages, run by the command built with the race detector, plain and with scheduling points in every function and loop, under changing numbers of threads, and with the description files replaced by named pipes fed in random orders; outputs are compared with the sequential model of the project, diagnostics with those of the single errors; non-trivial: distinct orders of file openings and endings"
	c.assume = []string{"the race detector reports the conflicting accesses of the executions it saw", "when two packages fail at the same time both diagnostics may be printed", "hang: 60 s of wall time in three runs"}
	race, sched := c.buildRace()
	c.start = time.Now()
	n := c.n(480, 8000)
	c.parallel(n, func(w *Worker, i int) {
		r := newRand(c.seed, "C17", i)
		np := 2 + r.Intn(8)
		if r.Intn(4) == 0 {
			np = 10 + r.Intn(30)
		}
		if r.Intn(40) == 0 {
			np = pick(r, 70, 140, 270)
		}
		p := genRace(r, np)
		valid := Files{}
		for k, v := range p.files {
			valid[k] = v
		}
		var nb int
		if i%3 == 2 {
			for _, g := range p.pkgs {
				if r.Intn(3) == 0 && len(g.names) > 0 {
					for k := 1 + r.Intn(3)/2; k > 0; k-- {
						p.breakPkg(r, g)
					}
					nb++
				}
			}
		}
		t := p.files.text()
		// the model
		want := map[string]bool{}
		var wantOut []byte
		if nb > 0 {
			for _, g := range p.pkgs {
				for _, b := range g.broken {
					x := w.compile(overlayFiles(valid, p.files, []string{b}))
					if c.unusable(i, x, p.files, "one error") {
						return
					}
					if x.Exit != 1 {
						c.violation(i, "a project with an error in "+b+" is accepted", overlayFiles(valid, p.files, []string{b}), t)
						return
					}
					want[x.err()] = true
				}
			}
		} else {
			j := w.compileText(p.flat)
			if j.Exit != 0 {
				c.internal("the equivalent description does not compile: " + j.brief() + p.flat)
				return
			}
			wantOut = j.Stdout
		}
		judge := func(what string, x *Res) bool {
			c.eval(1)
			c.count("runs: "+what, 1)
			e := x.err()
			if strings.Contains(e, "WARNING: DATA RACE") {
				c.violation(i, what+": data race: "+raceBrief(e), p.files, e)
				return false
			}
			if c.unusable(i, x, p.files, what) {
				return false
			}
			if nb > 0 {
				if x.Exit != 1 {
					c.violation(i, what+": a project with errors is accepted", p.files, e)
					return false
				}
				if !madeOf(e, want) {
					c.violation(i, fmt.Sprintf("%s: the diagnostic is not one of an error in the project: %q, errors: %q", what, e, keysOf(want)), p.files, "")
					return false
				}
				c.count("rejected as expected", 1)
				return true
			}
			if x.Exit != 0 {
				c.violation(i, what+": a valid project is rejected: "+x.brief(), p.files, "")
				return false
			}
			if d := sameBus(x.Stdout, wantOut); d != "" {
				c.violation(i, what+": the register map differs from the one of the equivalent description: "+d, p.files, p.flat)
				return false
			}
			if d := constsDiff(x.Const, p); d != "" {
				c.violation(i, what+": constants: "+d, p.files, "")
				return false
			}
			c.count("accepted as expected", 1)
			return true
		}
		run := func(what, bin, dir string, env ...string) bool {
			env = append(env, "GORACE=halt_on_error=0 history_size=3 atexit_sleep_ms=10", "GOMAXPROCS="+pick(r, "1", "2", "3", "4", "8", "16"))
			x := Cmd{Bin: bin, Dir: dir, Args: []string{"-c", "const.json", "bus.fbd"}, Env: env, NoMem: true}.run()
			x.Const, _ = os.ReadFile(filepath.Join(dir, "const.json"))
			return judge(what, x)
		}
		dir := w.project(p.files)
		for k := 0; k < 2; k++ {
			if !run("plain", c.bin, dir) || !run("race detector", race, dir) || !run("race detector, perturbed", sched, dir, "VH_SCHED="+pick(r, "20", "100", "1000")) {
				return
			}
		}
		// named pipes
		for k := 0; k < 4; k++ {
			bin, what := c.bin, "pipes"
			if k%2 == 1 {
				bin, what = race, "race detector, pipes"
			}
			hung := 0
			for {
				d := w.fresh()
				pipes, err := fifoProject(p.files, d, func(k string) bool { return r.Intn(8) == 0 })
				if err != nil {
					c.count("named pipes not available", 1)
					return
				}
				stop := make(chan struct{})
				res := make(chan string)
				rs := rand.New(rand.NewSource(r.Int63()))
				go func() { res <- serve(rs, p.files, d, pipes, stop) }()
				env := []string{"GORACE=halt_on_error=0 history_size=3 atexit_sleep_ms=10", "GOMAXPROCS=" + pick(r, "1", "2", "4", "8")}
				x := Cmd{Bin: bin, Dir: d, Args: []string{"-c", "const.json", "bus.fbd"}, Env: env, NoMem: true}.run()
				close(stop)
				o := <-res
				if x.TimedOut {
					hung++
					if hung < 3 {
						continue
					}
					c.violation(i, what+": the command does not end: "+x.brief(), p.files, "")
					return
				}
				x.Const, _ = os.ReadFile(filepath.Join(d, "const.json"))
				if !judge(what, x) {
					return
				}
				c.count("file openings observed", int64(strings.Count(o, "+")))
				h := hash64(fmt.Sprint(i) + o)
				c.seen("orders of openings and endings", h)
				c.nontrivial(h)
				if i < 2 && k == 0 {
					c.sample(o)
				}
				break
			}
		}
	})
}

func raceBrief(e string) string {
	k := strings.Index(e, "WARNING: DATA RACE")
	e = e[k:]
	if len(e) > 900 {
		e = e[:900]
	}
	return e
}

// madeOf tells if the text is made of different allowed messages.
func madeOf(e string, want map[string]bool) bool {
	if e == "" {
		return false
	}
	rest, used := e, map[string]bool{}
	for rest != "" {
		hit := ""
		for m := range want {
			if !used[m] && strings.HasPrefix(rest, m) && len(m) > len(hit) {
				hit = m
			}
		}
		if hit == "" {
			return false
		}
		used[hit] = true
		rest = rest[len(hit):]
	}
	return true
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func hash64(s string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return fmt.Sprintf("%016x", h)
}

// sameBus compares two register maps by their functionalities and placement.
func sameBus(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	return firstDiff(b, a)
}

// constsDiff compares the constants file with the model.
func constsDiff(b []byte, p *rproj) string {
	var m map[string]map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		return "the constants file is not complete: " + err.Error()
	}
	for _, g := range p.pkgs {
		x, ok := m[g.name]
		if !ok {
			return "package " + g.name + " is missing"
		}
		got := map[string]int64{}
		for _, v := range x {
			l, ok := v.(map[string]any)
			if !ok {
				continue
			}
			collectInts(l, got)
		}
		for k, v := range g.consts {
			y, ok := got[k]
			if !ok {
				return fmt.Sprintf("constant %s of package %s is missing", k, g.name)
			}
			if y != v {
				return fmt.Sprintf("constant %s of package %s is %d instead of %d", k, g.name, y, v)
			}
		}
		if len(got) != len(g.consts) {
			return fmt.Sprintf("package %s has %d constants instead of %d", g.name, len(got), len(g.consts))
		}
	}
	if len(m) != len(p.pkgs)+1 {
		return fmt.Sprintf("%d packages instead of %d", len(m), len(p.pkgs)+1)
	}
	return ""
}

func collectInts(m map[string]any, out map[string]int64) {
	for k, v := range m {
		switch v := v.(type) {
		case float64:
			out[k] = int64(v)
		case map[string]any:
			collectInts(v, out)
		}
	}
}
