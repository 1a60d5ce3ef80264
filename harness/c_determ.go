package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { register("C05", checkC05) }

// chunks splits canonical text into import lines and package level items with their comments.
func chunks(t string) (imports, items []string) {
	cur := ""
	flush := func() {
		if cur == "" {
			return
		}
		if strings.HasPrefix(cur, "import ") {
			imports = append(imports, cur)
		} else {
			items = append(items, cur)
		}
		cur = ""
	}
	doc := false
	for _, l := range strings.SplitAfter(t, "\n") {
		if l == "" {
			continue
		}
		top := l[0] != ' ' && l[0] != '\n'
		if top && !doc {
			flush()
		}
		doc = top && l[0] == '#'
		cur += l
	}
	flush()
	return
}

// packages groups files by directory; the main file has no directory.
func (f Files) packages() map[string][]string {
	m := map[string][]string{}
	for k := range f {
		m[filepath.Dir(k)] = append(m[filepath.Dir(k)], k)
	}
	for _, l := range m {
		sort.Strings(l)
	}
	return m
}

var pkgFileNames = []string{"a.fbd", "Z.fbd", "0.fbd", "x y.fbd", "ł.fbd", "regs-1.fbd", "b.fbd", "types.fbd", "common.v2.fbd", "_u.fbd", "q.fbd", "m1.fbd"}

// moveItems redistributes the items of every package over another number of files.
func moveItems(r *rand.Rand, f Files) Files {
	out := Files{}
	for dir, l := range f.packages() {
		if dir == "." {
			for _, k := range l {
				out[k] = f[k]
			}
			continue
		}
		imp := map[string]bool{}
		alias := map[string]string{}
		var items []string
		ok := true
		for _, k := range l {
			im, it := chunks(f[k])
			for _, x := range im {
				imp[x] = true
				w := strings.Fields(x)
				a := strings.Trim(w[1], `"`)
				if len(w) == 2 {
					a = strings.TrimPrefix(filepath.Base(a), "fbd-")
				}
				if p, dup := alias[a]; dup && p != x {
					ok = false
				}
				alias[a] = x
			}
			items = append(items, it...)
		}
		if !ok {
			for _, k := range l {
				out[k] = f[k]
			}
			continue
		}
		var head []string
		for x := range imp {
			head = append(head, x)
		}
		sort.Strings(head)
		n := 1 + r.Intn(4)
		p := r.Perm(len(pkgFileNames))
		for k := 0; k < n; k++ {
			out[dir+"/"+pkgFileNames[p[k]]] = strings.Join(head, "")
		}
		for _, x := range items {
			k := dir + "/" + pkgFileNames[p[r.Intn(n)]]
			out[k] += x
		}
	}
	return out
}

// renameFiles renames the files of packages.
func renameFiles(r *rand.Rand, f Files) Files {
	out := Files{}
	for dir, l := range f.packages() {
		if dir == "." {
			for _, k := range l {
				out[k] = f[k]
			}
			continue
		}
		p := r.Perm(len(pkgFileNames))
		for i, k := range l {
			out[dir+"/"+pkgFileNames[p[i]]] = f[k]
		}
	}
	return out
}

// writeShuffled creates the files in a random order.
func (f Files) writeShuffled(r *rand.Rand, dir string) {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
	for _, k := range ks {
		if err := (Files{k: f[k]}).write(dir); err != nil {
			fatalf("write: %v", err)
		}
	}
}

// unrelated returns packages nobody imports.
func unrelated(r *rand.Rand) Files {
	f := Files{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		n := fmt.Sprintf("%s/fbd-%s%d/u.fbd", pick(r, "x", "a", "vendor", "z/y"), pick(r, "unrel", "zz", "aa"), k)
		f[n] = pick(r,
			"const A = 1\nconst B = A + 1\ntype T(A = 5) config; width = A\n",
			"type T block\n  c config\n    width = 64\n  i irq; add-enable = true\ntype U T\n",
			"type V status; width = 7\ntype W V\nconst WIDTH = 16\n",
			"# only a comment\n", "const L = [1, 2, 3]\nconst S = \"abc\"\nconst F = 1.5\n")
	}
	f["zz/notes.txt"] = "not a description\n"
	f["fbd-empty/readme.md"] = "no description here\n"
	return f
}

// dropPkgs removes packages not in the project from a constants file.
func dropPkgs(b []byte, keep map[string]bool) []byte {
	var m map[string]json.RawMessage
	if json.Unmarshal(b, &m) != nil {
		return b
	}
	for k := range m {
		if !keep[k] {
			delete(m, k)
		}
	}
	o, _ := json.MarshalIndent(m, "", "  ")
	return o
}

// breakProject introduces one error into a project; it returns the kind of the error.
func breakProject(r *rand.Rand, f Files) (Files, string) {
	out := Files{}
	var ks []string
	for k := range f {
		out[k] = f[k]
		ks = append(ks, k)
	}
	sort.Strings(ks)
	k := ks[r.Intn(len(ks))]
	l := strings.Split(strings.TrimSuffix(f[k], "\n"), "\n")
	kinds := []string{"trailing space", "unknown name", "bad token", "indent", "unknown type", "redefinition", "property", "conflict"}
	for try := 0; try < 20; try++ {
		kind := kinds[r.Intn(len(kinds))]
		i := r.Intn(len(l))
		x := l[i]
		if x == "" || strings.Contains(x, "#") {
			continue
		}
		switch kind {
		case "trailing space":
			x += " "
		case "unknown name":
			a, b, ok := strings.Cut(x, " = ")
			if !ok || strings.Contains(x, "(") || strings.ContainsAny(b, "\"'") {
				continue
			}
			x = a + " = UNKNOWN_NAME + " + b
		case "bad token":
			x += " $"
		case "indent":
			x = "   " + x
		case "unknown type":
			if !strings.HasSuffix(x, " config") {
				continue
			}
			x = strings.TrimSuffix(x, "config") + "confg"
		case "redefinition":
			if !strings.HasPrefix(x, "const ") {
				continue
			}
			l = append(l, x)
		case "property":
			if !strings.Contains(x, "; width =") {
				continue
			}
			x = strings.Replace(x, "; width =", "; size =", 1)
		case "conflict":
			if !strings.Contains(x, "; width =") {
				continue
			}
			x += "; range = 3"
		}
		l[i] = x
		out[k] = strings.Join(l, "\n") + "\n"
		return out, kind
	}
	return nil, ""
}

type detRun struct {
	what string
	r    *Res
}

func checkC05(c *Check) {
	c.rule = "random projects of up to four packages, valid and with one injected error, compiled repeatedly with changed scheduler threads, environment, location, creation order, package file names, item distribution, unrelated packages and through the Go API after other compilations; outputs and diagnostics are compared byte by byte; " +
		"non-trivial: distinct by source text with at least two differing settings observed"
	c.assume = []string{"file names and the distribution of items over files are varied for valid descriptions only, as diagnostics name the file"}
	bin := c.buildProbe()
	probes := newProbePool(bin)
	n := c.n(2200, 16000)
	c.parallel(n, func(w *Worker, i int) {
		r := newRand(c.seed, "C05", i)
		var f Files
		if i%5 == 4 {
			g := &SGen{r: r}
			g.project()
			f = g.files(canonical)
		} else {
			o := fullOpt(i)
			o.Clones = 40
			o.MaxElems = 6
			d := genDesign(r, o)
			if i%3 == 0 {
				withDocs(r, d)
			}
			fa := newFactorer(r, 1+i%3)
			factorProfile(fa, i)
			f = fa.factor(d, canonical)
		}
		kind := ""
		if i%3 == 2 {
			b, k := breakProject(r, f)
			if b != nil {
				f, kind = b, k
			}
		}
		var args []string
		args = append(args, "-c", "consts.json")
		c.eval(1)
		dir := w.project(f)
		base := w.runIn(dir, nil, args...)
		if c.unusable(i, base, f, "determinism") {
			return
		}
		t := f.text()
		valid := base.Exit == 0
		if i%5 != 4 && valid != (kind == "") && kind != "property" && kind != "unknown name" && kind != "conflict" && kind != "unknown type" {
			c.violation(i, fmt.Sprintf("unexpected exit status %d with injected error %q: %s", base.Exit, kind, base.err()), f, t)
			return
		}
		pk := map[string]bool{"main": true}
		for d := range f.packages() {
			if d != "." {
				pk[strings.TrimPrefix(filepath.Base(d), "fbd-")] = true
			}
		}
		same := func(what string, x *Res) bool {
			c.count("runs: "+what, 1)
			if c.unusable(i, x, f, "determinism ("+what+")") {
				return false
			}
			d := ""
			switch {
			case x.Exit != base.Exit:
				d = fmt.Sprintf("exit status %d instead of %d: %s", x.Exit, base.Exit, x.err()+base.err())
			case !bytes.Equal(x.Stdout, base.Stdout):
				d = "the register map differs: " + firstDiff(base.Stdout, x.Stdout)
			case !bytes.Equal(x.Stderr, base.Stderr):
				d = "the diagnostic differs: " + firstDiff(base.Stderr, x.Stderr)
			case !bytes.Equal(x.Const, base.Const):
				d = "the constants file differs: " + firstDiff(base.Const, x.Const)
			}
			if d != "" {
				c.violation(i, what+" (injected error: "+kind+"): "+d, f, t)
				return false
			}
			return true
		}
		for k := 0; k < 3; k++ {
			if !same("repeated", w.runIn(dir, nil, args...)) {
				return
			}
		}
		for _, v := range []string{"GOMAXPROCS=1", "GOMAXPROCS=2", "GOMAXPROCS=16"} {
			if !same(v, w.runIn(dir, []string{v, "GOGC=1"}, args...)) {
				return
			}
		}
		// environment
		env := []string{"LANG=" + pick(r, "pl_PL.UTF-8", "tr_TR", "C.UTF-8"), "LC_ALL=" + pick(r, "de_DE", "C"), "TZ=" + pick(r, "Asia/Tokyo", "UTC", ":bad"), "HOME=" + pick(r, "/", "/root", ""), "TERM=xterm-256color", "USER=" + pick(r, "a", "root"), "PWD=/somewhere/else",
			"TMPDIR=/nonexistent", "COLUMNS=7", "NO_COLOR=1", "CLICOLOR_FORCE=1", "GODEBUG=", "XDG_CONFIG_HOME=/x", "FBDPATH=" + pick(r, "", ":", "/nonexistent/path", "::/nonexistent:", ".", ".:.", dir)}
		for k := r.Intn(30); k > 0; k-- {
			env = append(env, fmt.Sprintf("VAR%d=%x", r.Intn(1000), r.Int63()))
		}
		r.Shuffle(len(env), func(a, b int) { env[a], env[b] = env[b], env[a] })
		if !same("environment", w.runIn(dir, env, args...)) {
			return
		}
		// terminal
		if i%2 == 0 {
			if p := c.onTty(r, Cmd{Bin: c.bin, Dir: dir, Args: append(append([]string{}, args...), "bus.fbd")}, base); p != "" {
				c.violation(i, p+" (injected error: "+kind+")", f, t)
				return
			}
		}
		// location and creation order
		loc := filepath.Join(w.fresh(), pick(r, "a/b/c/d/e/f", "with space/x", "łódź/§", "fbd", "x.fbd", "-main", "very"+strings.Repeat("long", 40)), "p")
		f.writeShuffled(r, loc)
		if !same("location", w.runIn(loc, nil, args...)) {
			return
		}
		if valid {
			// through an absolute path, and a relative path from elsewhere with packages on the search path
			m := w.moved(r, f)
			if !same("packages on the search path", m) {
				return
			}
			d2 := w.fresh()
			renameFiles(r, f).writeShuffled(r, d2)
			if !same("renamed package files", w.runIn(d2, nil, args...)) {
				return
			}
			g := moveItems(r, f)
			d3 := w.fresh()
			g.writeShuffled(r, d3)
			if !same("items moved between files", w.runIn(d3, nil, args...)) {
				return
			}
		}
		// unrelated packages
		un := unrelated(r)
		ud := w.project(un)
		x := w.runIn(dir, []string{"FBDPATH=" + ud}, args...)
		x.Const = dropPkgs(x.Const, pk)
		if valid {
			y := dropPkgs(base.Const, pk)
			if !bytes.Equal(x.Const, y) {
				c.violation(i, "unrelated packages: the constants of the packages differ: "+firstDiff(y, x.Const), f, t)
				return
			}
		}
		x.Const = base.Const
		if !same("unrelated packages", x) {
			return
		}
		if valid {
			p := probes.get(w.n)
			for k := 0; k < 2; k++ {
				var a ProbeBus
				if !p.ask(ProbeReq{Op: "compile", Dir: dir, File: "bus.fbd", Name: "main"}, &a) {
					c.violation(i, fmt.Sprintf("compilation %d of one process ended it: %s", p.served+1, p.dead), f, t)
					probes.drop(w.n)
					return
				}
				c.count("runs: through the API", 1)
				if a.Err != "" || a.Bus != string(base.Stdout) || a.Pkgs != string(base.Const) {
					c.violation(i, fmt.Sprintf("compilation %d of one process: %s %s%s", p.served, a.Err, firstDiff(base.Stdout, []byte(a.Bus)), firstDiff(base.Const, []byte(a.Pkgs))), f, t)
					return
				}
			}
		}
		if valid {
			c.count("valid projects", 1)
		} else {
			c.count("rejected projects: "+kind, 1)
		}
		c.count("packages", int64(len(pk)))
		c.nontrivial(t)
		if i < 3 {
			c.sample(t)
		}
	})
	probes.close()
}

// moved compiles the project with its packages moved to directories of the search path.
func (w *Worker) moved(r *rand.Rand, f Files) *Res {
	a, b, cwd := w.fresh(), w.fresh(), w.fresh()
	for dir, l := range f.packages() {
		root := pick(r, a, b, cwd)
		if dir == "." {
			root = cwd
		}
		for _, k := range l {
			Files{k: f[k]}.write(root)
		}
	}
	p := a + ":" + b
	if r.Intn(2) == 0 {
		p = b + ":" + a
	}
	main := "bus.fbd"
	if r.Intn(2) == 0 {
		main = filepath.Join(cwd, "bus.fbd")
	}
	x := Cmd{Bin: w.c.bin, Dir: cwd, Args: []string{"-c", "consts.json", main}, Env: []string{"FBDPATH=" + p}}.run()
	x.Const, _ = os.ReadFile(filepath.Join(cwd, "consts.json"))
	return x
}
