package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func init() { register("C20", checkC20) }

const nobody = 65534

// dnode is an entry of a generated directory tree.
type dnode struct {
	path string // relative to the root of the case
	kind byte   // d: directory, f: file, l: link
	text string // content or target
	mode os.FileMode
}

type dtree struct {
	r     *rand.Rand
	root  string
	nodes []*dnode
	at    map[string]*dnode
	dirs  []*dnode
	nid   int
	ids   map[string]string // description file to the constant it defines
	perms bool
	pool  []string
	twice int // how seldom a name is used twice
}

func (t *dtree) add(n *dnode) bool {
	if _, dup := t.at[n.path]; dup {
		return false
	}
	t.nodes = append(t.nodes, n)
	t.at[n.path] = n
	if n.kind == 'd' {
		t.dirs = append(t.dirs, n)
	}
	return true
}

func (t *dtree) desc(path string) string {
	t.nid++
	k := fmt.Sprintf("ID_%d", t.nid)
	t.ids[path] = k
	return fmt.Sprintf("const %s = %d\n", k, t.nid)
}

const garbage = "$$$ this is not a description\n"

func (t *dtree) pkgName() string {
	i := t.r.Intn(len(t.pool))
	n := t.pool[i]
	if t.twice == 0 || t.r.Intn(t.twice) != 0 { // seldom used twice
		t.pool = append(t.pool[:i:i], t.pool[i+1:]...)
	}
	return n
}

// dirName returns the name of a directory which is no package.  Names to which other tools give a meaning are no exception.
func dirName(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return pick(r, "lib", "a", "b", "with space", "łódź", "x.fbd", "fbdx", "Fbd-c", "my-fbd-d", "fbd", "fbd_e", "z", "main", "FBD-f", "fbd.d", "9", "0lib", "LIB")
	case 1:
		return pick(r, "vendor", "testdata", "node_modules", "tmp", "build", "out", "target", "dist", "test", "tests", "doc", "docs", "internal", "examples", "src", "bin", "obj", "third_party", "lost+found", "CVS", "__pycache__", "con", "nul", "old", "backup", "disabled", "skip", "ignore")
	case 2:
		return pick(r, ".hidden", ".git", ".svn", ".cache", ".fbd", "..x", "...", ".fbd-h", "._", ".tmp~")
	}
	// a name with an unusual first or last character, or one within
	ch := string(pick(r, '_', '-', '.', '~', '#', '+', '=', '@', '!', '%', '&', ' ', ',', ';', '(', '[', '{', '$', '\'', '"', '\\', '*', '?', '^', '`', '|', '<', '>', '0', 'Z', 'é', '\u00a0', '\u200b', '\t', '\n'))
	switch r.Intn(3) {
	case 0:
		return ch + pick(r, "lib", "x", "old", "fbd", "fbd-in")
	case 1:
		return pick(r, "lib", "x", "old", "fbdl") + ch
	}
	return pick(r, "li", "x", "ol") + ch + pick(r, "b", "y", "fbd", "fbd-z")
}

// fill makes the content of a directory.
func (t *dtree) fill(d *dnode, depth int) {
	r := t.r
	isPkg := strings.HasPrefix(filepath.Base(d.path), "fbd-")
	content := func(p string) string {
		if isPkg {
			return t.desc(p)
		}
		return garbage
	}
	for k := r.Intn(4); k > 0; k-- {
		n := pick(r, "a.fbd", "z.fbd", "b.v2.fbd", "0.fbd", "with space.fbd", "ł.fbd", "-x.fbd", "_u.fbd", ".h.fbd", "#e.fbd", "x_test.fbd", "y.bak.fbd", "~t.fbd", "A.fbd", "a.FBD.fbd", "..fbd", "long"+strings.Repeat("g", 200)+".fbd")
		p := d.path + "/" + n
		if t.at[p] == nil {
			t.add(&dnode{path: p, kind: 'f', text: content(p), mode: 0o644})
		}
	}
	for k := r.Intn(3); k > 0; k-- {
		t.add(&dnode{path: d.path + "/" + pick(r, "notes.txt", "a.fbd.bak", "A.FBD", "fbd", "afbd", "a.fbd~", "Makefile", "fbd-file", "fbd-x.txt"), kind: 'f', text: garbage, mode: 0o644})
	}
	if r.Intn(6) == 0 { // a link to a file
		p := d.path + "/" + pick(r, "l.fbd", "link.fbd", "l.txt", "M.FBD")
		if t.at[p] == nil {
			q := "store/" + fmt.Sprintf("s%d%s", len(t.nodes), pick(r, ".txt", "", ".dat"))
			text := garbage
			if isPkg && strings.HasSuffix(p, ".fbd") {
				text = t.desc(p)
			}
			t.add(&dnode{path: q, kind: 'f', text: text, mode: 0o644})
			t.add(&dnode{path: p, kind: 'l', text: t.target(p, q)})
		}
	}
	if depth <= 0 {
		return
	}
	for k := r.Intn(4); k > 0; k-- {
		n := ""
		if r.Intn(2) == 0 && len(t.pool) > 0 {
			n = "fbd-" + t.pkgName()
		} else {
			n = dirName(r)
		}
		x := &dnode{path: d.path + "/" + n, kind: 'd', mode: 0o755}
		if t.perms && r.Intn(6) == 0 {
			x.mode = []os.FileMode{0, 0o111, 0o444, 0o222, 0o333, 0o555}[r.Intn(6)]
		}
		if t.add(x) {
			t.fill(x, depth-1)
		}
	}
}

func (t *dtree) target(link, to string) string {
	if t.r.Intn(2) == 0 {
		return filepath.Join(t.root, to)
	}
	rel, _ := filepath.Rel(filepath.Dir(link), to)
	return rel
}

// links adds links to directories, cycles and links to nothing.
func (t *dtree) links() {
	r := t.r
	for k := r.Intn(8); k > 0; k-- {
		d := t.dirs[r.Intn(len(t.dirs))]
		n := pick(r, "l", "link", "fbd-link", "fbd-alias", "up", "l.fbd", "0", "zz", "x y", "fbd-l.fbd")
		p := d.path + "/" + n
		if t.at[p] != nil {
			continue
		}
		tx := ""
		switch r.Intn(8) {
		case 0:
			tx = pick(r, "nowhere", "/nonexistent/x", "../../../nothing", n, "a/"+n)
		case 1:
			tx = pick(r, ".", "..", "../..")
		case 2: // link to a link
			var ls []*dnode
			for _, x := range t.nodes {
				if x.kind == 'l' && !strings.Contains(x.text, "store/") {
					ls = append(ls, x)
				}
			}
			if len(ls) > 0 {
				tx = t.target(p, ls[r.Intn(len(ls))].path)
				break
			}
			fallthrough
		default:
			tx = t.target(p, t.dirs[r.Intn(len(t.dirs))].path)
		}
		t.add(&dnode{path: p, kind: 'l', text: tx})
	}
	// links within packages are not description files when they do not lead to files
	for _, d := range t.dirs {
		if strings.HasPrefix(filepath.Base(d.path), "fbd-") && r.Intn(12) == 0 {
			t.add(&dnode{path: d.path + "/" + pick(r, "dangling.fbd", "loop.fbd"), kind: 'l', text: pick(r, "loop.fbd", "nothing.fbd", "/nonexistent.fbd")})
		}
	}
}

func (t *dtree) build() error {
	for _, n := range t.nodes {
		p := filepath.Join(t.root, n.path)
		os.MkdirAll(filepath.Dir(p), 0o755)
		var err error
		switch n.kind {
		case 'd':
			err = os.MkdirAll(p, 0o755)
		case 'f':
			err = os.WriteFile(p, []byte(n.text), 0o644)
		case 'l':
			err = os.Symlink(n.text, p)
		}
		if err != nil {
			return err
		}
	}
	// deepest first
	for i := len(t.nodes) - 1; i >= 0; i-- {
		if n := t.nodes[i]; n.kind == 'd' && n.mode != 0o755 {
			os.Chmod(filepath.Join(t.root, n.path), n.mode)
		}
	}
	return nil
}

func (t *dtree) open() {
	for _, n := range t.nodes {
		if n.kind == 'd' && n.mode != 0o755 {
			os.Chmod(filepath.Join(t.root, n.path), 0o755)
		}
	}
}

func (t *dtree) text() Files {
	f := Files{}
	for _, n := range t.nodes {
		switch n.kind {
		case 'd':
			if n.mode != 0o755 {
				f["permissions of "+n.path] = fmt.Sprintf("%o\n", n.mode)
			}
			f[n.path+"/"] = ""
		case 'f':
			f[n.path] = n.text
		case 'l':
			f["link "+strings.ReplaceAll(n.path, "/", " : ")] = n.text + "\n"
		}
	}
	return f
}

type dpkg struct {
	real  string
	name  string
	ids   []string
	atTop bool // is itself a listed directory
}

// resolve follows a path as the user would; it returns the canonical path relative to the root.
func (t *dtree) resolve(p string) (string, bool) {
	// walk the components
	abs := p
	hops := 0
	var walk func(dir string, comps []string) (string, bool)
	walk = func(dir string, comps []string) (string, bool) {
		for i, x := range comps {
			if x == "" || x == "." {
				continue
			}
			if n := t.node(dir); n != nil && n.kind == 'd' && n.mode&0o001 == 0 {
				return "", false
			}
			if x == ".." {
				dir = filepath.Dir(dir)
				continue
			}
			q := filepath.Join(dir, x)
			if n := t.node(q); n != nil && n.kind == 'l' {
				hops++
				if hops > 30 {
					return "", false
				}
				var ok bool
				if filepath.IsAbs(n.text) {
					q, ok = walk("/", strings.Split(n.text, "/"))
				} else {
					q, ok = walk(dir, strings.Split(n.text, "/"))
				}
				if !ok {
					return "", false
				}
			} else if n == nil && !t.implicit(q) {
				return "", false
			} else if n != nil && n.kind == 'f' {
				for _, y := range comps[i+1:] {
					if y != "" {
						return "", false
					}
				}
			}
			dir = q
		}
		return dir, true
	}
	return walk("/", strings.Split(abs, "/"))
}

func (t *dtree) node(abs string) *dnode {
	rel, ok := strings.CutPrefix(abs, t.root+"/")
	if !ok {
		return nil
	}
	return t.at[rel]
}

// implicit tells about directories which are no nodes: the root and those above it, and parents of nodes.
func (t *dtree) implicit(abs string) bool {
	if abs == t.root || strings.HasPrefix(t.root, abs+"/") || abs == "/" {
		return true
	}
	for k := range t.at {
		if strings.HasPrefix(filepath.Join(t.root, k), abs+"/") {
			return true
		}
	}
	return false
}

// visible is the model of the discovery.
func (t *dtree) visible(roots []string) []*dpkg {
	var out []*dpkg
	seen := map[string]bool{}
	var visit func(real string, top bool)
	visit = func(real string, top bool) {
		if seen[real] {
			return
		}
		seen[real] = true
		n := t.node(real)
		if n == nil && real != t.root && !t.implicit(real) {
			return
		}
		if n != nil && (n.kind != 'd' || n.mode&0o005 != 0o005) {
			return
		}
		isPkg := strings.HasPrefix(filepath.Base(real), "fbd-")
		p := &dpkg{real: real, name: strings.TrimPrefix(filepath.Base(real), "fbd-"), atTop: top}
		files := 0
		for _, x := range t.children(real) {
			q, ok := t.resolve(filepath.Join(real, x))
			if !ok {
				continue
			}
			m := t.node(q)
			if m != nil && m.kind == 'f' {
				if strings.HasSuffix(x, ".fbd") {
					files++
					if isPkg {
						rel, _ := filepath.Rel(t.root, filepath.Join(real, x))
						p.ids = append(p.ids, t.ids[rel])
					}
				}
				continue
			}
			visit(q, false)
		}
		if isPkg && files > 0 {
			sort.Strings(p.ids)
			out = append(out, p)
		}
	}
	for _, x := range roots {
		if x == "" {
			continue
		}
		if q, ok := t.resolve(x); ok {
			visit(q, true)
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].real < out[b].real })
	return out
}

func (t *dtree) children(real string) []string {
	m := map[string]bool{}
	for k := range t.at {
		a := filepath.Join(t.root, k)
		if rest, ok := strings.CutPrefix(a, strings.TrimSuffix(real, "/")+"/"); ok {
			m[strings.SplitN(rest, "/", 2)[0]] = true
		}
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func genTree(r *rand.Rand, root string, perms bool) *dtree {
	t := &dtree{r: r, root: root, twice: pick(r, 0, 0, 60, 60, 4), at: map[string]*dnode{}, ids: map[string]string{}, perms: perms,
		pool: []string{"uart", "spi", "i2c", "gpio", "dma", "irq0", "timer-x", "crypto", "eth", "a.b", "pkg 1", "ż", "X", "m", "fbd-y", "pcie_core", "ddr4", "hdmi", "qspi2", "zynq", "block", "bus"}}
	for _, n := range []string{"cwd", "ext0", "ext1", "ext2", "store"} {
		t.add(&dnode{path: n, kind: 'd', mode: 0o755})
	}
	for _, n := range []string{"cwd", "ext0", "ext1", "ext2"} {
		t.fill(t.at[n], 1+r.Intn(4))
	}
	t.large()
	t.links()
	return t
}

// large exaggerates one dimension of the tree.
func (t *dtree) large() {
	r := t.r
	d := t.dirs[r.Intn(len(t.dirs))]
	if strings.HasPrefix(d.path, "store") {
		return
	}
	file := func(d *dnode, n string) {
		tx := garbage
		if strings.HasPrefix(filepath.Base(d.path), "fbd-") {
			tx = t.desc(d.path + "/" + n)
		}
		t.add(&dnode{path: d.path + "/" + n, kind: 'f', text: tx, mode: 0o644})
	}
	switch r.Intn(50) {
	case 0: // depth
		for k := 8 + r.Intn(40); k > 0; k-- {
			x := &dnode{path: d.path + "/" + fmt.Sprintf(pick(r, "d%d", "d%d", "fbd-deep%d-"), k), kind: 'd', mode: 0o755}
			t.add(x)
			file(x, "a.fbd")
			d = x
		}
	case 1: // packages in a directory
		for k := pick(r, 20, 70, 140, 300); k > 0; k-- {
			x := &dnode{path: fmt.Sprintf("%s/fbd-w%d-", d.path, k), kind: 'd', mode: 0o755}
			t.add(x)
			file(x, "a.fbd")
		}
	case 2: // files of a package
		x := &dnode{path: d.path + "/fbd-many", kind: 'd', mode: 0o755}
		t.add(x)
		for k := pick(r, 20, 70, 140, 300); k > 0; k-- {
			file(x, fmt.Sprintf("f%d.fbd", k))
		}
	case 3: // directories which are no packages
		for k := pick(r, 20, 70, 140, 300); k > 0; k-- {
			x := &dnode{path: fmt.Sprintf("%s/n%d", d.path, k), kind: 'd', mode: 0o755}
			t.add(x)
		}
		t.fill(t.dirs[len(t.dirs)-1], 2)
	case 4: // chain of links
		to := d.path
		for k := 3 + r.Intn(25); k > 0; k-- {
			e := t.dirs[r.Intn(len(t.dirs))]
			p := fmt.Sprintf("%s/%s%d", e.path, pick(r, "c", "c", "fbd-c"), k)
			if t.at[p] != nil {
				continue
			}
			t.add(&dnode{path: p, kind: 'l', text: t.target(p, to)})
			to = p
		}
	}
}

// paths returns the search path variable and the listed directories.
func (t *dtree) paths() (string, []string) {
	r := t.r
	var l []string
	n := r.Intn(6)
	if r.Intn(25) == 0 {
		n = pick(r, 12, 40, 120)
	}
	for k := n; k > 0; k-- {
		var x string
		switch r.Intn(12) {
		case 0:
			x = ""
		case 1:
			x = pick(r, "/nonexistent", "missing", "/nonexistent/fbd-p", "~", "*")
		case 2:
			x = pick(r, ".", "./", "././.")
		case 3:
			n := t.nodes[r.Intn(len(t.nodes))]
			if n.kind == 'l' {
				continue // the name of a listed link is not specified
			}
			x = filepath.Join(t.root, n.path)
		case 4, 5:
			d := t.dirs[r.Intn(len(t.dirs))]
			x = filepath.Join(t.root, d.path)
			if r.Intn(2) == 0 {
				x += "/"
			}
		case 6:
			d := t.dirs[r.Intn(len(t.dirs))]
			x, _ = filepath.Rel(filepath.Join(t.root, "cwd"), filepath.Join(t.root, d.path))
			if filepath.Base(x) == ".." {
				continue
			}
		case 7:
			x = filepath.Join(t.root, "ext0") + "/../" + pick(r, "ext1", "ext2", "ext0")
		default:
			x = filepath.Join(t.root, pick(r, "ext0", "ext1", "ext2"))
		}
		l = append(l, x)
	}
	return strings.Join(l, ":"), l
}

func checkC20(c *Check) {
	c.rule = "random directory trees with packages, decoys (wrong prefixes and suffixes, garbage that fails when parsed), links to directories and files, link cycles and chains, dangling links, unreadable directories (run as an unprivileged user) and search paths with empty, missing, repeated, relative and overlapping entries; the dumped constants identify every parsed file and are compared with a model of the discovery; missing and ambiguous imports must be rejected; non-trivial: distinct trees with at least one package"
	c.assume = []string{"import paths are matched by the last components of the package path, names are chosen so that no package name ends with another one", "listed links are not judged by their name", "two visible packages of one name that are both unambiguously imported are declared as not implemented", "fbd-main is reserved"}
	user := nobody
	if x := (Cmd{Bin: c.bin, Dir: c.scratch, Args: []string{"-version"}, UID: nobody}).run(); x.Exit != 0 {
		user = 0
		c.count("unprivileged user not available", 1)
	}
	c.parallel(c.n(9000, 100000), func(w *Worker, i int) {
		r := newRand(c.seed, "C20", i)
		root := filepath.Join(w.fresh(), "t")
		uid, perms := 0, false
		if i%2 == 1 {
			uid, perms = user, user != 0
		}
		t := genTree(r, root, perms)
		fp, list := t.paths()
		// the sum of all: cwd first
		cwd := filepath.Join(root, "cwd")
		roots := []string{cwd}
		for _, x := range list {
			if x != "" && !filepath.IsAbs(x) {
				x = cwd + "/" + x
			}
			roots = append(roots, x)
		}
		vis := t.visible(roots)
		byName := map[string][]*dpkg{}
		for _, p := range vis {
			byName[p.name] = append(byName[p.name], p)
		}
		dup := false
		for _, l := range byName {
			if len(l) > 1 {
				dup = true
			}
		}
		tx := t.text()
		tx["FBDPATH"] = fp + "\n"
		// the main file
		imports, body := "", "main bus\n  c config\n"
		n := 0
		for _, p := range vis {
			if r.Intn(3) == 0 || len(byName[p.name]) > 1 {
				continue
			}
			n++
			path := filepath.Base(p.real)
			switch r.Intn(4) {
			case 0:
				path = p.name
				if strings.HasPrefix(p.name, "fbd-") {
					path = "fbd-" + p.name
				}
			case 1:
				rel, _ := filepath.Rel(root, p.real)
				if cs := strings.Split(rel, "/"); len(cs) > 1 && !p.atTop && !underLink(list) {
					// the parent is below a listed directory or is one that is listed by its name
					if q := strings.Join(cs[len(cs)-2:], "/"); !strings.Contains(q, "\"") {
						path = q
					}
				}
			}
			imports += fmt.Sprintf("import q%d \"%s\"\n", n, path)
			id := p.ids[r.Intn(len(p.ids))]
			body += fmt.Sprintf("  x%d status; width = q%d.%s %% 60 + 1\n", n, n, id)
		}
		wantErr := ""
		kind := "plain"
		if dup && r.Intn(2) == 0 {
			for nm, l := range byName {
				if len(l) > 1 {
					imports += fmt.Sprintf("import amb \"%s\"\n", "fbd-"+nm)
					wantErr = "fbd-" + nm
				}
			}
			kind = "ambiguous"
			if strings.Count(imports, "import amb") > 1 {
				return
			}
		} else if !dup && r.Intn(5) == 0 {
			// something that is not visible
			vn := map[string]bool{}
			for _, p := range vis {
				vn[filepath.Base(p.real)] = true
			}
			var cand []string
			for _, d := range t.dirs {
				b := filepath.Base(d.path)
				if !vn[b] {
					ok := true
					for v := range vn {
						if strings.HasSuffix(v, b) {
							ok = false
						}
					}
					if ok {
						cand = append(cand, b)
					}
				}
			}
			for v := range vn {
				cand = append(cand, v+"x", "other/"+v, v+"/a.fbd")
				if len(v) > 5 && v[len(v)-1] < 128 {
					cand = append(cand, v[:len(v)-1])
				}
			}
			cand = append(cand, "fbd-nothing", "nothing")
			sort.Strings(cand)
			wantErr = cand[r.Intn(len(cand))]
			if strings.Contains(wantErr, "\"") {
				return
			}
			for v := range vn {
				if strings.HasSuffix(v, wantErr) {
					return
				}
			}
			imports += fmt.Sprintf("import none \"%s\"\n", wantErr)
			kind = "missing"
		}
		mainFile := "bus.fbd"
		t.add(&dnode{path: "cwd/bus.fbd", kind: 'f', text: imports + body, mode: 0o644})
		tx["cwd/bus.fbd"] = imports + body
		if err := t.build(); err != nil {
			c.internal("tree: " + err.Error())
			return
		}
		defer t.open()
		out := filepath.Join(w.fresh(), "const.json")
		os.Chmod(filepath.Dir(out), 0o777)
		env := []string{"PWD=" + cwd}
		if len(list) > 0 || r.Intn(2) == 0 {
			env = append(env, "FBDPATH="+fp)
		}
		if r.Intn(4) == 0 {
			mainFile = filepath.Join(cwd, mainFile)
		}
		x := Cmd{Bin: c.bin, Dir: cwd, Args: []string{"-c", out, mainFile}, Env: env, UID: uid}.run()
		c.eval(1)
		if dup && kind != "ambiguous" {
			c.count("packages of the same name, declared as not implemented", 1)
			if x.Exit == 0 || declared(x) {
				return
			}
		}
		if c.unusable(i, x, tx, "discovery") {
			return
		}
		c.count("kind: "+kind, 1)
		if kind != "plain" {
			if x.Exit != 1 || !strings.Contains(x.err(), wantErr) && !strings.Contains(x.err(), strconv.Quote(wantErr)) {
				c.violation(i, fmt.Sprintf("import of %s path %q: %s", kind, wantErr, x.brief()), tx, modelText(vis))
			}
			return
		}
		if x.Exit != 0 {
			c.violation(i, "a project with visible packages is rejected: "+x.brief(), tx, modelText(vis))
			return
		}
		b, _ := os.ReadFile(out)
		want := map[string]map[string]*big.Int{"main": {}}
		for _, p := range vis {
			want[p.name] = map[string]*big.Int{}
			for _, id := range p.ids {
				v, _ := new(big.Int).SetString(strings.TrimPrefix(id, "ID_"), 10)
				want[p.name][id] = v
			}
		}
		if d := checkPkgs(b, want); d != "" {
			c.violation(i, "packages found: "+d, tx, modelText(vis))
			return
		}
		c.count("packages found", int64(len(vis)))
		c.count("packages imported", int64(n))
		if uid != 0 {
			c.count("runs as an unprivileged user", 1)
		}
		for _, n := range t.nodes {
			switch {
			case n.kind == 'l':
				c.count("links", 1)
			case n.kind == 'd' && n.mode&5 != 5:
				c.count("unreadable directories", 1)
			}
		}
		if len(vis) > 0 {
			c.nontrivial(tx.text())
		}
	})
}

// underLink tells if two components of a path might not be known.
func underLink(list []string) bool {
	for _, x := range list {
		if strings.Contains(x, "..") || strings.HasPrefix(x, ".") {
			return true
		}
	}
	return false
}

func modelText(l []*dpkg) string {
	s := "visible packages:\n"
	for _, p := range l {
		s += fmt.Sprintf("  %s %s %v\n", p.name, p.real, p.ids)
	}
	return s
}
