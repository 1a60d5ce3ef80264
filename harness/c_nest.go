package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Nested definitions: types and constants in the bodies of types with parameters, depending on these
// parameters, the outer types used several times with different arguments. All programs are valid by
// construction, the inlined description comes from the reference elaborator of C11.

type nname struct {
	ref  string // as referred to
	near bool   // defined in the innermost scopes
}

type ntype struct {
	ref    string
	kind   string
	params []Param
	cost   int  // functionalities of one instance
	width  bool // width (or masters) already set
	init   bool
	body   bool // something is in the body
	hide   string
}

type nctx struct {
	consts []nname
	types  []ntype
}

func (c *nctx) child() *nctx {
	x := &nctx{types: append([]ntype(nil), c.types...)}
	for _, n := range c.consts {
		x.consts = append(x.consts, nname{ref: n.ref})
	}
	return x
}

// hide makes outer homonyms inaccessible.
func (c *nctx) def(n string) {
	l := c.consts[:0:0]
	for _, x := range c.consts {
		if x.ref != n {
			l = append(l, x)
		}
	}
	c.consts = append(l, nname{n, true})
}

func (c *nctx) defType(t ntype) {
	l := c.types[:0:0]
	for _, x := range c.types {
		if x.ref != t.ref {
			l = append(l, x)
		}
	}
	c.types = append(l, t)
}

type NGen struct {
	r     *rand.Rand
	n     int
	stat  map[string]int64
	far   []string
	deep  int
	limit int
}

func (g *NGen) fresh(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }

// newName is sometimes an outer name.
func (g *NGen) newName(c *nctx, p string, used map[string]bool) string {
	for k := 0; k < 4; k++ {
		if g.r.Intn(4) == 0 && len(c.consts) > 0 {
			n := c.consts[g.r.Intn(len(c.consts))].ref
			if !used[n] && !strings.Contains(n, ".") {
				used[n] = true
				g.stat["shadowing definitions"]++
				return n
			}
		}
	}
	n := g.fresh(p)
	used[n] = true
	return n
}

// name prefers names of the innermost scopes.
func (g *NGen) name(c *nctx) *Expr {
	if len(c.consts) == 0 {
		return eInt(int64(1 + g.r.Intn(30)))
	}
	for k := 0; k < 2; k++ {
		x := c.consts[g.r.Intn(len(c.consts))]
		if x.near || g.r.Intn(3) == 0 {
			return eID(x.ref)
		}
	}
	return eID(c.consts[len(c.consts)-1-g.r.Intn(min(4, len(c.consts)))].ref)
}

// expr has a value in [1, 61].
func (g *NGen) expr(c *nctx) *Expr {
	r := g.r
	e := g.name(c)
	if r.Intn(8) == 0 {
		return eInt(int64(1 + r.Intn(40)))
	}
	switch r.Intn(6) {
	case 0:
		return e
	case 1:
		e = eBin("+", e, g.name(c))
	case 2:
		e = eBin("*", g.name(c), e)
	case 3:
		e = eBin("+", e, eBin("*", g.name(c), eInt(int64(2+r.Intn(3)))))
	case 4:
		e = eBin("+", e, eInt(int64(r.Intn(9))))
	}
	return eBin("+", eBin("%", e, eInt(int64(11+r.Intn(50)))), eInt(1))
}

func (g *NGen) count(c *nctx) *Expr {
	return eBin("+", eBin("%", g.name(c), eInt(int64(2+g.r.Intn(4)))), eInt(1))
}

var nestLeafs = []string{"status", "config", "mask", "status", "config", "static"}

func (g *NGen) leafIn(kind string) []string {
	switch kind {
	case "proc":
		return []string{"param", "return"}
	case "stream":
		return []string{"param"}
	}
	return nestLeafs
}

// typeDef writes a type; c is the context of the definition.
func (g *NGen) typeDef(c *nctx, kinds []string, depth int, pre string, scope []*Item) (*Item, ntype) {
	r := g.r
	it := &Item{K: "type"}
	it.Name = g.fresh(pick(r, "T", "ty", "X_"))
	if r.Intn(5) == 0 && len(c.types) > 0 {
		if n := c.types[r.Intn(len(c.types))].ref; !strings.Contains(n, ".") && g.usable(n) && !usesType(scope, n) {
			it.Name = n
			g.stat["shadowing types"]++
		}
	}
	t := ntype{ref: pre + it.Name}
	in := c.child()
	in.types = in.types[:0]
	for _, x := range c.types {
		if x.ref != it.Name {
			in.types = append(in.types, x)
		}
	}
	used := map[string]bool{}
	opt := false
	np := r.Intn(4)
	if depth <= 1 && r.Intn(2) == 0 {
		np = 0
	}
	for k := 0; k < np; k++ {
		p := Param{Name: g.newName(c, "p", used)}
		if opt || r.Intn(4) == 0 {
			opt = true
		}
		it.Params = append(it.Params, p)
	}
	if opt {
		// default values do not refer to parameters of the type
		d := &nctx{}
		for _, x := range c.consts {
			if !used[x.ref] {
				d.consts = append(d.consts, x)
			}
		}
		for k := len(it.Params) - 1; k >= 0; k-- {
			it.Params[k].Def = g.expr(d)
			if r.Intn(2) == 0 {
				break
			}
		}
	}
	t.params = it.Params
	for _, p := range it.Params {
		in.def(p.Name)
	}
	if len(it.Params) == 0 {
		g.stat["types without parameters"]++
	}
	t.kind = kinds[r.Intn(len(kinds))]
	it.Base = t.kind
	// a type on another type
	if r.Intn(3) == 0 {
		var cand []ntype
		for _, x := range c.types {
			if contains(kinds, x.kind) && x.ref != it.Name && x.cost < g.limit/4 {
				cand = append(cand, x)
			}
		}
		if len(cand) > 0 {
			b := cand[r.Intn(len(cand))]
			it.Base = b.ref
			it.Args, it.HasArgs = g.args(b, in)
			t.kind, t.width, t.init, t.body, t.cost = b.kind, b.width, b.init, b.body, b.cost
			g.stat["type chains"]++
		}
	}
	g.body(it, &t, in, depth)
	g.stat["types of kind "+t.kind]++
	return it, t
}

// usable: the names of the scope under construction must stay unique.
func (g *NGen) usable(n string) bool {
	for _, x := range g.far {
		if x == n {
			return false
		}
	}
	return true
}

func (g *NGen) args(t ntype, c *nctx) ([]Arg, bool) {
	r := g.r
	var l, kw []Arg
	k := false
	for _, p := range t.params {
		if p.Def != nil && r.Intn(3) == 0 {
			k = true
			g.stat["default arguments"]++
			continue
		}
		k = k || r.Intn(3) == 0
		a := Arg{E: g.expr(c)}
		if k {
			a.Name = p.Name
			kw = append(kw, a)
		} else {
			l = append(l, a)
		}
	}
	r.Shuffle(len(kw), func(a, b int) { kw[a], kw[b] = kw[b], kw[a] })
	l = append(l, kw...)
	return l, len(l) > 0
}

// body writes the body of a type or an instantiation and updates t.
func (g *NGen) body(it *Item, t *ntype, c *nctx, depth int) {
	r := g.r
	used := map[string]bool{}
	isType := it.K == "type"
	var defs, props, insts []*Item
	in := c.child()
	for _, x := range c.consts {
		if x.near {
			in.def(x.ref)
		}
	}
	for k := r.Intn(3); k > 0 && (!leafKind(t.kind) || r.Intn(2) == 0); k-- {
		var n string
		if isType {
			// instantiations resolve their arguments in their own body first: fresh names there
			n = g.newName(c, "K", used)
			for _, p := range it.Params {
				if p.Name == n || p.Def != nil && usesName(p.Def, n) {
					n = g.fresh("K")
				}
			}
		} else {
			n = g.fresh("K")
		}
		// names of this body that are not defined yet are not visible to the expression
		e := &nctx{}
		for _, x := range in.consts {
			if x.ref != n {
				e.consts = append(e.consts, x)
			}
		}
		// a constant defined before must not be redefined by the chain
		if !isBase(it.Base) {
			n = g.fresh("K")
		}
		defs = append(defs, &Item{K: "const", Name: n, E: g.expr(e)})
		g.stat["constants in bodies"]++
		in.def(n)
	}
	// The constants above were written while outer homonyms were visible: check them again.
	for a, x := range defs {
		for _, y := range defs[a:] {
			if usesName(x.E, y.Name) {
				x.E = eInt(int64(1 + r.Intn(50)))
			}
		}
	}
	if leafKind(t.kind) {
		if !t.width && r.Intn(6) > 0 {
			t.width = true
			props = append(props, &Item{K: "prop", Name: "width", E: g.expr(in)})
		}
		if !t.init && t.width && r.Intn(3) == 0 && (t.kind == "config" || t.kind == "mask") {
			t.init = true
			props = append(props, &Item{K: "prop", Name: "init-value", E: eBin("%", g.name(in), eInt(2))})
		}
		if t.kind == "static" && !t.init {
			t.init = true
			props = append(props, &Item{K: "prop", Name: "init-value", E: eBin("%", g.name(in), eInt(2))})
		}
		if t.kind == "status" && !t.body && r.Intn(3) == 0 {
			t.body = true
			props = append(props, &Item{K: "prop", Name: "atomic", E: eCall("bool", eBin("%", g.name(in), eInt(2)))})
		}
		if t.cost == 0 {
			t.cost = 1
		}
	} else {
		if t.kind == "block" && !t.width && r.Intn(4) == 0 {
			t.width = true
			props = append(props, &Item{K: "prop", Name: "masters", E: g.expr(in)})
		}
		far := g.far
		g.far = nil
		if depth > 0 {
			for k := r.Intn(4); k > 0; k-- {
				kinds := append([]string(nil), g.leafIn(t.kind)...)
				if t.kind == "block" {
					kinds = append(kinds, "block", "block", "block", "group", "proc", "stream")
				}
				ti, x := g.typeDef(in, kinds, depth-1, "", defs)
				dup := false
				for _, d := range defs {
					dup = dup || d.Name == ti.Name
				}
				if dup {
					continue
				}
				g.far = append(g.far, ti.Name)
				in.defType(x)
				defs = append(defs, ti)
				g.stat["types in bodies"]++
			}
		}
		g.far = far
		n := 1 + r.Intn(3)
		if t.body && r.Intn(2) == 0 {
			n = 0
		}
		for ; n > 0; n-- {
			x, cost := g.inst(t.kind, in, depth-1)
			if t.cost+cost > g.limit && len(insts) > 0 {
				break
			}
			t.cost += cost
			insts = append(insts, x)
		}
		t.body = true
		t.cost++
	}
	// a definition may follow its uses, a chain of types needs no order either
	r.Shuffle(len(defs), func(a, b int) { defs[a], defs[b] = defs[b], defs[a] })
	all := append(append([]*Item{}, props...), insts...)
	for _, d := range defs {
		k := r.Intn(len(all) + 1)
		all = append(all[:k:k], append([]*Item{d}, all[k:]...)...)
	}
	it.Body = all
}

func usesType(l []*Item, n string) bool {
	for _, it := range l {
		if it.Base == n || usesType(it.Body, n) {
			return true
		}
	}
	return false
}

func usesName(e *Expr, n string) bool {
	if e.K == "id" && e.S == n {
		return true
	}
	for _, a := range e.A {
		if usesName(a, n) {
			return true
		}
	}
	return false
}

func (g *NGen) inst(in string, c *nctx, depth int) (*Item, int) {
	r := g.r
	it := &Item{K: "inst", Name: g.fresh("i")}
	var cand []ntype
	for _, t := range c.types {
		if fits(t.kind, in) && t.cost < g.limit/3 {
			cand = append(cand, t)
		}
	}
	t := ntype{}
	if len(cand) > 0 && r.Intn(5) < 4 {
		// the latest are the innermost
		k := len(cand) - 1 - r.Intn(min(len(cand), 4))
		if r.Intn(3) == 0 {
			k = r.Intn(len(cand))
		}
		b := cand[k]
		it.Base = b.ref
		it.Args, it.HasArgs = g.args(b, c)
		t.kind, t.width, t.init, t.body, t.cost = b.kind, b.width, b.init, b.body, b.cost
		g.stat["typed instantiations"]++
		if t.kind == "status" && r.Intn(3) == 0 || t.kind == "block" && r.Intn(6) == 0 {
			it.Arr = g.count(c)
		}
		if r.Intn(4) == 0 {
			g.body(it, &t, c, min(depth, 1))
		}
		return it, t.cost
	}
	kinds := g.leafIn(in)
	if in == "block" || in == "bus" {
		kinds = append([]string(nil), kinds...)
		if depth > 0 {
			kinds = append(kinds, "block", "block", "group", "proc", "stream")
		}
	}
	t.kind = kinds[r.Intn(len(kinds))]
	it.Base = t.kind
	if t.kind == "status" && r.Intn(3) == 0 {
		it.Arr = g.count(c)
	}
	g.body(it, &t, c, depth)
	return it, t.cost
}

// project writes a main file and sometimes a package.
func (g *NGen) project() (units []*lunit) {
	r := g.r
	mk := func(name string) *lunit {
		u := &lunit{name: name, dir: "fbd-" + name}
		f := &lfile{unit: u, imports: map[string]*lunit{}}
		f.env = newEnv(nil)
		f.env.file = f
		u.files = []*lfile{f}
		return u
	}
	main := mk("main")
	units = []*lunit{main}
	mf := main.files[0]
	top := func(u *lunit, c *nctx, n int, pre string) {
		f := u.files[0]
		g.far = nil
		for k := r.Intn(3); k > 0; k-- {
			nm := g.fresh("G")
			f.items = append(f.items, &Item{K: "const", Name: nm, E: g.expr(c)})
			c.def(nm)
		}
		for ; n > 0; n-- {
			kinds := append([]string{"block", "block", "block", "block", "group", "proc", "stream"}, nestLeafs...)
			it, t := g.typeDef(c, kinds, g.deep, "", f.items)
			g.far = append(g.far, it.Name)
			f.items = append(f.items, it)
			c.defType(t)
		}
		r.Shuffle(len(f.items), func(a, b int) { f.items[a], f.items[b] = f.items[b], f.items[a] })
		f.env.add(f.items)
	}
	mc := &nctx{}
	if r.Intn(3) == 0 {
		u := mk("lib")
		units = append(units, u)
		c := &nctx{}
		top(u, c, 1+r.Intn(3), "")
		mf.imports["lib"] = u
		mf.impl = append(mf.impl, &Item{K: "import", Path: "lib"})
		for _, x := range c.consts {
			mc.consts = append(mc.consts, nname{"lib." + x.ref, true})
		}
		for _, x := range c.types {
			x.ref = "lib." + x.ref
			mc.types = append(mc.types, x)
		}
		g.stat["packages"]++
	}
	top(main, mc, 1+r.Intn(3), "")
	m := &Item{K: "inst", Name: "main", Base: "bus"}
	for k := 3 + r.Intn(6); k > 0; k-- {
		x, _ := g.inst("bus", mc, g.deep)
		m.Body = append(m.Body, x)
	}
	mf.items = append(mf.items, m)
	return
}

// nested returns the files and the inlined description.
func nested(r *rand.Rand, st func() *Style) (Files, *Elem, map[string]int64) {
	g := &NGen{r: r, stat: map[string]int64{}, deep: 1 + r.Intn(3), limit: 60}
	s := &SGen{r: r, units: g.project()}
	d, _, why, static := s.reference()
	if why != "" || static > 0 {
		panic("nested: invalid description: " + why + "\n" + s.files(canonical).text())
	}
	return s.files(st), d, g.stat
}

func nestedCase(c *Check, w *Worker, i int) {
	r := newRand(c.seed, "C09/nested", i)
	st := canonical
	if i%6 == 5 {
		st = func() *Style { return wild(r) }
	}
	files, d, stat := nested(r, st)
	flat := d.flat()
	a := w.compile(files)
	b := w.compileText(flat)
	c.eval(1)
	all := Files{}
	for k, v := range files {
		all["factored/"+k] = v
	}
	all["inlined/bus.fbd"] = flat
	if c.unusable(i, a, all, "nested description") || c.unusable(i, b, all, "inlined nested description") {
		return
	}
	if b.Exit != 0 {
		c.violation(i, "the inlined description does not compile: "+b.brief(), all, all.text())
		return
	}
	if a.Exit != 0 {
		c.violation(i, "the inlined description compiles, the one with nested definitions does not: "+a.brief(), all, all.text())
		return
	}
	if string(a.Stdout) != string(b.Stdout) {
		c.violation(i, "description with nested definitions and inlined description differ: "+firstDiff(b.Stdout, a.Stdout), all, all.text())
		return
	}
	c.nontrivial(files.text())
	c.count("nested: functionalities compared", int64(d.size()))
	for k, v := range stat {
		c.count("nested: "+k, v)
	}
}
