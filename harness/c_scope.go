package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
)

func init() { register("C11", checkC11) }

// ---------------------------------------------------------------------------
// Reference elaborator: lexical scoping, parameters, imports.
// ---------------------------------------------------------------------------

type lunit struct {
	name  string
	dir   string
	files []*lfile
	env   *lenv
}

type lfile struct {
	unit    *lunit
	items   []*Item
	imports map[string]*lunit
	impl    []*Item
	env     *lenv
}

type lenv struct {
	parent *lenv
	file   *lfile // set for the file level environment
	consts map[string]*lconst
	types  map[string]*ldef
	args   map[string]*lconst
}

type lconst struct {
	e    *Expr
	env  *lenv
	v    *big.Int
	done bool
	busy bool
}

type ldef struct {
	it  *Item
	env *lenv
}

type lerr struct{ s string }

func lfail(f string, a ...any) { panic(lerr{fmt.Sprintf(f, a...)}) }

func newEnv(p *lenv) *lenv {
	return &lenv{parent: p, consts: map[string]*lconst{}, types: map[string]*ldef{}, args: map[string]*lconst{}}
}

func (e *lenv) add(items []*Item) {
	for _, it := range items {
		switch it.K {
		case "const":
			e.consts[it.Name] = &lconst{e: it.E, env: e}
		case "type":
			e.types[it.Name] = &ldef{it, e}
		}
	}
}

func (e *lenv) findConst(n string) *lconst {
	if q, s, ok := strings.Cut(n, "."); ok {
		u := e.fileEnv().file.imports[q]
		if u == nil {
			lfail("package %s is not imported", q)
		}
		for _, f := range u.files {
			if c := f.env.consts[s]; c != nil {
				return c
			}
		}
		lfail("constant %s not found", n)
	}
	for x := e; x != nil; x = x.parent {
		if x.file != nil {
			for _, f := range x.file.unit.files {
				if c := f.env.consts[n]; c != nil {
					return c
				}
			}
			break
		}
		if c := x.consts[n]; c != nil {
			return c
		}
		if c := x.args[n]; c != nil {
			return c
		}
	}
	lfail("constant %s not found", n)
	return nil
}

func (e *lenv) fileEnv() *lenv {
	for x := e; ; x = x.parent {
		if x.file != nil {
			return x
		}
	}
}

func (e *lenv) findType(n string) *ldef {
	if q, s, ok := strings.Cut(n, "."); ok {
		u := e.fileEnv().file.imports[q]
		if u == nil {
			lfail("package %s is not imported", q)
		}
		for _, f := range u.files {
			if c := f.env.types[s]; c != nil {
				return c
			}
		}
		lfail("type %s not found", n)
	}
	for x := e; x != nil; x = x.parent {
		if x.file != nil {
			for _, f := range x.file.unit.files {
				if c := f.env.types[n]; c != nil {
					return c
				}
			}
			break
		}
		if c := x.types[n]; c != nil {
			return c
		}
	}
	lfail("type %s not found", n)
	return nil
}

func (c *lconst) value() *big.Int {
	if c.done {
		return c.v
	}
	if c.busy {
		lfail("constant depends on itself")
	}
	c.busy = true
	c.v = leval(c.e, c.env)
	c.busy = false
	c.done = true
	return c.v
}

func leval(e *Expr, env *lenv) *big.Int {
	v := levalAny(e, env)
	if v.K != 'i' {
		lfail("cannot evaluate")
	}
	return v.I
}

func levalAny(e *Expr, env *lenv) RV {
	m := map[string]RV{}
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x.K == "id" {
			m[x.S] = RV{K: 'i', I: env.findConst(x.S).value()}
		}
		for _, a := range x.A {
			walk(a)
		}
	}
	walk(e)
	return refEval(e, m)
}

type elab struct {
	depth int
	open  bool // something whose validity is not modelled
}

func (l *elab) inst(it *Item, env *lenv) *Elem {
	l.depth++
	if l.depth > 40 {
		lfail("recursion")
	}
	defer func() { l.depth-- }()
	// chain from the instantiation to the base type
	type link struct {
		it  *Item
		env *lenv // environment of the body
		def *lenv // environment of the definition
	}
	ienv := newEnv(env)
	ienv.add(it.Body)
	chain := []link{{it, ienv, env}}
	seen := map[*Item]bool{}
	for !isBase(chain[len(chain)-1].it.Base) {
		last := chain[len(chain)-1]
		d := last.def.findType(last.it.Base)
		if seen[d.it] {
			lfail("type defined with itself")
		}
		seen[d.it] = true
		tenv := newEnv(d.env)
		tenv.add(d.it.Body)
		// arguments are written in the scope of the referring definition
		bound := map[string]bool{}
		if len(last.it.Args) > len(d.it.Params) {
			lfail("too many arguments")
		}
		for k, a := range last.it.Args {
			n := a.Name
			if n == "" {
				n = d.it.Params[k].Name
			}
			ok := false
			for _, p := range d.it.Params {
				if p.Name == n {
					ok = true
				}
			}
			if !ok || bound[n] {
				lfail("argument %s", n)
			}
			bound[n] = true
			tenv.args[n] = &lconst{v: leval(a.E, last.env), done: true}
		}
		for _, p := range d.it.Params {
			if !bound[p.Name] {
				if p.Def == nil {
					lfail("missing argument %s", p.Name)
				}
				tenv.args[p.Name] = &lconst{e: p.Def, env: tenv}
			}
		}
		chain = append(chain, link{d.it, tenv, d.env})
	}
	e := &Elem{Kind: chain[len(chain)-1].it.Base, Name: it.Name, Count: -1}
	if it.Arr != nil {
		v := leval(it.Arr, ienv)
		e.Count = v.Int64()
	}
	names := map[string]bool{}
	for k := len(chain) - 1; k >= 0; k-- {
		x := chain[k]
		for _, b := range x.it.Body {
			switch b.K {
			case "prop":
				if _, ok := e.prop(b.Name); ok {
					lfail("property set twice")
				}
				if v := levalAny(b.E, x.env); v.K == 'b' {
					e.set(b.Name, vb(v.B))
				} else if v.K == 'i' {
					e.set(b.Name, vi(v.I.Int64()))
				} else {
					lfail("cannot evaluate")
				}
			case "const":
				if e.Kind == "block" || e.Kind == "group" || e.Kind == "bus" {
					for _, c := range e.Consts {
						if c.Name == b.Name {
							lfail("constant redefined in type chain")
						}
					}
					e.Consts = append(e.Consts, DConst{b.Name, vi(x.env.consts[b.Name].value().Int64())})
				}
			case "inst":
				if names[b.Name] {
					lfail("instantiated twice")
				}
				names[b.Name] = true
				sub := l.inst(b, x.env)
				if (e.Kind == "group" || e.Kind == "stream") && (sub.Kind == "param" || sub.Kind == "return") && !fits(sub.Kind, e.Kind) {
					l.open = true // groups of params, streams of returns, alone or mixed with others
				}
				if !fits(sub.Kind, e.Kind) {
					lfail("functionality not allowed here")
				}
				e.Subs = append(e.Subs, sub)
			}
		}
	}
	if (e.Kind == "group" || e.Kind == "stream") && len(e.Subs) == 0 {
		lfail("empty %s", e.Kind)
	}
	return e
}

// fits tells whether a functionality can stand in the body of the other.
func fits(kind, in string) bool {
	io := kind == "param" || kind == "return"
	switch {
	case leafKind(in):
		return false
	case in == "proc":
		return io
	case in == "stream":
		return kind == "param" // returns are not used by the generator
	case in == "group":
		return leafKind(kind) && !io
	}
	return !io
}

func isBase(t string) bool {
	switch t {
	case "blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream":
		return true
	}
	return false
}

// argList fails if the argument list of an instantiation or a type does not fit the parameters.
func argList(it *Item, d *ldef) {
	if len(it.Args) > len(d.it.Params) {
		lfail("too many arguments")
	}
	bound := map[string]bool{}
	for k, a := range it.Args {
		n := a.Name
		if n == "" {
			n = d.it.Params[k].Name
		}
		ok := false
		for _, p := range d.it.Params {
			if p.Name == n {
				ok = true
			}
		}
		if !ok || bound[n] {
			lfail("argument %s", n)
		}
		bound[n] = true
	}
	for _, p := range d.it.Params {
		if !bound[p.Name] && p.Def == nil {
			lfail("missing argument %s", p.Name)
		}
	}
}

// staticErrs counts names that do not resolve or types that do not exist anywhere in the items.
func staticErrs(items []*Item, env *lenv) (n int) {
	try := func(f func()) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(lerr); !ok {
					panic(e)
				}
				n++
			}
		}()
		f()
	}
	var ex func(e *Expr, env *lenv)
	ex = func(e *Expr, env *lenv) {
		if e == nil {
			return
		}
		if e.K == "id" {
			try(func() { env.findConst(e.S) })
		}
		for _, a := range e.A {
			ex(a, env)
		}
	}
	for _, it := range items {
		switch it.K {
		case "const", "prop":
			ex(it.E, env)
		case "type", "inst":
			b := newEnv(env)
			b.add(it.Body)
			for _, p := range it.Params {
				b.args[p.Name] = &lconst{v: big.NewInt(1), done: true}
			}
			if !isBase(it.Base) {
				try(func() { argList(it, env.findType(it.Base)) })
			}
			ex(it.Arr, b)
			for _, a := range it.Args {
				ex(a.E, b)
			}
			for _, p := range it.Params {
				ex(p.Def, b)
			}
			n += staticErrs(it.Body, b)
		}
	}
	return n
}

// ---------------------------------------------------------------------------
// Generator of descriptions full of homonyms.
// ---------------------------------------------------------------------------

type SGen struct {
	r     *rand.Rand
	n     int
	wrong int // percent of arbitrary names
	units []*lunit
}

var scopeNames = []string{"A", "B", "C", "D", "E"}
var scopeTypes = []string{"T", "U", "V", "W"}

func (g *SGen) fresh(p string) string {
	g.n++
	return fmt.Sprintf("%s%d", p, g.n)
}

// sctx is the static view of the generator.
type sctx struct {
	consts []string // visible unqualified and qualified names
	types  []stype
	self   map[string]bool // names being defined
}

type stype struct {
	name   string
	kind   string
	params []Param
}

func (g *SGen) name(c *sctx) *Expr {
	r := g.r
	if r.Intn(100) < g.wrong || len(c.consts) == 0 {
		if r.Intn(100) < g.wrong {
			return eID(pick(r, "A", "B", "C", "D", "E", "q.A", "alpha.B", "bravo.C"))
		}
		return eInt(int64(1 + r.Intn(9)))
	}
	return eID(c.consts[r.Intn(len(c.consts))])
}

// expr returns a small positive expression.
func (g *SGen) expr(c *sctx) *Expr {
	r := g.r
	e := g.name(c)
	switch r.Intn(5) {
	case 0:
		e = eBin("+", e, eInt(int64(r.Intn(4))))
	case 1:
		e = eBin("+", e, g.name(c))
	case 2:
		e = eInt(int64(1 + r.Intn(9)))
	}
	return eBin("+", eBin("%", e, eInt(int64(17+r.Intn(12)))), eInt(int64(1+r.Intn(3))))
}

func (c *sctx) child(names []string, types []stype) *sctx {
	x := &sctx{}
	x.consts = append(append([]string{}, names...), c.consts...)
	// inner names several times, so that they are likely to be used
	x.consts = append(x.consts, names...)
	x.types = append(append([]stype{}, types...), c.types...)
	return x
}

func (g *SGen) pickNames(n int) []string {
	p := g.r.Perm(len(scopeNames))
	var l []string
	for _, i := range p[:n] {
		l = append(l, scopeNames[i])
	}
	return l
}

// consts defines the names of one scope; inner are names of the scope defined so far.
func (g *SGen) consts(names []string, out *sctx) []*Item {
	var l []*Item
	in := map[string]bool{}
	for _, n := range names {
		in[n] = true
	}
	var done []string
	for _, n := range names {
		c := &sctx{}
		for _, x := range out.consts {
			if !in[x] {
				c.consts = append(c.consts, x)
			}
		}
		c.consts = append(c.consts, done...)
		e := eInt(int64(1 + g.r.Intn(60)))
		if g.r.Intn(3) == 0 {
			e = g.expr(c)
		}
		l = append(l, &Item{K: "const", Name: n, E: e})
		done = append(done, n)
	}
	return l
}

func (g *SGen) typeDef(name string, c *sctx, depth int) (*Item, stype) {
	r := g.r
	it := &Item{K: "type", Name: name}
	ps := g.pickNames(r.Intn(3))
	dflt := false
	for _, p := range ps {
		q := Param{Name: p}
		if dflt || r.Intn(3) == 0 {
			dflt = true
			q.Def = eInt(int64(1 + r.Intn(40)))
			if r.Intn(2) == 0 {
				d := &sctx{}
				for _, x := range c.consts {
					if !contains(ps, x) {
						d.consts = append(d.consts, x)
					}
				}
				q.Def = g.expr(d)
			}
		}
		it.Params = append(it.Params, q)
	}
	st := stype{name: name, params: it.Params}
	inner := c.child(ps, nil)
	kind := pick(r, "block", "block", "group", "status", "config", "block", "mask", "proc", "stream", "param", "return")
	it.Base = kind
	if len(c.types) > 0 && r.Intn(3) == 0 {
		b := c.types[r.Intn(len(c.types))]
		if b.name != name && b.kind != "" {
			kind = b.kind
			it.Base = b.name
			it.Args, it.HasArgs = g.args(b, inner)
		}
	}
	st.kind = kind
	it.Body = g.body(kind, inner, depth, isBase(it.Base))
	return it, st
}

func (g *SGen) args(t stype, c *sctx) ([]Arg, bool) {
	r := g.r
	var l, kw []Arg
	k := false
	for _, p := range t.params {
		if p.Def != nil && r.Intn(2) == 0 {
			k = true
			continue
		}
		if r.Intn(3) == 0 {
			k = true
		}
		a := Arg{E: g.expr(c)}
		if k {
			a.Name = p.Name
			kw = append(kw, a)
		} else {
			l = append(l, a)
		}
	}
	r.Shuffle(len(kw), func(a, b int) { kw[a], kw[b] = kw[b], kw[a] })
	l = append(l, kw...)
	return l, len(l) > 0
}

func (g *SGen) body(kind string, c *sctx, depth int, own bool) []*Item {
	r := g.r
	var l []*Item
	var names []string
	nc := r.Intn(3)
	if leafKind(kind) {
		nc = r.Intn(4) / 2
	}
	names = g.pickNames(nc)
	in := c.child(names, nil)
	l = append(l, g.consts(names, c)...)
	if leafKind(kind) {
		if own && r.Intn(5) > 0 || !own && r.Intn(12) == 0 {
			l = append(l, &Item{K: "prop", Name: "width", E: g.expr(in)})
		}
		if len(l) > 1 && r.Intn(2) == 0 {
			l[0], l[len(l)-1] = l[len(l)-1], l[0]
		}
		return l
	}
	var types []stype
	if depth > 0 && kind != "group" {
		tn := append([]string(nil), scopeTypes...)
		r.Shuffle(len(tn), func(a, b int) { tn[a], tn[b] = tn[b], tn[a] })
		tn = tn[:r.Intn(3)]
		for _, nm := range tn {
			// the names of the types of the scope hide outer ones
			tc := in.child(nil, nil)
			for _, x := range tn {
				tc.types = without(tc.types, x)
			}
			tc.types = append(append([]stype{}, types...), tc.types...)
			it, st := g.typeDef(nm, tc, depth-1)
			l = append(l, it)
			types = append(types, st)
		}
	}
	in = in.child(nil, types)
	for _, t := range types {
		in.types = withoutOuter(in.types, t)
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		l = append(l, g.inst(kind, in, depth-1))
	}
	// order does not matter
	for i := range l {
		if l[i].K == "inst" {
			continue
		}
		j := r.Intn(len(l))
		if l[j].K != "inst" {
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func without(l []stype, n string) []stype {
	var r []stype
	for _, t := range l {
		if t.name != n {
			r = append(r, t)
		}
	}
	return r
}

// withoutOuter drops hidden homonyms of t.
func withoutOuter(l []stype, t stype) []stype {
	var r []stype
	first := true
	for _, x := range l {
		if x.name == t.name {
			if !first {
				continue
			}
			first = false
		}
		r = append(r, x)
	}
	return r
}

func (g *SGen) inst(in string, c *sctx, depth int) *Item {
	r := g.r
	it := &Item{K: "inst", Name: g.fresh("i")}
	var cand []stype
	for _, t := range c.types {
		if !fits(t.kind, in) {
			continue
		}
		cand = append(cand, t)
	}
	if len(cand) > 0 && r.Intn(5) < 3 {
		t := cand[r.Intn(len(cand))]
		it.Base = t.name
		it.Args, it.HasArgs = g.args(t, c)
		if r.Intn(100) < g.wrong {
			it.Base = pick(r, "T", "U", "V", "W", "q.T", "alpha.U")
		}
		if r.Intn(4) == 0 && !it.HasArgs {
			it.Body = g.body(t.kind, c, min(depth, 0), false)
		}
		return it
	}
	it.Base = pick(r, "status", "config", "status", "mask")
	switch {
	case in == "proc":
		it.Base = pick(r, "param", "return")
	case in == "stream":
		it.Base = "param"
	case in != "group" && depth > 0 && r.Intn(3) == 0:
		it.Base = pick(r, "block", "group", "block", "proc", "stream")
	}
	if r.Intn(6) == 0 {
		it.Arr = eInt(int64(1 + r.Intn(3)))
		if r.Intn(2) == 0 {
			it.Arr = eBin("+", eBin("%", g.name(c), eInt(3)), eInt(1))
		}
		if it.Base == "group" || it.Base == "proc" || it.Base == "stream" {
			it.Arr = nil
		}
	}
	it.Body = g.body(it.Base, c, depth, true)
	if it.Arr != nil && (it.Base == "config" || it.Base == "mask") {
		it.Arr = nil // arrays of wide configs and of masks are not implemented
	}
	return it
}

// project generates a main file and packages.
func (g *SGen) project() {
	r := g.r
	names := []string{"alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf"}
	if k := r.Intn(12); k == 11 {
		names = names[:3+r.Intn(5)]
	} else {
		names = names[:k/4]
	}
	main := &lunit{name: "main"}
	g.units = []*lunit{main}
	for _, n := range names {
		g.units = append(g.units, &lunit{name: n, dir: "fbd-" + n})
	}
	done := map[*lunit]*sctx{}
	// packages first, in an order without import cycles of types
	for k := len(g.units) - 1; k >= 0; k-- {
		u := g.units[k]
		nf := 1
		if k > 0 {
			nf = 1 + r.Intn(2)
			if r.Intn(8) == 0 {
				nf = 1 + r.Intn(6)
			}
		}
		cn := g.pickNames(r.Intn(4))
		tn := append([]string(nil), scopeTypes[:r.Intn(len(scopeTypes))]...)
		r.Shuffle(len(tn), func(a, b int) { tn[a], tn[b] = tn[b], tn[a] })
		view := &sctx{}
		var local []stype
		for f := 0; f < nf; f++ {
			file := &lfile{unit: u, imports: map[string]*lunit{}}
			u.files = append(u.files, file)
			for j := k + 1; j < len(g.units); j++ {
				if r.Intn(4) == 0 {
					continue
				}
				o := g.units[j]
				a := pick(r, o.name, o.name, "q", "q2", "alpha", "bravo", "charlie")
				if file.imports[a] != nil {
					continue
				}
				file.imports[a] = o
				im := &Item{K: "import", Path: pick(r, o.name, "fbd-"+o.name)}
				if a != o.name || r.Intn(3) == 0 {
					im.Name = a
				}
				file.impl = append(file.impl, im)
			}
		}
		for _, file := range u.files {
			_ = file
		}
		// constants of the unit
		fileView := func(f *lfile) *sctx {
			v := &sctx{}
			v.consts = append(v.consts, cn...)
			v.types = append(v.types, local...)
			var as []string
			for a := range f.imports {
				as = append(as, a)
			}
			sort.Strings(as)
			for _, a := range as {
				o := done[f.imports[a]]
				for _, x := range o.consts {
					v.consts = append(v.consts, a+"."+x)
				}
				for _, t := range o.types {
					t.name = a + "." + t.name
					v.types = append(v.types, t)
				}
			}
			return v
		}
		for idx, n := range cn {
			f := u.files[r.Intn(len(u.files))]
			c := &sctx{}
			for _, x := range fileView(f).consts {
				if strings.Contains(x, ".") {
					c.consts = append(c.consts, x)
				}
			}
			c.consts = append(c.consts, cn[:idx]...)
			e := eInt(int64(1 + r.Intn(60)))
			if r.Intn(2) == 0 {
				e = g.expr(c)
			}
			f.items = append(f.items, &Item{K: "const", Name: n, E: e})
		}
		for _, n := range tn {
			f := u.files[r.Intn(len(u.files))]
			it, st := g.typeDef(n, fileView(f), 2)
			f.items = append(f.items, it)
			local = append(local, st)
		}
		view.consts = cn
		view.types = local
		done[u] = view
		if k == 0 {
			f := u.files[0]
			bus := &Item{K: "inst", Name: "main", Base: "bus"}
			bus.Body = g.body("block", fileView(f), 3, true)
			f.items = append(f.items, bus)
		}
		for _, f := range u.files {
			r.Shuffle(len(f.items), func(a, b int) { f.items[a], f.items[b] = f.items[b], f.items[a] })
		}
	}
	for _, u := range g.units {
		for _, f := range u.files {
			f.env = newEnv(nil)
			f.env.file = f
			f.env.add(f.items)
		}
	}
}

func (g *SGen) files(st func() *Style) Files {
	fs := Files{}
	for k, u := range g.units {
		for j, f := range u.files {
			n := "bus.fbd"
			if k > 0 {
				n = fmt.Sprintf("%s/f%d.fbd", u.dir, j)
			}
			fs[n] = printItems(append(append([]*Item{}, f.impl...), f.items...), st())
		}
	}
	return fs
}

// reference elaborates the project. The error is empty if it is valid.
func (g *SGen) reference() (d *Elem, pk map[string]map[string]*big.Int, why string, static int) {
	l := &elab{}
	defer func() {
		if l.open {
			static++
			defer func() { why = "" }()
		}
		if e := recover(); e != nil {
			x, ok := e.(lerr)
			if !ok {
				panic(e)
			}
			why = x.s
		}
	}()
	for _, u := range g.units {
		for _, f := range u.files {
			static += staticErrs(f.items, f.env)
		}
	}
	pk = map[string]map[string]*big.Int{}
	for _, u := range g.units {
		m := map[string]*big.Int{}
		for _, f := range u.files {
			for n, c := range f.env.consts {
				m[n] = c.value()
			}
		}
		pk[u.name] = m
	}
	for _, it := range g.units[0].files[0].items {
		if it.K == "inst" {
			l.depth = 0
			d = l.inst(it, g.units[0].files[0].env)
		}
	}
	// Types without required parameters built on other types are checked on their own.
	for _, u := range g.units {
		for _, f := range u.files {
			for _, it := range f.items {
				if it.K != "type" || isBase(it.Base) {
					continue
				}
				req := false
				for _, p := range it.Params {
					if p.Def == nil {
						req = true
					}
				}
				if !req {
					l.depth = 0
					l.inst(&Item{K: "inst", Name: "x", Base: it.Name}, f.env)
				}
			}
		}
	}
	return
}

func refNames(d *Elem, f func(string)) {
	d.walk(func(e, _ *Elem, _ int) { f(e.Kind) })
}

func checkC11(c *Check) {
	c.rule = "random projects full of homonymous constants, parameters, types and import names at every level, with some references to names that are not visible; compared with a reference elaborator with lexical scoping (model, block constants, dumped package constants, or rejection); " +
		"non-trivial: at least 4 name references, distinct by source text"
	c.assume = []string{"a description whose main bus elaborates but that holds an unresolved name elsewhere may be accepted or rejected", "default values do not refer to parameters of the same type"}
	n := c.n(24000, 150000)
	c.parallel(n, func(w *Worker, i int) {
		r := newRand(c.seed, "C11", i)
		g := &SGen{r: r}
		if i%3 == 2 {
			g.wrong = 5
		}
		g.project()
		d, pk, why, static := g.reference()
		st := canonical
		if i%5 == 4 {
			st = func() *Style { return wild(r) }
		}
		f := g.files(st)
		t := f.text()
		res := w.compile(f, "-c", "consts.json")
		c.eval(1)
		if c.unusable(i, res, f, "scoping") {
			return
		}
		if why != "" {
			if res.Exit == 0 {
				c.violation(i, "accepted although "+why, f, t+string(res.Stdout))
				return
			}
			c.count("rejected: "+strings.SplitN(why, " ", 2)[0], 1)
			c.nontrivial(t)
			return
		}
		if static > 0 {
			c.count("unresolved names outside the main bus", 1)
			return
		}
		j := c.mustCompile(i, res, f, "scoping")
		if j == nil {
			return
		}
		fd := fidelity(d, j, false)
		if len(fd.errs) > 0 {
			c.violation(i, strings.Join(firstN(fd.errs, 5), "\n"), f, t+string(res.Stdout))
			return
		}
		if e := checkPkgs(res.Const, pk); e != "" {
			c.violation(i, e, f, t+string(res.Const))
			return
		}
		c.count("elements compared", fd.n["functionalities compared"])
		c.count("block constants compared", fd.n["constants compared"])
		c.count("packages compared", int64(len(pk)))
		refNames(d, func(k string) { c.count("elaborated "+k, 1) })
		if strings.Count(t, " % ") > 3 {
			c.nontrivial(t)
		}
		if i < 3 {
			c.sample(t)
		}
	})
}
