package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Rewriting of a concrete design into an equivalent description with types,
// parameters, constants and packages.
// ---------------------------------------------------------------------------

type fconst struct {
	name string
	v    Value
}

type funit struct {
	name   string
	dir    string
	items  []*Item
	consts []fconst
	alias  map[int]string
	paths  map[int]string
	names  map[string]bool // package level names
}

type fscope struct {
	unit   int
	parent *fscope
	items  []*Item // body level constants and types
	consts []fconst
	elem   *Elem // element whose body it is, nil for templates
	kind   string
}

type fhole struct {
	path  string
	param string
}

type ftype struct {
	name   string
	unit   int
	sc     *fscope
	kind   string
	tmpl   *Elem
	holes  []fhole
	params []string
	dflt   map[string]*Value
	unused string
}

// selfContained tells whether a partial element is valid on its own, for any default value.
func selfContained(e *Elem) bool {
	ok := true
	e.walk(func(x, _ *Elem, _ int) {
		for _, p := range x.Props {
			if strings.Contains(p.Name, "value") || p.Name == "align" {
				ok = false
			}
		}
		if x.Kind == "static" || x.Kind == "irq" {
			ok = false
		}
	})
	return ok
}

type Factorer struct {
	r       *rand.Rand
	n       int
	units   []*funit
	pool    []*ftype
	PType   int // percent
	PReuse  int
	PConst  int
	PExpr   int
	PDecoy  int
	PParam  int
	PLocal  int // percent of body level definitions
	MaxType int
	Chain   int             // limit of nesting of type definitions
	soft    map[string]bool // words already used as names
	stat    map[string]int64
	depth   int
}

func newFactorer(r *rand.Rand, units int) *Factorer {
	f := &Factorer{r: r, PType: 55, PReuse: 75, PConst: 25, PExpr: 30, PDecoy: 25, PParam: 40, PLocal: 25, MaxType: 60, Chain: 4, stat: map[string]int64{}}
	names := []string{"alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliett"}
	r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
	f.units = append(f.units, &funit{name: "main", alias: map[int]string{}, paths: map[int]string{}, names: map[string]bool{}})
	for i := 0; i < units; i++ {
		u := &funit{name: names[i], alias: map[int]string{}, paths: map[int]string{}, names: map[string]bool{}}
		u.dir = pick(r, "", "lib/", "vendor/deep/") + "fbd-" + names[i]
		f.units = append(f.units, u)
	}
	return f
}

func (f *Factorer) pc(p int) bool { return f.r.Intn(100) < p }

func (f *Factorer) fresh(p string) string {
	f.n++
	if f.r.Intn(25) == 0 && p != "im" && p != "p" && p != "pkg_" {
		w := pick(f.r, softWords...)
		if !f.soft[w] {
			if f.soft == nil {
				f.soft = map[string]bool{}
			}
			f.soft[w] = true
			return w
		}
	}
	return fmt.Sprintf("%s%d", p, f.n)
}

// ref returns the name of a package level symbol of unit u seen from unit from.
func (f *Factorer) ref(name string, u, from int) string {
	if u == from {
		return name
	}
	un := f.units[from]
	a, ok := un.alias[u]
	if !ok {
		t := f.units[u]
		switch f.r.Intn(4) {
		case 0:
			a, un.paths[u] = "", t.name
		case 1:
			a, un.paths[u] = "", "fbd-"+t.name
		case 2:
			a, un.paths[u] = f.fresh(pick(f.r, "im", "p", "pkg_")), t.dir
		default:
			a, un.paths[u] = f.fresh("im"), t.name
		}
		if a == "" {
			un.alias[u] = t.name
		} else {
			un.alias[u] = a
			un.paths[u] = a + "\x00" + un.paths[u]
		}
		a = un.alias[u]
	}
	f.stat["qualified references"]++
	return a + "." + name
}

// reach returns the units visible from a unit.
func (f *Factorer) reach(from int) []int {
	l := []int{from}
	for i := range f.units {
		if i != from && i != 0 {
			l = append(l, i)
		}
	}
	return l
}

type visible struct {
	name string
	v    Value
}

// visible lists constants that can be written in a scope, at most a few per unit.
func (f *Factorer) visible(sc *fscope, match func(Value) bool) []visible {
	var l []visible
	for s := sc; s != nil; s = s.parent {
		for _, c := range s.consts {
			if match(c.v) {
				l = append(l, visible{c.name, c.v})
			}
		}
	}
	for _, u := range f.reach(sc.unit) {
		if u != sc.unit && f.r.Intn(2) == 0 {
			continue
		}
		n := 0
		for _, c := range f.units[u].consts {
			if match(c.v) {
				nm := c.name
				if u != sc.unit {
					if n > 2 {
						break
					}
					nm = f.ref(c.name, u, sc.unit)
				}
				n++
				l = append(l, visible{nm, c.v})
			}
		}
	}
	return l
}

func sameVal(a, b Value) bool {
	if a.K != b.K || a.I != b.I || a.S != b.S || a.B != b.B || a.F != b.F || a.L != b.L || a.R != b.R || a.Sec != b.Sec || a.Ns != b.Ns || a.TN != b.TN || a.TU != b.TU || len(a.List) != len(b.List) {
		return false
	}
	for i := range a.List {
		if !sameVal(a.List[i], b.List[i]) {
			return false
		}
	}
	return true
}

// other returns a different value of the same kind.
func (f *Factorer) other(v Value) Value {
	switch v.K {
	case 'i':
		return vi(v.I/2 + 1 + int64(f.r.Intn(5)))
	case 'b':
		return vb(!v.B)
	case 's':
		return vs(pick(f.r, "Sync", "On Read", "Edge", "x"))
	case 'r':
		return vr(0, v.R/2+1)
	case 't':
		return vt(v.TN+1, v.TU)
	}
	return vi(int64(f.r.Intn(9)))
}

func (f *Factorer) decoy(u int, name string, v Value) {
	un := f.units[u]
	if un.names[name] {
		return
	}
	un.names[name] = true
	un.items = append(un.items, &Item{K: "const", Name: name, E: f.other(v).expr()})
	f.stat["decoy constants"]++
}

func leafKind(k string) bool {
	switch k {
	case "config", "mask", "static", "status", "irq", "param", "return", "blackbox":
		return true
	}
	return false
}

// dumpable constants can be at package, block and group level.
func dumpable(v Value) bool {
	switch v.K {
	case 'x':
		return false
	}
	return true
}

// newConst defines a constant visible from sc and returns the name to write.
func (f *Factorer) newConst(sc *fscope, v Value, d int) string {
	f.stat["constants"]++
	name := f.fresh(pick(f.r, "K", "C_", "k"))
	if f.pc(f.PLocal) || !dumpable(v) {
		// the closest scopes first
		for s := sc; s != nil; s = s.parent {
			switch {
			case s.kind == "":
				continue
			case leafKind(s.kind) || s.kind == "proc" || s.kind == "stream":
				f.stat["constants in bodies of leafs, procs and streams"]++
			default:
				if s.elem == nil || !f.outputConst(v) {
					continue
				}
				s.elem.Consts = append(s.elem.Consts, DConst{name, v})
			}
			e := f.lit(v, s, d-1)
			s.items = append(s.items, &Item{K: "const", Name: name, E: e})
			s.consts = append(s.consts, fconst{name, v})
			f.stat["body level constants"]++
			if f.pc(f.PDecoy) {
				f.decoy(sc.unit, name, v)
				f.stat["shadowed constants"]++
			}
			return name
		}
		if !dumpable(v) {
			return ""
		}
	}
	us := f.reach(sc.unit)
	u := us[f.r.Intn(len(us))]
	un := f.units[u]
	un.names[name] = true
	e := f.lit(v, &fscope{unit: u}, d-1)
	un.items = append(un.items, &Item{K: "const", Name: name, E: e})
	un.consts = append(un.consts, fconst{name, v})
	if f.pc(f.PDecoy) {
		k := f.r.Intn(len(f.units))
		if k != u {
			f.decoy(k, name, v)
		}
	}
	return f.ref(name, u, sc.unit)
}

// outputConst tells whether the constant value is printed identically however it is written.
func (f *Factorer) outputConst(v Value) bool {
	switch v.K {
	case 'i', 'b', 's':
		return true
	}
	return false
}

// lit writes value v in scope sc.
func (f *Factorer) lit(v Value, sc *fscope, d int) *Expr {
	if v.X != nil {
		return v.X.clone()
	}
	if d <= 0 {
		return v.expr()
	}
	if f.pc(f.PConst) {
		if l := f.visible(sc, func(x Value) bool { return sameVal(x, v) }); len(l) > 0 && f.r.Intn(3) > 0 {
			f.stat["constant references"]++
			return eID(l[f.r.Intn(len(l))].name)
		}
		if f.n < 4000 {
			if n := f.newConst(sc, v, d); n != "" {
				f.stat["constant references"]++
				return eID(n)
			}
		}
	}
	if !f.pc(f.PExpr) {
		return v.expr()
	}
	f.stat["expressions"]++
	switch v.K {
	case 'i':
		return f.intExpr(v.I, sc)
	case 'b':
		if v.B {
			return eCall("bool", f.intExpr(1+int64(f.r.Intn(9)), sc))
		}
		return eCall("bool", f.intExpr(0, sc))
	case 'r':
		return eBin(":", f.intExpr(v.L, sc), f.intExpr(v.R, sc))
	case 'L', 'l':
		e := eList()
		for _, x := range v.List {
			e.A = append(e.A, f.lit(x, sc, d-1))
		}
		return e
	}
	return v.expr()
}

func (f *Factorer) intExpr(v int64, sc *fscope) *Expr {
	g := &EGen{r: f.r, env: map[string]RV{}}
	for _, x := range f.visible(sc, func(x Value) bool { return x.K == 'i' && x.X == nil }) {
		g.env[x.name] = RV{K: 'i', I: big.NewInt(x.v.I)}
		g.ids = append(g.ids, x.name)
	}
	// relate the value to a visible constant
	if len(g.ids) > 0 && f.r.Intn(2) == 0 {
		id := g.ids[f.r.Intn(len(g.ids))]
		k := g.env[id].I.Int64()
		if k > -1<<40 && k < 1<<40 && v > -1<<40 && v < 1<<40 {
			f.stat["constant references"]++
			switch f.r.Intn(3) {
			case 0:
				return eBin("+", eID(id), g.intExprFor(v-k, 1))
			case 1:
				return eBin("-", eID(id), g.intExprFor(k-v, 1))
			default:
				return eBin("-", g.intExprFor(v+k, 1), eID(id))
			}
		}
	}
	return g.intExprFor(v, 2)
}

// visitVals calls fn for every value of e below its own name and count.
func visitVals(e *Elem, path string, own bool, fn func(path string, get func() Value, set func(Value))) {
	if !own && e.Count >= 0 {
		fn(path+"#", func() Value { return Value{K: 'i', I: e.Count, X: e.CountX} }, func(v Value) { e.CountX = v.X })
	}
	for i := range e.Props {
		fn(path+"."+e.Props[i].Name, func() Value { return e.Props[i].V }, func(v Value) { e.Props[i].V = v })
	}
	for i := range e.Consts {
		fn(path+"@"+e.Consts[i].Name, func() Value { return e.Consts[i].V }, func(v Value) { e.Consts[i].V = v })
	}
	for i, s := range e.Subs {
		visitVals(s, fmt.Sprintf("%s/%d", path, i), false, fn)
	}
}

func sameShape(a, b *Elem) bool {
	if a.Kind != b.Kind || a.Name != b.Name || (a.Count >= 0) != (b.Count >= 0) || len(a.Props) != len(b.Props) || len(a.Consts) != len(b.Consts) || len(a.Subs) != len(b.Subs) || docText(a.Doc) != docText(b.Doc) {
		return false
	}
	for i := range a.Props {
		if a.Props[i].Name != b.Props[i].Name {
			return false
		}
	}
	for i := range a.Consts {
		if a.Consts[i].Name != b.Consts[i].Name {
			return false
		}
	}
	for i := range a.Subs {
		if !sameShape(a.Subs[i], b.Subs[i]) {
			return false
		}
	}
	return true
}

// part returns the part of e described by the template, nil if it does not have one.
func (t *ftype) part(e *Elem) *Elem {
	if e.Kind != t.kind || len(e.Subs) < len(t.tmpl.Subs) || len(e.Consts) < len(t.tmpl.Consts) {
		return nil
	}
	p := &Elem{Kind: e.Kind, Count: -1}
	for _, q := range t.tmpl.Props {
		v, ok := e.prop(q.Name)
		if !ok {
			return nil
		}
		p.Props = append(p.Props, DProp{q.Name, v})
	}
	p.Consts = e.Consts[:len(t.tmpl.Consts)]
	p.Subs = e.Subs[:len(t.tmpl.Subs)]
	if !sameShape(p, t.tmpl) {
		return nil
	}
	return p
}

// match returns the argument values that make the type equal to a part of e.
func (t *ftype) match(e *Elem) map[string]Value {
	p := t.part(e)
	if p == nil {
		return nil
	}
	hole := map[string]string{}
	for _, h := range t.holes {
		hole[h.path] = h.param
	}
	have := map[string]Value{}
	visitVals(t.tmpl, "", true, func(path string, get func() Value, _ func(Value)) { have[path] = get() })
	args := map[string]Value{}
	ok := true
	visitVals(p, "", true, func(path string, get func() Value, _ func(Value)) {
		v := get()
		if h, is := hole[path]; is {
			args[h] = v
			return
		}
		if v.X != nil || !sameVal(v, have[path]) {
			ok = false
		}
	})
	if !ok {
		return nil
	}
	if t.unused != "" {
		args[t.unused] = vi(7)
	}
	return args
}

func (f *Factorer) accessible(t *ftype, sc *fscope) bool {
	if t.sc != nil {
		for s := sc; s != nil; s = s.parent {
			if s == t.sc {
				return true
			}
		}
		return false
	}
	return t.unit == sc.unit || t.unit != 0
}

// typed finds or creates a type for a part of e and fills the base, the arguments and the rest.
// Type names are resolved in sc, arguments in asc.
func (f *Factorer) typed(e *Elem, sc, asc *fscope, it *Item) (rest *Elem) {
	var t *ftype
	var args map[string]Value
	if f.pc(f.PReuse) {
		var cand []*ftype
		for _, x := range f.pool {
			if f.accessible(x, sc) && x.match(e) != nil {
				cand = append(cand, x)
			}
		}
		if len(cand) > 0 {
			t = cand[f.r.Intn(len(cand))]
			args = t.match(e)
			f.stat["types reused"]++
		}
	}
	if t == nil {
		if len(f.pool) >= f.MaxType {
			return nil
		}
		t = f.create(e, sc)
		args = t.match(e)
		if args == nil {
			panic("type does not match its own origin")
		}
		f.stat["types created"]++
	}
	if t.sc != nil {
		it.Base = t.name
	} else {
		it.Base = f.ref(t.name, t.unit, sc.unit)
	}
	// arguments
	kw := false
	var kws []Arg
	for _, p := range t.params {
		v := args[p]
		if d := t.dflt[p]; d != nil && v.X == nil && sameVal(*d, v) && f.r.Intn(10) < 6 {
			kw = true
			f.stat["default arguments"]++
			continue
		}
		if !kw && f.r.Intn(4) == 0 {
			kw = true
		}
		a := Arg{E: f.lit(v, asc, 2)}
		if kw {
			a.Name = p
			kws = append(kws, a)
			f.stat["keyword arguments"]++
		} else {
			it.Args = append(it.Args, a)
			f.stat["positional arguments"]++
		}
	}
	f.r.Shuffle(len(kws), func(a, b int) { kws[a], kws[b] = kws[b], kws[a] })
	it.Args = append(it.Args, kws...)
	it.HasArgs = len(it.Args) > 0
	rest = &Elem{Kind: e.Kind, Name: e.Name, Count: e.Count}
	for _, p := range e.Props {
		if _, ok := t.tmpl.prop(p.Name); !ok {
			rest.Props = append(rest.Props, p)
		}
	}
	rest.Consts = e.Consts[len(t.tmpl.Consts):]
	rest.Subs = e.Subs[len(t.tmpl.Subs):]
	return rest
}

func (f *Factorer) create(e *Elem, sc *fscope) *ftype {
	r := f.r
	t := &ftype{name: f.fresh(pick(r, "T", "Ty_", "t")), kind: e.Kind, dflt: map[string]*Value{}}
	// place of the definition
	var parent *fscope
	us := f.reach(sc.unit)
	t.unit = us[r.Intn(len(us))]
	if f.pc(f.PLocal) {
		var l []*fscope
		for s := sc; s != nil; s = s.parent {
			if s.kind != "" {
				l = append(l, s)
			}
		}
		if len(l) > 0 {
			parent = l[r.Intn(len(l))]
			t.sc, t.unit = parent, sc.unit
			f.stat["body level types"]++
		}
	}
	m := &Elem{Kind: e.Kind, Count: -1}
	for _, p := range e.Props {
		if r.Intn(10) < 7 {
			m.Props = append(m.Props, p)
		}
	}
	if len(e.Subs) > 0 {
		n := len(e.Subs)
		if r.Intn(3) == 0 {
			n = r.Intn(n + 1)
		}
		// A group may not be empty, a type without parameters is instantiated on its own.
		if e.Kind == "group" && n == 0 {
			n = 1
		}
		for _, s := range e.Subs[:n] {
			m.Subs = append(m.Subs, s.clone())
		}
	}
	if len(e.Consts) > 0 {
		m.Consts = append(m.Consts, e.Consts[:r.Intn(len(e.Consts)+1)]...)
	}
	var req, opt []string
	visitVals(m, "", true, func(path string, get func() Value, set func(Value)) {
		v := get()
		if v.X == nil && !f.pc(f.PParam) {
			return
		}
		p := f.fresh(pick(r, "p", "w_", "arg"))
		t.holes = append(t.holes, fhole{path, p})
		if v.X == nil && r.Intn(5) < 2 {
			d := v
			if r.Intn(3) == 0 && d.K == 'i' && d.I > 2 && !strings.Contains(path, "value") {
				// a default that the first user overrides
				d = vi(d.I - 1)
			}
			t.dflt[p] = &d
			opt = append(opt, p)
		} else {
			req = append(req, p)
		}
		if f.pc(f.PDecoy) {
			f.decoy(t.unit, p, v)
			f.stat["shadowed parameters"]++
		}
		v.X = eID(p)
		set(v)
	})
	if len(req) == 0 && !selfContained(m) {
		// A type without required parameters is also checked on its own.
		p := f.fresh("unused")
		if len(opt) > 0 {
			p = opt[0]
			opt = opt[1:]
			delete(t.dflt, p)
		} else {
			t.unused = p
		}
		req = append(req, p)
	}
	r.Shuffle(len(req), func(a, b int) { req[a], req[b] = req[b], req[a] })
	r.Shuffle(len(opt), func(a, b int) { opt[a], opt[b] = opt[b], opt[a] })
	t.params = append(req, opt...)
	t.tmpl = m
	it := &Item{K: "type", Name: t.name}
	dsc := &fscope{unit: t.unit, parent: parent}
	for _, p := range t.params {
		q := Param{Name: p}
		if d := t.dflt[p]; d != nil {
			q.Def = f.lit(*d, dsc, 1)
		}
		it.Params = append(it.Params, q)
	}
	// the body is written inside the scope of the type
	ts := &fscope{unit: t.unit, parent: parent, kind: e.Kind}
	f.depth++
	rest := m
	if f.depth < f.Chain && f.pc(f.PType*6/10) && len(m.Props)+len(m.Subs) > 0 && (m.Kind != "static" || hasProp(m, "init-value")) {
		if x := f.typed(m, dsc, ts, it); x != nil {
			rest = x
			f.stat["type chains"]++
		}
	}
	if it.Base == "" {
		it.Base = e.Kind
	}
	it.Body = f.body(rest, ts)
	f.depth--
	if parent != nil {
		parent.items = append(parent.items, it)
	} else {
		un := f.units[t.unit]
		un.names[t.name] = true
		un.items = append(un.items, it)
		if f.pc(f.PDecoy / 2) {
			k := r.Intn(len(f.units))
			if k != t.unit && !f.units[k].names[t.name] {
				f.units[k].names[t.name] = true
				f.units[k].items = append(f.units[k].items, &Item{K: "type", Name: t.name, Base: "config", Body: []*Item{{K: "prop", Name: "width", E: eInt(3)}}})
				f.stat["decoy types"]++
			}
		}
	}
	f.pool = append(f.pool, t)
	return t
}

func hasProp(e *Elem, n string) bool { _, ok := e.prop(n); return ok }

// body writes the body of e into scope sc and returns all its items.
func (f *Factorer) body(e *Elem, sc *fscope) []*Item {
	var l []*Item
	nc := len(e.Consts) // constants added during the walk are already in the scope items
	consts := append([]DConst(nil), e.Consts[:nc]...)
	for _, p := range e.Props {
		l = append(l, &Item{K: "prop", Name: p.Name, E: f.lit(p.V, sc, 2)})
	}
	for _, c := range consts {
		l = append(l, &Item{K: "const", Name: c.Name, E: c.V.expr()})
	}
	for _, s := range e.Subs {
		l = append(l, f.inst(s, sc))
	}
	// Definitions may stand anywhere in the body.
	for _, it := range sc.items {
		k := f.r.Intn(len(l) + 1)
		if f.r.Intn(2) == 0 {
			k = 0
		}
		l = append(l[:k:k], append([]*Item{it}, l[k:]...)...)
	}
	sc.items = nil
	return l
}

func (f *Factorer) inst(e *Elem, sc *fscope) *Item {
	it := &Item{K: "inst", Name: e.Name, Doc: e.Doc}
	if e.Count >= 0 {
		it.Arr = f.lit(Value{K: 'i', I: e.Count, X: e.CountX}, sc, 2)
	}
	// A template element has no identity of its own.
	is := &fscope{unit: sc.unit, parent: sc, kind: e.Kind}
	if !f.inTemplate(sc) {
		is.elem = e
	}
	rest := e
	f.depth++
	if f.depth < f.Chain+3 && f.pc(f.PType) && len(e.Props)+len(e.Subs) > 0 {
		if x := f.typed(e, sc, sc, it); x != nil {
			rest = x
		}
	}
	f.depth--
	if it.Base == "" {
		it.Base = e.Kind
	}
	// rest.Consts aliases the constants present before the walk
	n := len(rest.Consts)
	rest2 := *rest
	rest2.Consts = rest.Consts[:n:n]
	it.Body = f.body(&rest2, is)
	return it
}

func (f *Factorer) inTemplate(sc *fscope) bool {
	for s := sc; s != nil; s = s.parent {
		if s.kind != "" && s.elem == nil && s.kind != "file" {
			return true
		}
	}
	return false
}

// factor returns the project equivalent to d; d gets the constants that become part of the output.
func (f *Factorer) factor(d *Elem, st func() *Style) Files {
	root := &fscope{unit: 0}
	m := f.inst(d, root)
	f.units[0].items = append(f.units[0].items, m)
	files := Files{}
	for ui, u := range f.units {
		items := u.items
		f.r.Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })
		parts := [][]*Item{items}
		if ui > 0 {
			n := 1 + f.r.Intn(3)
			parts = make([][]*Item, n)
			for _, it := range items {
				k := f.r.Intn(n)
				parts[k] = append(parts[k], it)
			}
		}
		for k, p := range parts {
			var imp []*Item
			var us []int
			for x := range u.alias {
				us = append(us, x)
			}
			sort.Ints(us)
			for _, x := range us {
				it := &Item{K: "import", Path: u.paths[x]}
				if a, b, ok := strings.Cut(it.Path, "\x00"); ok {
					it.Name, it.Path = a, b
				}
				imp = append(imp, it)
			}
			t := printItems(append(imp, p...), st())
			if ui == 0 {
				files["bus.fbd"] = t
			} else {
				files[fmt.Sprintf("%s/%s%d.fbd", u.dir, pick(f.r, "f", "a", "Z"), k)] = t
			}
		}
	}
	return files
}
