package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"
)

func init() {
	register("C08", checkC08)
	register("C10", checkC10)
	register("C23", checkC23)
}

// ---------------------------------------------------------------------------
// Comparison of the printed model with the declared design, layout excluded.
// ---------------------------------------------------------------------------

type fid struct {
	bw    int64
	errs  []string // all differences
	verrs []string // value differences only
	rerrs []string // range and width differences only
	n     map[string]int64
}

func (f *fid) err(path, format string, a ...any) {
	f.errs = append(f.errs, path+": "+fmt.Sprintf(format, a...))
}

func (f *fid) verr(path, format string, a ...any) {
	s := path + ": " + fmt.Sprintf(format, a...)
	f.errs = append(f.errs, s)
	f.verrs = append(f.verrs, s)
}

func (f *fid) rerr(path, format string, a ...any) {
	s := path + ": " + fmt.Sprintf(format, a...)
	f.errs = append(f.errs, s)
	f.rerrs = append(f.rerrs, s)
}

// literal value of a bit string property compared with the output.
func (f *fid) value(path, name string, e *Elem, got string, width int64) {
	v, ok := e.prop(name)
	f.n["values compared"]++
	if !ok {
		if got != "" {
			f.verr(path, "%s was not given, output has %s", name, got)
		}
		return
	}
	switch v.K {
	case 'x':
		want := v.S
		// the format letter is reported in lower case, the digits are kept
		want = strings.ToLower(want[:1]) + want[1:]
		if got != want {
			f.verr(path, "%s given as %s, output has %s", name, v.S, got)
		}
	case 'i':
		b, err := bitStrValue(got)
		if err != nil {
			f.verr(path, "%s given as %d, output has %q", name, v.I, got)
			return
		}
		if w := bitStrWidth(got); w != width {
			f.verr(path, "%s given as %d, output %s is %d bits wide instead of %d", name, v.I, got, w, width)
			return
		}
		want := big.NewInt(v.I)
		if v.I < 0 {
			want.Add(want, new(big.Int).Lsh(big.NewInt(1), uint(width)))
		}
		if b.Cmp(want) != 0 {
			f.verr(path, "%s given as %d, output has %s instead of value %s", name, v.I, got, want)
		}
	}
}

func bitStrWidth(s string) int64 {
	if len(s) < 3 {
		return -1
	}
	n := int64(len(s) - 3)
	switch s[0] {
	case 'o':
		n *= 3
	case 'x':
		n *= 4
	}
	return n
}

func (f *fid) fn(path string, e *Elem, j JFunc) {
	if j.Name != e.Name {
		f.err(path, "name is %q, declared %q", j.Name, e.Name)
	}
	if j.IsArray != (e.Count >= 0) || j.Count != e.count() {
		f.err(path, "array %v count %d, declared count %d", j.IsArray, j.Count, e.Count)
	}
	if want := docText(e.Doc); j.Doc != want {
		f.err(path, "documentation is %q, declared %q", j.Doc, want)
	}
}

func docText(l []string) string {
	var r []string
	for _, x := range l {
		r = append(r, strings.TrimPrefix(x, " "))
	}
	return strings.Join(r, "\n")
}

func (f *fid) width(path string, e *Elem, j *JElem) {
	f.n["widths compared"]++
	if w := e.width(f.bw); j.Width != w {
		f.rerr(path, "width is %d, declared %d", j.Width, w)
	}
}

func (f *fid) rng(path string, e *Elem, j *JElem) {
	got := decodeRange(j.Range)
	v, ok := e.prop("range")
	var want []JRange
	list := false
	if ok {
		f.n["ranges compared"]++
		switch v.K {
		case 'i':
			want = []JRange{{0, v.I}}
		case 'r':
			want = []JRange{{v.L, v.R}}
		case 'L':
			list = true
			for _, x := range v.List {
				want = append(want, JRange{x.L, x.R})
			}
		}
	}
	if !reflect.DeepEqual(got, want) {
		f.rerr(path, "range is %s, declared %v", j.Range, want)
		return
	}
	if ok && list != strings.HasPrefix(strings.TrimSpace(string(j.Range)), "[") {
		f.rerr(path, "range form differs: %s", j.Range)
	}
}

func propBool(e *Elem, n string, d bool) bool {
	if v, ok := e.prop(n); ok {
		return v.B
	}
	return d
}

func propStr(e *Elem, n string, d string) string {
	if v, ok := e.prop(n); ok {
		return v.S
	}
	return d
}

func propInt(e *Elem, n string, d int64) int64 {
	if v, ok := e.prop(n); ok {
		return v.I
	}
	return d
}

func (f *fid) leaf(path string, e *Elem, j *JElem) {
	f.n["functionalities compared"]++
	f.fn(path, e, j.JFunc)
	w := e.width(f.bw)
	switch e.Kind {
	case "config", "mask", "status":
		if j.Atomic != propBool(e, "atomic", true) {
			f.err(path, "atomic is %v", j.Atomic)
		}
	}
	switch e.Kind {
	case "config", "mask", "static", "status", "param", "return":
		f.width(path, e, j)
	}
	switch e.Kind {
	case "config", "mask", "static":
		f.value(path, "init-value", e, j.InitValue, w)
		f.value(path, "reset-value", e, j.ResetValue, w)
		f.value(path, "read-value", e, j.ReadValue, w)
	case "status":
		f.value(path, "read-value", e, j.ReadValue, w)
	case "irq":
		if j.AddEnable != propBool(e, "add-enable", false) {
			f.err(path, "add-enable is %v", j.AddEnable)
		}
		if x := propStr(e, "clear", "Explicit"); j.Clear != x {
			f.err(path, "clear is %q, want %q", j.Clear, x)
		}
		if x := propStr(e, "in-trigger", "Level"); j.InTrigger != x {
			f.err(path, "in-trigger is %q, want %q", j.InTrigger, x)
		}
		if x := propStr(e, "out-trigger", "Level"); j.OutTrigger != x {
			f.err(path, "out-trigger is %q, want %q", j.OutTrigger, x)
		}
		f.value(path, "enable-init-value", e, j.EnableInitValue, 1)
		f.value(path, "enable-reset-value", e, j.EnableResetValue, 1)
	case "blackbox":
		if x := propInt(e, "size", 0); j.Size != x {
			f.err(path, "size is %d, declared %d", j.Size, x)
		}
	}
	if e.Kind == "config" || e.Kind == "param" {
		f.rng(path, e, j)
	}
}

func (f *fid) delay(path string, e *Elem, d *JTime) {
	v, ok := e.prop("delay")
	switch {
	case !ok && d != nil:
		f.err(path, "delay %+v was not declared", *d)
	case ok && d == nil:
		f.err(path, "delay is missing")
	case ok && (d.S != v.Sec || d.Ns != v.Ns):
		f.err(path, "delay is %d s %d ns, declared %d %s", d.S, d.Ns, v.TN, v.TU)
	}
}

func (f *fid) leafList(path, kind string, e *Elem, l []*JElem) {
	var want []*Elem
	for _, s := range e.Subs {
		if s.Kind == kind {
			want = append(want, s)
		}
	}
	if len(l) != len(want) {
		f.err(path, "%d elements of kind %s, declared %d", len(l), kind, len(want))
		return
	}
	for i := range want {
		if l[i] == nil {
			f.err(path, "null element of kind %s", kind)
			return
		}
		if l[i].Name != want[i].Name {
			f.err(path, "element %d of kind %s is %q, declared %q", i, kind, l[i].Name, want[i].Name)
			return
		}
		f.leaf(path+"."+want[i].Name, want[i], l[i])
	}
}

func (f *fid) consts(path string, e *Elem, jc *JConsts) {
	names := jc.names()
	want := map[string]Value{}
	for _, c := range e.Consts {
		want[c.Name] = c.V
	}
	if len(names) != len(want) {
		f.err(path, "constants %v, declared %d", names, len(want))
		return
	}
	for n, v := range want {
		got, k := jc.lookup(n)
		if k != 1 {
			f.err(path, "constant %s is in %d containers", n, k)
			continue
		}
		if !sameRV(got, v.rv()) {
			f.err(path, "constant %s is %s, declared %s", n, rvString(got), rvString(v.rv()))
		}
		f.n["constants compared"]++
	}
}

// rv converts a design value to a reference value.
func (v Value) rv() RV {
	switch v.K {
	case 'i':
		return rvInt(v.I)
	case 'b':
		return RV{K: 'b', B: v.B}
	case 's':
		return RV{K: 's', S: v.S}
	case 'f':
		return RV{K: 'f', F: v.F}
	case 'l':
		r := RV{K: 'l'}
		for _, x := range v.List {
			r.List = append(r.List, x.rv())
		}
		return r
	}
	return failRV
}

func (f *fid) proc(path string, e *Elem, p *JProc) {
	f.n["functionalities compared"]++
	f.fn(path, e, p.JFunc)
	f.delay(path, e, p.Delay)
	f.leafList(path, "param", e, p.Params)
	f.leafList(path, "return", e, p.Returns)
}

func (f *fid) group(path string, e *Elem, g *JGroup) {
	f.n["functionalities compared"]++
	f.fn(path, e, g.JFunc)
	if g.Virtual != propBool(e, "virtual", false) {
		f.err(path, "virtual is %v", g.Virtual)
	}
	f.consts(path, e, &g.Consts)
	f.leafList(path, "config", e, g.Configs)
	f.leafList(path, "irq", e, g.Irqs)
	f.leafList(path, "mask", e, g.Masks)
	f.leafList(path, "param", e, g.Params)
	f.leafList(path, "return", e, g.Returns)
	f.leafList(path, "static", e, g.Statics)
	f.leafList(path, "status", e, g.Statuses)
}

func (f *fid) block(path string, e *Elem, b *JBlock, main, ts bool) {
	f.n["functionalities compared"]++
	f.fn(path, e, b.JFunc)
	if b.Align != propInt(e, "align", 0) {
		f.err(path, "align is %d", b.Align)
	}
	if b.Masters != propInt(e, "masters", 1) {
		f.err(path, "masters is %d", b.Masters)
	}
	if b.Reset != propStr(e, "reset", "") {
		f.err(path, "reset is %q", b.Reset)
	}
	if main && b.Width != f.bw {
		f.rerr(path, "bus width is %d, declared %d", b.Width, f.bw)
	}
	f.consts(path, e, &b.Consts)
	statics := b.Statics
	if main {
		n := 1
		if ts {
			n = 2
		}
		if len(statics) < n {
			f.err(path, "ID or TIMESTAMP is missing")
		} else {
			gen := statics[len(statics)-n:]
			statics = statics[:len(statics)-n]
			if gen[0].Name != "ID" || n == 2 && gen[1].Name != "TIMESTAMP" {
				f.err(path, "ID or TIMESTAMP is missing")
			}
			for _, s := range gen {
				if s.IsArray || s.Count != 1 {
					f.err(path, "%s is an array", s.Name)
				}
			}
		}
	}
	f.leafList(path, "blackbox", e, b.Blackboxes)
	f.leafList(path, "config", e, b.Configs)
	f.leafList(path, "irq", e, b.Irqs)
	f.leafList(path, "mask", e, b.Masks)
	f.leafList(path, "static", e, statics)
	f.leafList(path, "status", e, b.Statuses)

	byKind := map[string][]*Elem{}
	for _, s := range e.Subs {
		byKind[s.Kind] = append(byKind[s.Kind], s)
	}
	procs := func(kind string, l []*JProc) {
		w := byKind[kind]
		if len(l) != len(w) {
			f.err(path, "%d elements of kind %s, declared %d", len(l), kind, len(w))
			return
		}
		for i := range w {
			f.proc(path+"."+w[i].Name, w[i], l[i])
		}
	}
	procs("proc", b.Procs)
	procs("stream", b.Streams)
	if w := byKind["group"]; len(w) != len(b.Groups) {
		f.err(path, "%d groups, declared %d", len(b.Groups), len(w))
	} else {
		for i := range w {
			f.group(path+"."+w[i].Name, w[i], b.Groups[i])
		}
	}
	w := byKind["block"]
	if len(w) != len(b.Subblocks) {
		f.err(path, "%d subblocks, declared %d", len(b.Subblocks), len(w))
		return
	}
	for _, s := range w {
		var m []*JBlock
		for _, x := range b.Subblocks {
			if x.Name == s.Name {
				m = append(m, x)
			}
		}
		if len(m) != 1 {
			f.err(path, "subblock %s appears %d times", s.Name, len(m))
			continue
		}
		f.block(path+"."+s.Name, s, m[0], false, false)
	}
}

func fidelity(d *Elem, j *JBlock, ts bool) *fid {
	f := &fid{bw: d.busWidth(), n: map[string]int64{}}
	f.block("main", d, j, true, ts)
	return f
}

// ---------------------------------------------------------------------------

// fullOpt enables every part of the language.
func fullOpt(i int) GenOpt {
	o := defOpt()
	o.Values, o.Consts, o.Docs = true, true, true
	o.Kinds = map[string]int{"config": 18, "mask": 8, "static": 12, "status": 20, "irq": 12, "proc": 10, "stream": 7, "group": 10, "blackbox": 4}
	switch i % 4 {
	case 1:
		o.MaxElems, o.MaxDepth, o.BlockBias = 5, 3, 35
		o.Aligns = 2
	case 2:
		o.MaxElems, o.MaxDepth = 16, 1
	case 3:
		o.Aligns = 1
	}
	return o
}

var docPool = []string{" Main bus.", " two  spaces", "", "no space", "  indented", " # nested", " ünïcode ° ", " trailing ", " a; b = c", " \"quoted\""}

func withDoc(g func(n int) int, d *Elem) {
	for n := g(4); n > 0; n-- {
		d.Doc = append(d.Doc, docPool[g(len(docPool))])
	}
}

// withDocs documents some of the functionalities of a design.
func withDocs(r *rand.Rand, d *Elem) {
	p := pick(r, 1, 2, 5)
	d.walk(func(e, _ *Elem, depth int) {
		if depth == 0 || r.Intn(p) == 0 {
			withDoc(r.Intn, e)
		}
	})
}

func checkC10(c *Check) {
	c.rule = "random valid designs of every kind (groups, blackboxes, constants, documentation, all properties) compiled by the real command; the printed model is compared field by field with the declared design; " +
		"non-trivial: at least 3 functionalities, distinct by source text"
	c.assume = []string{"the Width field of subblocks and the layout of group members are not part of the property"}
	n := c.n(18000, 120000)
	c.parallel(n, func(w *Worker, i int) {
		r := newRand(c.seed, "C10", i)
		d := genDesign(r, fullOpt(i))
		if i%3 == 0 {
			withDocs(r, d)
		}
		t := d.flat()
		if i%2 == 1 {
			t = printItems([]*Item{d.item()}, wild(r))
		}
		f := Files{"bus.fbd": t}
		var args []string
		if i%7 == 0 {
			args = append(args, "-add-timestamp")
		}
		res := w.compile(f, args...)
		c.eval(1)
		j := c.mustCompile(i, res, f, "fidelity")
		if j == nil {
			return
		}
		fd := fidelity(d, j, len(args) > 0)
		if len(fd.errs) > 0 {
			c.violation(i, strings.Join(firstN(fd.errs, 6), "\n"), f, t+"\n"+string(res.Stdout))
			return
		}
		for k, v := range fd.n {
			c.count(k, v)
		}
		if d.size() > 3 {
			c.nontrivial(t)
		}
		if i < 2 {
			c.sample(t)
		}
	})
	arrayTypes(c)
}

// ---------------------------------------------------------------------------

type valSite struct{ kind, prop string }

var valSites = []valSite{
	{"config", "init-value"}, {"config", "reset-value"}, {"config", "read-value"},
	{"mask", "init-value"}, {"mask", "reset-value"}, {"mask", "read-value"},
	{"static", "init-value"}, {"static", "reset-value"}, {"static", "read-value"},
	{"status", "read-value"}, {"irq", "enable-init-value"}, {"irq", "enable-reset-value"},
}

func checkC08(c *Check) {
	c.rule = "values of every value property of every kind (boundary integers of both signs, bit strings of all formats with and without metavalues, not given) given directly, through constants and through type arguments, compared with the printed bit strings; " +
		"values that do not fit, one per run, must be rejected; non-trivial: at least one value given, distinct by source text"
	c.assume = []string{"bit strings narrower than the width are printed with the given digits (the API extends them)", "h and l digits are not accepted by the tokenizer and are not generated"}
	n := c.n(16000, 100000)
	ne := c.n(6000, 40000)
	c.parallel(n+ne, func(w *Worker, i int) {
		r := newRand(c.seed, "C08", i)
		if i < n {
			o := defOpt()
			o.Values = true
			o.MaxDepth = 1
			o.MaxElems = 12
			o.Kinds = map[string]int{"config": 30, "mask": 15, "static": 30, "status": 10, "irq": 15, "group": 10}
			d := genDesign(r, o)
			t := d.flat()
			items := []*Item{d.item()}
			if i%2 == 1 {
				items = abstractValues(newRand(c.seed, "C08a", i).Intn, items)
				t = printItems(items, canonical())
			}
			f := Files{"bus.fbd": t}
			res := w.compile(f)
			c.eval(1)
			j := c.mustCompile(i, res, f, "values")
			if j == nil {
				return
			}
			fd := fidelity(d, j, false)
			if len(fd.verrs) > 0 {
				c.violation(i, strings.Join(firstN(fd.verrs, 6), "\n"), f, t+"\n"+string(res.Stdout))
				return
			}
			c.count("values compared", fd.n["values compared"])
			if strings.Contains(t, "-value") {
				c.nontrivial(t)
			}
			if i < 2 {
				c.sample(t)
			}
			return
		}
		// one value that does not fit
		g := &Gen{r: r, o: defOpt()}
		g.bw = pick(r, 8, 16, 32, int64(64), 5)
		s := pick(r, valSites...)
		wd := int64(1)
		if s.kind != "irq" {
			wd = pick(r, 1, 2, 3, 4, 5, 7, 8, 9, 12, 31, 32, 33, 61, 62, 63, 64, 65, int64(1+r.Intn(100)))
		}
		var v Value
		kind := ""
		switch k := r.Intn(4); {
		case k == 0 && wd <= 62:
			v, kind = vi(int64(1)<<uint(wd)+r.Int63n(pick(r, 1, 2, int64(1000)))), "integer above maximum"
		case k == 1 && wd <= 63:
			v, kind = vi(-(int64(1)<<uint(wd-1))-1-r.Int63n(pick(r, 1, 2, int64(1000)))), "integer below minimum"
			if wd == 63 {
				v = vi(-(int64(1) << 62) - 1 - r.Int63n(1000))
			}
		case k == 2:
			n := wd/4 + 1 + int64(r.Intn(3))
			v, kind = vx("x\""+strings.Repeat(pick(r, "0", "f", "-", "U"), int(n))+"\""), "hexadecimal string too wide"
			if r.Intn(2) == 0 {
				n := wd/3 + 1 + int64(r.Intn(3))
				v, kind = vx("o\""+strings.Repeat(pick(r, "0", "7", "X"), int(n))+"\""), "octal string too wide"
			}
		default:
			v, kind = vx("b\""+strings.Repeat(pick(r, "0", "1", "Z"), int(wd+1)+r.Intn(3))+"\""), "binary string too wide"
		}
		e := &Elem{Kind: s.kind, Name: "elem", Count: -1}
		switch s.kind {
		case "irq":
			e.set("add-enable", vb(true))
		default:
			if wd != g.bw {
				e.set("width", vi(wd))
			}
		}
		if s.kind == "static" && s.prop != "init-value" {
			e.set("init-value", vi(0))
		}
		e.set(s.prop, v)
		// shuffle properties
		r.Shuffle(len(e.Props), func(a, b int) { e.Props[a], e.Props[b] = e.Props[b], e.Props[a] })
		d := &Elem{Kind: "bus", Name: "main", Count: -1}
		if g.bw != 32 {
			d.set("width", vi(g.bw))
		}
		d.Subs = append(d.Subs, e)
		if r.Intn(3) == 0 {
			d.Subs = append(d.Subs, g.leaf("status", map[string]bool{"elem": true}, false))
		}
		if r.Intn(4) == 0 {
			b := &Elem{Kind: "block", Name: "blk", Count: -1, Subs: d.Subs}
			d.Subs = []*Elem{b}
		}
		items := []*Item{d.item()}
		if r.Intn(2) == 0 {
			items = abstractValues(r.Intn, items)
		}
		t := printItems(items, canonical())
		f := Files{"bus.fbd": t}
		res := w.compile(f)
		c.eval(1)
		if c.unusable(i, res, f, "value that does not fit") {
			return
		}
		if res.Exit == 0 {
			c.violation(i, fmt.Sprintf("%s of %s of width %d accepts %s (%s)", s.prop, s.kind, wd, exprString(v.expr()), kind), f, string(res.Stdout))
			return
		}
		c.count("rejected: "+kind, 1)
		c.seen("rejecting sites", s.kind+" "+s.prop+" "+kind)
		c.nontrivial(t)
	})
}

// abstractValues moves some literal property values to constants and type parameters.
func abstractValues(rn func(int) int, items []*Item) []*Item {
	var top []*Item
	n := 0
	var visit func(it *Item)
	visit = func(it *Item) {
		for _, b := range it.Body {
			if b.K == "inst" {
				visit(b)
			}
		}
		if len(it.Body) == 0 || it.Base == "bus" {
			return
		}
		leafOnly := true
		for _, b := range it.Body {
			if b.K != "prop" {
				leafOnly = false
			}
		}
		if !leafOnly {
			return
		}
		switch rn(3) {
		case 0: // constants
			for _, b := range it.Body {
				if rn(2) == 0 && b.E.K == "int" {
					n++
					nm := fmt.Sprintf("KV%d", n)
					top = append(top, &Item{K: "const", Name: nm, E: b.E})
					b.E = eID(nm)
				}
			}
		case 1: // a type with parameters
			n++
			ty := &Item{K: "type", Name: fmt.Sprintf("TV%d", n), Base: it.Base}
			for k, b := range it.Body {
				p := fmt.Sprintf("p%d", k)
				ty.Params = append(ty.Params, Param{Name: p})
				ty.Body = append(ty.Body, &Item{K: "prop", Name: b.Name, E: eID(p)})
				it.Args = append(it.Args, Arg{"", b.E})
			}
			it.HasArgs = true
			it.Base = ty.Name
			it.Body = nil
			top = append(top, ty)
		}
	}
	for _, it := range items {
		visit(it)
	}
	sort.SliceStable(top, func(a, b int) bool { return top[a].K < top[b].K })
	return append(top, items...)
}

// ---------------------------------------------------------------------------

func checkC23(c *Check) {
	c.rule = "configs and params with ranges of all forms (natural bound, range, list of ranges; boundary bounds), widths, or neither, in buses of many widths, printed width and range compared with the declaration; " +
		"conflicting, disordered, negative and ill-typed ranges and widths, one per run and at every position of a type chain, must be rejected; non-trivial: distinct by source text"
	n := c.n(14000, 80000)
	ne := c.n(6000, 40000)
	c.parallel(n+ne, func(w *Worker, i int) {
		r := newRand(c.seed, "C23", i)
		g := &Gen{r: r, o: defOpt()}
		if i < n {
			g.bw = g.pickBusWidth()
			d := &Elem{Kind: "bus", Name: "main", Count: -1}
			if g.bw != 32 || r.Intn(3) == 0 {
				d.set("width", vi(g.bw))
			}
			used := map[string]bool{}
			mk := func(kind string) *Elem {
				e := &Elem{Kind: kind, Name: g.name(used), Count: -1}
				lim := int64(62)
				if r.Intn(4) == 0 && (kind == "config" || kind == "param" || kind == "return" || kind == "status") {
					e.Count = 1 + int64(r.Intn(5))
					if lim > g.bw {
						lim = g.bw
					}
				}
				switch k := r.Intn(5); {
				case k == 0:
				case k == 1 || kind != "config" && kind != "param":
					e.set("width", vi(1+r.Int63n(3*g.bw)))
					if e.Count >= 0 {
						e.set("width", vi(1+r.Int63n(g.bw)))
					}
				default:
					e.set("range", g.rangeVal(lim))
					if r.Intn(20) == 0 {
						e.set("range", pick(r, vi(0), vr(0, 0), vL(vr(0, 0)), vL(vr(0, 0), vr(0, 0))))
					}
				}
				if kind == "static" {
					e.set("init-value", vi(0))
				}
				return e
			}
			for k := 1 + r.Intn(8); k > 0; k-- {
				switch r.Intn(8) {
				case 0:
					p := &Elem{Kind: pick(r, "proc", "stream"), Name: g.name(used), Count: -1}
					for m := 1 + r.Intn(3); m > 0; m-- {
						p.Subs = append(p.Subs, mk("param"))
					}
					d.Subs = append(d.Subs, p)
				case 1:
					p := &Elem{Kind: "proc", Name: g.name(used), Count: -1}
					p.Subs = append(p.Subs, mk("return"))
					d.Subs = append(d.Subs, p)
				case 2:
					d.Subs = append(d.Subs, mk(pick(r, "mask", "status", "static")))
				case 3:
					d.Subs = append(d.Subs, &Elem{Kind: "group", Name: g.name(used), Count: -1, Subs: []*Elem{mk(pick(r, "config", "status"))}})
				case 4:
					d.Subs = append(d.Subs, &Elem{Kind: "block", Name: g.name(used), Count: -1, Subs: []*Elem{mk("config"), mk("status"), mk("mask")}})
				default:
					d.Subs = append(d.Subs, mk("config"))
				}
			}
			items := []*Item{d.item()}
			if i%2 == 1 {
				items = abstractValues(r.Intn, items)
			}
			t := printItems(items, canonical())
			f := Files{"bus.fbd": t}
			res := w.compile(f)
			c.eval(1)
			j := c.mustCompile(i, res, f, "ranges and widths")
			if j == nil {
				return
			}
			fd := fidelity(d, j, false)
			if len(fd.rerrs) > 0 {
				c.violation(i, strings.Join(firstN(fd.rerrs, 6), "\n"), f, t+"\n"+string(res.Stdout))
				return
			}
			c.count("ranges compared", fd.n["ranges compared"])
			c.count("widths compared", fd.n["widths compared"])
			c.nontrivial(t)
			if i < 2 {
				c.sample(t)
			}
			return
		}
		// ill formed
		kind := pick(r, "config", "param")
		type pv struct {
			n string
			e *Expr
		}
		good := func() *Expr { return g.rangeVal(20).expr() }
		a, b := r.Int63n(1000), r.Int63n(1000)
		if a > b {
			a, b = b, a
		}
		var ps []pv
		what := ""
		switch r.Intn(10) {
		case 0:
			ps, what = []pv{{"range", good()}, {"width", eInt(1 + r.Int63n(40))}}, "range and width"
		case 1:
			ps, what = []pv{{"width", eInt(1 + r.Int63n(40))}, {"range", good()}}, "width and range"
		case 2:
			ps, what = []pv{{"range", eBin(":", eInt(b+1), eInt(a))}}, "bounds out of order"
		case 3:
			ps, what = []pv{{"range", eInt(-1 - r.Int63n(100))}}, "negative bound"
		case 4:
			ps, what = []pv{{"range", eBin(":", eUn("-", eInt(1+a)), eInt(b))}}, "negative left bound"
			ps[0].e = eBin(":", eInt(-1-a), eInt(b))
		case 5:
			l := eList(eBin(":", eInt(a), eInt(b)), eBin(":", eInt(b+1), eInt(a)))
			if r.Intn(2) == 0 {
				l.A[0], l.A[1] = l.A[1], l.A[0]
			}
			ps, what = []pv{{"range", l}}, "list with bounds out of order"
		case 6:
			l := eList(eBin(":", eInt(a), eInt(b)), pick(r, eInt(b), eText("true"), eText("\"a\"")))
			ps, what = []pv{{"range", l}}, "list with a non-range"
		case 7:
			l := eList(eBin(":", eInt(-1-a), eInt(b)), eBin(":", eInt(a), eInt(b)))
			if r.Intn(2) == 0 {
				l.A[0], l.A[1] = l.A[1], l.A[0]
			}
			ps, what = []pv{{"range", l}}, "list with a negative bound"
		case 8:
			ps, what = []pv{{"range", pick(r, eText("true"), eText("\"0:3\""), eText("1.5"), eText("3 us"), eText("b\"101\""), eList())}}, "ill typed range"
		case 9:
			ps, what = []pv{{"width", pick(r, eText("true"), eText("\"8\""), eText("1.5"), eText("3 us"), eText("b\"101\""), eInt(-1-r.Int63n(9)), eBin(":", eInt(0), eInt(3)))}}, "ill typed or negative width"
		}
		// distribute over a type chain
		depth := r.Intn(3)
		pos := make([]int, len(ps))
		for k := range pos {
			pos[k] = r.Intn(depth + 1)
			if k > 0 && pos[k] < pos[k-1] {
				pos[k] = pos[k-1]
			}
		}
		var items []*Item
		base := kind
		for lv := 0; lv < depth; lv++ {
			ty := &Item{K: "type", Name: fmt.Sprintf("T%d", lv), Base: base}
			for k, p := range ps {
				if pos[k] == lv {
					ty.Body = append(ty.Body, &Item{K: "prop", Name: p.n, E: p.e})
				}
			}
			base = ty.Name
			items = append(items, ty)
		}
		in := &Item{K: "inst", Name: "elem", Base: base}
		for k, p := range ps {
			if pos[k] == depth {
				in.Body = append(in.Body, &Item{K: "prop", Name: p.n, E: p.e})
			}
		}
		r.Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })
		top := in
		if kind == "param" {
			top = &Item{K: "inst", Name: "pr", Base: pick(r, "proc", "stream"), Body: []*Item{in}}
		} else if r.Intn(4) == 0 {
			top = &Item{K: "inst", Name: "blk", Base: pick(r, "block", "group"), Body: []*Item{in}}
		}
		bus := &Item{K: "inst", Name: "main", Base: "bus", Body: []*Item{{K: "inst", Name: "other", Base: "status"}, top}}
		items = append(items, bus)
		t := printItems(items, canonical())
		f := Files{"bus.fbd": t}
		res := w.compile(f)
		c.eval(1)
		if c.unusable(i, res, f, "ill formed range") {
			return
		}
		if res.Exit == 0 {
			c.violation(i, what+" accepted", f, t+string(res.Stdout))
			return
		}
		c.count("rejected: "+what, 1)
		c.seen("rejecting sites", fmt.Sprintf("%s %s %d %v", kind, what, depth, pos))
		c.nontrivial(t)
	})
}

// arrayTypes observes array sizes given in type definitions.
func arrayTypes(c *Check) {
	kinds := kindInner["block"]
	c.parallel(len(kinds), func(w *Worker, i int) {
		k := kinds[i]
		if k == "irq" || k == "group" {
			return // arrays of them are declared as not implemented
		}
		it := minimal(&Gen{}, k, "x", "").item()
		ty := &Item{K: "type", Name: "t", Base: k, Arr: eInt(3), Body: it.Body}
		f := Files{"bus.fbd": printItems([]*Item{ty, {K: "inst", Name: "main", Base: "bus", Body: []*Item{{K: "inst", Name: "x", Base: "t"}}}}, canonical())}
		res := w.compile(f)
		c.eval(1)
		if c.unusable(i, res, f, "array type") || res.Exit != 0 {
			return
		}
		var v map[string]any
		if err := json.Unmarshal(res.Stdout, &v); err != nil {
			c.violation(i, "output is not a complete JSON document: "+err.Error(), f, string(res.Stdout))
			return
		}
		for _, l := range v {
			l, _ := l.([]any)
			for _, x := range l {
				x, _ := x.(map[string]any)
				if x["Name"] == "x" && (x["IsArray"] != true || x["Count"] != 3.0) {
					c.violation(i, fmt.Sprintf("definition 'type t [3] %s' instantiated as 'x t' gives IsArray %v and Count %v", k, x["IsArray"], x["Count"]), f, "")
				}
			}
		}
	})
}
