package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// ---------------------------------------------------------------------------
// Generator of valid concrete designs.
// ---------------------------------------------------------------------------

type GenOpt struct {
	MaxElems  int // per block
	MaxDepth  int
	Values    bool // init, reset, read values
	Groups    bool
	Boxes     bool // blackboxes
	Aligns    int  // 0 none, 1 bus only, 2 mixed
	Consts    bool
	Docs      bool
	Kinds     map[string]int // weights
	Widths    []int64        // fixed bus widths, nil = default mix
	NoBusProp bool           // do not set masters, reset
	BlockBias int            // percent of elements that are subblocks when depth allows
	Clones    int            // percent of repeated structure (for factoring)
	NoHeavy   bool           // no exaggerated dimension
	FillReg   bool           // bias leaf widths to fill registers
}

var defaultKinds = map[string]int{"config": 22, "mask": 8, "static": 12, "status": 26, "irq": 12, "proc": 12, "stream": 8}

func defOpt() GenOpt { return GenOpt{MaxElems: 8, MaxDepth: 2, Kinds: defaultKinds, BlockBias: 14} }

type Gen struct {
	r    *rand.Rand
	o    GenOpt
	bw   int64
	used map[string]bool
	n    int
	hv   string // exaggerated dimension
	hvN  int    // how many times it was exaggerated
}

var heavyDims = []string{"elems", "inner", "count", "blocks", "width", "deep", "names", "bus", "consts", "ranges"}

// many returns n, or sometimes a much larger number when dimension dim is exaggerated.
func (g *Gen) many(dim string, n, large int) int {
	if g.hv == dim && g.hvN < 4 && g.r.Intn(2) == 0 {
		g.hvN++
		return n + g.r.Intn(large+1)
	}
	return n
}

func newRand(seed int64, check string, idx int) *rand.Rand {
	h := uint64(1469598103934665603)
	for _, c := range []byte(fmt.Sprintf("%d/%s/%d", seed, check, idx)) {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return rand.New(rand.NewSource(int64(h & 0x7fffffffffffffff)))
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

var busWidths = []int64{8, 16, 32, 32, 32, 64, 128}

func (g *Gen) pickBusWidth() int64 {
	if len(g.o.Widths) > 0 {
		return pick(g.r, g.o.Widths...)
	}
	if g.r.Intn(100) < 70 {
		return pick(g.r, busWidths...)
	}
	if g.r.Intn(2) == 0 {
		return 1 + int64(g.r.Intn(10))
	}
	return 2 + int64(g.r.Intn(99))
}

// pickWidth returns a width biased to register boundaries.
func (g *Gen) pickWidth(max int64) int64 {
	bw := g.bw
	var w int64
	switch g.r.Intn(14) {
	case 0:
		w = 1
	case 1:
		w = 2
	case 2:
		w = bw
	case 3:
		w = bw - 1
	case 4:
		w = bw + 1
	case 5:
		w = bw / 2
	case 6:
		w = bw/2 + 1
	case 7:
		w = bw / 3
	case 8:
		w = 2*bw + int64(g.r.Intn(3)) - 1
	case 9:
		w = 3*bw + int64(g.r.Intn(3)) - 1
	case 10, 11:
		w = 1 + g.r.Int63n(bw)
	default:
		w = 1 + g.r.Int63n(3*bw+5)
	}
	if w < 1 {
		w = 1
	}
	if max >= 4*bw {
		w = int64(g.many("width", int(w), int(40*bw)))
	} else if w > max {
		w = 1 + g.r.Int63n(max)
	}
	return w
}

func (g *Gen) pickCount(w int64) int64 {
	per := g.bw / w
	if per < 1 {
		per = 1
	}
	var c int64
	switch g.r.Intn(9) {
	case 0:
		c = 1
	case 1:
		c = 2
	case 2:
		c = per
	case 3:
		c = per + 1
	case 4:
		c = 2 * per
	case 5:
		c = 2*per + 1
	case 6:
		c = per - 1
	case 7:
		c = 3*per - 1
	default:
		c = 1 + g.r.Int63n(3*per+2)
	}
	if c < 1 {
		c = 1
	}
	if c > 70 {
		c = 1 + c%70
	}
	if w <= 2*g.bw && w < 300 {
		c = int64(g.many("count", int(c), pick(g.r, 130, 300, 1100)))
	}
	return c
}

var nameParts = []string{"a", "b", "Cfg", "st", "irq_n", "x0", "Foo", "data_Reg", "n1", "Z", "ctrl", "mode", "Ab_c", "in1", "size", "type1", "main1", "width1", "ID2", "TS"}

// names that must not be used as identifiers
var reserved = map[string]bool{
	"blackbox": true, "block": true, "bus": true, "config": true, "group": true, "irq": true, "mask": true, "param": true,
	"proc": true, "return": true, "static": true, "status": true, "stream": true, "const": true, "import": true, "type": true,
	"true": true, "false": true, "main": true, "ID": true, "TIMESTAMP": true, "atomic": true, "align": true, "clear": true,
	"delay": true, "masters": true, "range": true, "reset": true, "size": true, "virtual": true, "width": true, "access": true,
	"init": true, "abs": true, "bool": true, "ceil": true, "floor": true, "log": true, "log2": true, "log10": true, "u1": true,
	"s": true, "ms": true, "us": true, "ns": true, "b": true, "o": true, "x": true, "B": true, "O": true, "X": true,
}

// iname is the name of a functionality, sometimes a keyword: keywords are allowed there.
func (g *Gen) iname(used map[string]bool) string {
	p := 60
	if g.hv == "names" {
		p = 3
	}
	if g.r.Intn(p) == 0 {
		n := pick(g.r, "blackbox", "block", "bus", "config", "group", "irq", "mask", "memory", "param", "proc", "return", "static", "status", "stream")
		if !used[n] {
			used[n] = true
			return n
		}
	}
	return g.name(used)
}

// Words with a meaning only in some places, identifiers elsewhere. The names of properties are not identifiers at the
// beginning of a line.
var propWords = map[string]bool{"access": true, "align": true, "atomic": true, "clear": true, "delay": true, "masters": true, "range": true,
	"reset": true, "size": true, "virtual": true, "width": true}

var softWords = []string{"access", "align", "atomic", "clear", "delay", "masters", "range", "reset", "size", "virtual", "width",
	"s", "ms", "us", "ns", "b", "o", "x", "B", "O", "X", "abs", "bool", "ceil", "floor", "log2", "log10", "init", "e", "E1"}

func (g *Gen) name(used map[string]bool) string {
	for {
		n := pick(g.r, nameParts...)
		if g.r.Intn(3) > 0 {
			n += fmt.Sprint(g.r.Intn(30))
		}
		if g.r.Intn(6) == 0 {
			n += "_" + pick(g.r, nameParts...)
		}
		if g.hv == "names" {
			switch g.r.Intn(4) {
			case 0:
				n += strings.Repeat(pick(g.r, "x", "Long_", "q7"), g.r.Intn(120))
			case 1:
				n = string(rune('a' + g.r.Intn(26)))
			case 2:
				n = strings.ToUpper(n)
			}
		}
		if reserved[n] || used[n] {
			continue
		}
		used[n] = true
		return n
	}
}

func (g *Gen) kind() string {
	order := []string{"config", "mask", "static", "status", "irq", "proc", "stream", "group", "blackbox"}
	t := 0
	for _, k := range order {
		t += g.o.Kinds[k]
	}
	x := g.r.Intn(t)
	for _, k := range order {
		if x < g.o.Kinds[k] {
			return k
		}
		x -= g.o.Kinds[k]
	}
	panic("kind")
}

// initValue returns a random value fitting width w.
func (g *Gen) initValue(w int64) Value {
	r := g.r
	switch r.Intn(4) {
	case 0, 1: // non-negative or negative integer
		m := w
		if m > 62 {
			m = 62
		}
		var v int64
		switch r.Intn(6) {
		case 0:
			v = 0
		case 1:
			v = 1
		case 2:
			v = int64(1)<<uint(m) - 1
		case 3:
			v = int64(1) << uint(m-1)
		default:
			v = r.Int63n(int64(1) << uint(m))
		}
		if r.Intn(4) == 0 {
			k := w - 1
			if k > 62 {
				k = 62
			}
			lim := int64(1) << uint(k) // magnitude up to 2^(w-1)
			switch r.Intn(3) {
			case 0:
				v = -lim
			case 1:
				v = -1
			default:
				v = -(1 + r.Int63n(lim))
			}
			if k == 62 && v == -lim {
				v = -lim + 1
			}
		}
		return vi(v)
	default:
		return vx(g.bitStr(w, r.Intn(3) == 0))
	}
}

// bitStr returns a bit string literal of width at most w.
func (g *Gen) bitStr(w int64, meta bool) string {
	r := g.r
	chunk := int64(1)
	f := "b"
	digits := "01"
	switch r.Intn(3) {
	case 1:
		// octal: only when no extension is needed, see DESIGN.md
		if w%3 == 0 {
			chunk, f, digits = 3, "o", "01234567"
		}
	case 2:
		if w >= 4 {
			chunk, f, digits = 4, "x", "0123456789abcdefABCDEF"
		}
	}
	if meta {
		digits += "-uUwWxXzZ"
	}
	n := w / chunk
	if f != "o" && r.Intn(3) == 0 {
		n = 1 + r.Int63n(n)
	}
	var b strings.Builder
	b.WriteString(f + "\"")
	for i := int64(0); i < n; i++ {
		b.WriteByte(digits[r.Intn(len(digits))])
	}
	b.WriteString("\"")
	return b.String()
}

func (g *Gen) rangeVal(maxBits int64) Value {
	r := g.r
	bound := func() int64 {
		k := uint(1 + r.Int63n(maxBits))
		switch r.Intn(4) {
		case 0:
			return int64(1)<<k - 1
		case 1:
			return int64(1) << (k - 1)
		default:
			return 1 + r.Int63n(int64(1)<<k-1+1)%(int64(1)<<k-1)
		}
	}
	one := func() Value {
		a, b := bound(), bound()
		if r.Intn(3) == 0 {
			a = 0
		}
		if a > b {
			a, b = b, a
		}
		return vr(a, b)
	}
	switch r.Intn(3) {
	case 0:
		return vi(bound())
	case 1:
		return one()
	default:
		var l []Value
		for i := g.many("ranges", 1+r.Intn(4), 30); i > 0; i-- {
			l = append(l, one())
		}
		if r.Intn(8) == 0 {
			k := r.Intn(len(l) + 1)
			l = append(l[:k], append([]Value{vr(0, 0)}, l[k:]...)...)
		}
		return vL(l...)
	}
}

func (g *Gen) setWidth(e *Elem, max int64, arrayMax int64, allowRange bool) {
	r := g.r
	lim := max
	if e.Count >= 0 && arrayMax > 0 {
		lim = arrayMax
	}
	if allowRange && r.Intn(7) == 0 {
		m := lim
		if m > 62 {
			m = 62
		}
		e.set("range", g.rangeVal(m))
		return
	}
	if r.Intn(10) == 0 && lim >= g.bw {
		return // default width
	}
	e.set("width", vi(g.pickWidth(lim)))
}

func (g *Gen) values(e *Elem, names ...string) {
	if !g.o.Values {
		return
	}
	w := e.width(g.bw)
	for _, n := range names {
		if g.r.Intn(2) == 0 {
			e.set(n, g.initValue(w))
		}
	}
}

func (g *Gen) leaf(kind string, used map[string]bool, inGroup bool) *Elem {
	r := g.r
	e := &Elem{Kind: kind, Name: g.iname(used), Count: -1}
	arr := func(p int) bool {
		return r.Intn(100) < p
	}
	big := 4*g.bw + 3
	switch kind {
	case "config":
		if arr(30) {
			e.Count = 1
		}
		g.setWidth(e, big, g.bw, true)
		if e.Count >= 0 {
			e.Count = g.pickCount(max64(1, e.width(g.bw)))
		} else if r.Intn(4) == 0 {
			e.set("atomic", vb(r.Intn(2) == 0))
		}
		g.values(e, "init-value", "read-value", "reset-value")
	case "mask":
		g.setWidth(e, big, g.bw, false)
		if r.Intn(4) == 0 {
			e.set("atomic", vb(r.Intn(2) == 0))
		}
		g.values(e, "init-value", "read-value", "reset-value")
	case "static":
		if arr(30) {
			e.Count = 1
		}
		g.setWidth(e, big, g.bw, false)
		if e.Count >= 0 {
			e.Count = g.pickCount(e.width(g.bw))
		}
		e.set("init-value", g.initValue(e.width(g.bw)))
		g.values(e, "read-value", "reset-value")
	case "status":
		if arr(35) {
			e.Count = 1
		}
		g.setWidth(e, big, 0, false)
		if e.Count >= 0 {
			e.Count = g.pickCount(e.width(g.bw))
		}
		if r.Intn(4) == 0 {
			e.set("atomic", vb(r.Intn(2) == 0))
		}
		g.values(e, "read-value")
	case "irq":
		if r.Intn(3) == 0 {
			e.set("add-enable", vb(r.Intn(4) > 0))
			if v, _ := e.prop("add-enable"); v.B && g.o.Values {
				for _, n := range []string{"enable-init-value", "enable-reset-value"} {
					if r.Intn(2) == 0 {
						e.set(n, g.initValue(1))
					}
				}
			}
		}
		if r.Intn(2) == 0 {
			e.set("clear", vs(pick(r, "Explicit", "On Read")))
		}
		if r.Intn(3) == 0 {
			e.set("in-trigger", vs(pick(r, "Edge", "Level")))
		}
		if r.Intn(3) == 0 {
			e.set("out-trigger", vs(pick(r, "Edge", "Level")))
		}
	case "param", "return":
		if arr(25) {
			e.Count = 1
		}
		g.setWidth(e, big, 0, kind == "param")
		if e.Count >= 0 {
			e.Count = g.pickCount(max64(1, e.width(g.bw)))
			if e.Count*e.width(g.bw) > 12*g.bw {
				e.Count = 1 + e.Count%3
			}
		}
	case "blackbox":
		e.set("size", vi(1+r.Int63n(100)))
	}
	return e
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (g *Gen) delay() Value {
	u := pick(g.r, "s", "ms", "us", "ns")
	switch g.r.Intn(8) {
	case 0:
		return vt(0, u)
	case 1: // around whole seconds
		n := map[string]int64{"s": 1, "ms": 1000, "us": 1000000, "ns": 1000000000}[u]
		return vt(n*int64(g.r.Intn(4))+int64(g.r.Intn(3)), u)
	}
	return vt(1+int64(g.r.Intn(5000)), u)
}

func (g *Gen) proc(used map[string]bool) *Elem {
	r := g.r
	e := &Elem{Kind: "proc", Name: g.iname(used), Count: -1}
	if r.Intn(3) == 0 {
		e.set("delay", g.delay())
	}
	in := map[string]bool{}
	np, nr := g.many("inner", r.Intn(4), 30), g.many("inner", r.Intn(4), 30)
	for np > 0 || nr > 0 {
		if np > 0 && (nr == 0 || r.Intn(2) == 0) {
			e.Subs = append(e.Subs, g.leaf("param", in, false))
			np--
		} else {
			e.Subs = append(e.Subs, g.leaf("return", in, false))
			nr--
		}
	}
	return e
}

func (g *Gen) stream(used map[string]bool) *Elem {
	r := g.r
	e := &Elem{Kind: "stream", Name: g.iname(used), Count: -1}
	if r.Intn(4) == 0 {
		e.set("delay", g.delay())
	}
	in := map[string]bool{}
	k := pick(r, "param", "return")
	for n := g.many("inner", r.Intn(5), 30); n > 0; n-- {
		e.Subs = append(e.Subs, g.leaf(k, in, false))
	}
	return e
}

func (g *Gen) group(used map[string]bool) *Elem {
	r := g.r
	e := &Elem{Kind: "group", Name: g.iname(used), Count: -1}
	n := g.many("inner", 1+r.Intn(4), 30)
	in := map[string]bool{}
	switch r.Intn(5) {
	case 0:
		trig := pick(r, "Edge", "Level")
		for ; n > 0; n-- {
			l := g.leaf("irq", in, true)
			l.set("out-trigger", vs(trig))
			e.Subs = append(e.Subs, l)
		}
	default:
		if r.Intn(3) == 0 {
			e.set("virtual", vb(r.Intn(2) == 0))
		}
		for ; n > 0; n-- {
			e.Subs = append(e.Subs, g.leaf(pick(r, "config", "mask", "static", "status"), in, true))
		}
	}
	return e
}

func (g *Gen) constVal() Value {
	r := g.r
	switch r.Intn(8) {
	case 0:
		return vb(r.Intn(2) == 0)
	case 1:
		return vs(strings.Repeat(pick(r, "", "abc", "Foo Bar", "# x", "a;b", "żółw"), g.many("consts", 1, 200)))
	case 2:
		return vf(float64(r.Intn(2000000)) / 1024)
	case 3:
		var l []Value
		for i := g.many("consts", 1+r.Intn(4), 60); i > 0; i-- {
			l = append(l, vi(r.Int63n(1000)-500))
		}
		return vl(l...)
	case 4:
		var l []Value
		for i := g.many("consts", 1+r.Intn(4), 60); i > 0; i-- {
			l = append(l, vb(r.Intn(2) == 0))
		}
		return vl(l...)
	default:
		switch r.Intn(4) {
		case 0:
			return vi(r.Int63n(10))
		case 1:
			return vi(-r.Int63n(100000))
		case 2:
			return vi(r.Int63())
		}
		return vi(r.Int63n(100000))
	}
}

func (g *Gen) block(kind string, name string, depth int) *Elem {
	r := g.r
	e := &Elem{Kind: kind, Name: name, Count: -1}
	used := map[string]bool{}
	if kind == "bus" {
		if g.bw != 32 || r.Intn(4) == 0 {
			e.set("width", vi(g.bw))
		}
		if g.o.Aligns >= 1 && r.Intn(4) > 0 {
			e.set("align", vi(int64(1)<<uint(r.Intn(9))))
		}
	} else if g.o.Aligns == 2 && r.Intn(2) == 0 {
		e.set("align", vi(int64(1)<<uint(r.Intn(8))))
	}
	if !g.o.NoBusProp {
		if r.Intn(4) == 0 {
			e.set("masters", vi(1+r.Int63n(9)))
		}
		if r.Intn(4) == 0 {
			e.set("reset", vs(pick(r, "Sync", "Async")))
		}
	}
	if g.o.Consts {
		for k := g.many("consts", 0, 40); k > 0 || r.Intn(3) == 0; k-- {
			e.Consts = append(e.Consts, DConst{g.name(used), g.constVal()})
		}
	}
	n := g.many("elems", 1+r.Intn(g.o.MaxElems), 60)
	for i := 0; i < n; i++ {
		if depth < g.o.MaxDepth && r.Intn(100) < g.o.BlockBias {
			b := g.block("block", g.iname(used), depth+1)
			if r.Intn(3) == 0 {
				b.Count = int64(g.many("blocks", 1+r.Intn(5), 140))
			}
			e.Subs = append(e.Subs, b)
			continue
		}
		e.Subs = append(e.Subs, g.elem(used))
		if g.o.Clones > 0 && r.Intn(100) < g.o.Clones {
			// Repeat the structure under other names, with a few different literals.
			for k := r.Intn(3); k >= 0; k-- {
				c := e.Subs[len(e.Subs)-1].clone()
				c.Name = g.name(used)
				g.perturb(c)
				e.Subs = append(e.Subs, c)
			}
		}
	}
	return e
}

// perturb changes some literals of a cloned element, keeping it valid.
func (g *Gen) perturb(e *Elem) {
	e.walk(func(x, _ *Elem, _ int) {
		if g.r.Intn(3) != 0 {
			return
		}
		switch x.Kind {
		case "status", "return":
			if _, ok := x.prop("width"); ok {
				if _, has := x.prop("read-value"); !has {
					lim := 3 * g.bw
					if x.Count > 3 {
						lim = g.bw
					}
					x.set("width", vi(1+g.r.Int63n(lim)))
				}
			}
			if x.Count > 0 && g.r.Intn(2) == 0 {
				x.Count = 1 + int64(g.r.Intn(6))
			}
		case "param", "config":
			if _, ok := x.prop("width"); ok {
				if _, has := x.prop("init-value"); !has {
					if _, has := x.prop("reset-value"); !has {
						if _, has := x.prop("read-value"); !has {
							x.set("width", vi(1+g.r.Int63n(g.bw)))
						}
					}
				}
			}
		case "irq":
			if _, ok := x.prop("clear"); ok {
				x.set("clear", vs(pick(g.r, "Explicit", "On Read")))
			}
		}
	})
}

func (g *Gen) elem(used map[string]bool) *Elem {
	switch k := g.kind(); k {
	case "proc":
		return g.proc(used)
	case "stream":
		return g.stream(used)
	case "group":
		return g.group(used)
	default:
		return g.leaf(k, used, false)
	}
}

func genDesign(r *rand.Rand, o GenOpt) *Elem {
	g := &Gen{r: r, o: o}
	if g.o.Kinds == nil {
		g.o.Kinds = defaultKinds
	}
	g.bw = g.pickBusWidth()
	if !o.NoHeavy && r.Intn(12) == 0 {
		g.hv = pick(r, heavyDims...)
		switch g.hv {
		case "deep":
			g.o.MaxDepth, g.o.BlockBias, g.o.MaxElems = 4+r.Intn(8), 60, 2
		case "blocks":
			g.o.MaxDepth, g.o.BlockBias, g.o.MaxElems = min(2, max(1, o.MaxDepth)), 50, 4
		case "bus":
			if o.Widths == nil {
				g.bw = pick(r, 129, 200, 256, 512, 1000, 128+r.Int63n(900))
			}
		}
	}
	return g.block("bus", "main", 0)
}
