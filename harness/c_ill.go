package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { register("C12", checkC12) }

// ---------------------------------------------------------------------------
// Catalogue of rules: each entry breaks exactly one rule in a valid description.
// ---------------------------------------------------------------------------

var allKinds = []string{"blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"}

// kindProps are the properties of the kinds.
var kindProps = map[string][]string{
	"blackbox": {"size"},
	"block":    {"align", "masters", "reset"},
	"bus":      {"align", "masters", "reset", "width"},
	"config":   {"atomic", "init-value", "range", "read-value", "reset-value", "width"},
	"group":    {"virtual"},
	"irq":      {"add-enable", "clear", "enable-init-value", "enable-reset-value", "in-trigger", "out-trigger"},
	"mask":     {"atomic", "init-value", "read-value", "reset-value", "width"},
	"param":    {"range", "width"},
	"proc":     {"delay"},
	"return":   {"width"},
	"static":   {"init-value", "read-value", "reset-value", "width"},
	"status":   {"atomic", "read-value", "width"},
	"stream":   {"delay"},
}

// kindInner are the kinds allowed inside.
var kindInner = map[string][]string{
	"block":  {"blackbox", "block", "config", "group", "irq", "mask", "proc", "static", "status", "stream"},
	"bus":    {"blackbox", "block", "config", "group", "irq", "mask", "proc", "static", "status", "stream"},
	"group":  {"config", "irq", "mask", "param", "return", "static", "status"},
	"proc":   {"param", "return"},
	"stream": {"param", "return"},
}

// propGood is a valid value of each property.
var propGood = map[string]Value{
	"access": vs("Read Write"), "add-enable": vb(true), "align": vi(4), "atomic": vb(true), "byte-write-enable": vb(true),
	"clear": vs("Explicit"), "delay": vt(5, "ns"), "enable-init-value": vi(1), "enable-reset-value": vi(1), "init-value": vi(1),
	"in-trigger": vs("Edge"), "masters": vi(2), "out-trigger": vs("Edge"), "range": vi(3), "read-latency": vi(1), "read-value": vi(1),
	"reset": vs("Sync"), "reset-value": vi(1), "size": vi(8), "virtual": vb(true), "width": vi(8),
}

var propNames = func() []string {
	var l []string
	for k := range propGood {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}()

func vXt(t string) Value { return Value{K: 'i', X: eText(t)} }

// propBad are values the property must not have.
var propBad = func() map[string][]Value {
	i, s, b, x, t, f, ra, li := vi(1), vs("abc"), vb(true), vx(`b"1"`), vt(3, "us"), vf(1.5), vr(0, 1), vl(vi(1))
	lb := vl(vb(true))
	boolBad := []Value{i, vi(0), s, vs("true"), x, t, f, ra, li}
	intBad := []Value{s, vs("8"), b, x, t, f, vf(8), ra, li, lb}
	strBad := []Value{i, b, x, t, f, ra, li}
	valBad := []Value{s, b, t, f, ra, li}
	m := map[string][]Value{
		"add-enable": boolBad, "atomic": boolBad, "virtual": boolBad,
		"align":              append([]Value{vi(0), vi(-1), vi(-4), vi(3), vi(6), vi(12), vi(100), vi(1<<20 + 1)}, intBad...),
		"clear":              append([]Value{vs(""), vs("explicit"), vs("On read"), vs("OnRead"), vs("Explicit ")}, strBad...),
		"delay":              {i, vi(0), s, vs("1 s"), b, x, f, ra, li},
		"init-value":         valBad,
		"read-value":         valBad,
		"reset-value":        valBad,
		"enable-init-value":  append([]Value{vi(2), vi(-2), vx(`b"01"`), vx(`x"1"`)}, valBad...),
		"enable-reset-value": append([]Value{vi(2), vi(-2), vx(`b"10"`), vx(`o"1"`)}, valBad...),
		"in-trigger":         append([]Value{vs(""), vs("edge"), vs("Rising"), vs("Level\t")}, strBad...),
		"out-trigger":        append([]Value{vs(""), vs("level"), vs("Falling"), vs(" Edge")}, strBad...),
		"masters":            append([]Value{vi(0), vi(-1), vi(-9223372036854775807)}, intBad...),
		"range": {vi(-1), vi(-9223372036854775807), vr(-1, 3), vr(-5, -1), vr(0, -1), vr(3, 2), vr(1, 0), vr(1<<40, 1),
			vl(), vl(vi(3)), vL(vr(0, 1), vi(3)), vL(vi(3), vr(0, 1)), vL(vr(-1, 3)), vL(vr(0, 3), vr(7, 6)), vL(vr(0, 3), vr(-2, 6)), vL(vr(0, 3), vr(4, 5), vr(3, -6)), vL(vr(1, 0), vr(4, 5)),
			s, b, x, t, f, lb, vL(vr(0, 1), vs("x")), vL(vl(vr(0, 1)))},
		"reset": append([]Value{vs(""), vs("sync"), vs("ASYNC"), vs("Both")}, strBad...),
		"size":  append([]Value{vi(0), vi(-1)}, intBad...),
		"width": append([]Value{vi(-1), vi(-32)}, intBad...),
	}
	return m
}()

// badExprs have no value of any type.
var badExprs = []string{
	"NOSUCH", "nosuch.A", "nosuch(1)", "log2()", "ceil(1, 2)", "log10(1, 2)", "bool()", "1 / 0", "1 % 0", "(3 - 3) % (2 - 2)", "log2(0)", "log10(0)", "log2(-4)", "1 << -1", "1 >> -1",
	"1 << 2.0", "8 >> true", "true + 1", `"a" * 2`, "9223372036854775807 + 1", "-9223372036854775807 - 2", "3037000500 * 3037000500", "1 << 63", "2 ** 63", "bool(1.5)", `ceil("a")`, `floor(true)`, "1 : 2.0", "1.5 : 2", "true : 3", "2 ** (1 / 0)", "log2(NOSUCH)", "[1, NOSUCH]", "NOSUCH + 1", "1 - NOSUCH", "-NOSUCH", "(NOSUCH)", "NOSUCH : 3",
}

// syntaxBad are not expressions.
var syntaxBad = []string{
	"", "(1", "1)", "((1)", "[1", "1]", "[1 2]", "[, 1]", "()", "1 +", "* 2", "/ 3", "1 2", "1 ** ", "+ * 2", "f(1", "f(1 2)", "f(, 1)", "1 + + ", "a b", "a.b.c", "a.", `b"2"`, `b"1`, `b"1 0"`, `o"8"`, `x"g"`, `x"1`, "0b2", "0o8", "0xg", "0b", "0x", "0o", "12a", "1o7", "2b01", "1x10", "10b1", "00x1", "0b12", "0o78", "0xfg", "0bx1", "0x0x1", "1e", "08o1", "1_000", "1'000", "0b1.1", "0x1.8", "7h", "1L", "1u", "0d10", "16#FF", "0b1 s 1", "0q1", "1.2.3", "1e2e3", "1e2.5", "9223372036854775808", "0x8000000000000000", "99999999999999999999", "1 , 2", "= 1", "1 = 2", "const", "1 ; 2", "true false", "3 ! 4", "1 : ", ": 1", "5 s 6", "&& 1", "1 ||", "@", "$x", "1 ? 2", "~1", "`a`", "1\\2", "'a'", "{1}", "1\t2", "ł", "\"abc",
}

type ill struct {
	okBody string // body without the defect, part of the control
	rule   string
	// design level: changes a valid design into an invalid one; false when not applicable
	design func(g *Gen, d *Elem) bool
	plain  bool   // design level, not to be factored
	body   string // snippet for a block body
	top    string // snippet for the top of a file
	pkg    bool   // top snippet may be in an imported package
	text   func(r *rand.Rand, t string) (string, bool)
	proj   func(r *rand.Rand, f Files) bool
	args   []string
}

func indent(t string, n int) string {
	p := strings.Repeat("  ", n)
	return p + strings.ReplaceAll(t, "\n", "\n"+p)
}

// need returns the properties a kind requires, other than p.
func need(kind, p string) []DProp {
	switch {
	case kind == "static" && p != "init-value":
		return []DProp{{"init-value", vi(1)}}
	case kind == "blackbox" && p != "size":
		return []DProp{{"size", vi(4)}}
	case kind == "irq" && strings.HasPrefix(p, "enable-"):
		return []DProp{{"add-enable", vb(true)}}
	}
	return nil
}

// minimal returns a valid element of the kind.
func minimal(g *Gen, kind string, name string, p string) *Elem {
	e := &Elem{Kind: kind, Name: name, Count: -1}
	for _, x := range need(kind, p) {
		e.set(x.Name, x.V)
	}
	switch kind {
	case "block", "bus":
		e.Subs = []*Elem{{Kind: "config", Name: "c", Count: -1}}
	case "group":
		e.Subs = []*Elem{{Kind: "status", Name: "c", Count: -1}}
	case "stream":
		e.Subs = []*Elem{{Kind: "param", Name: "c", Count: -1}}
	}
	return e
}

// blocks lists the blocks of a design with the main bus.
func (e *Elem) blocks() []*Elem {
	var l []*Elem
	e.walk(func(x, _ *Elem, _ int) {
		if x.Kind == "block" || x.Kind == "bus" {
			l = append(l, x)
		}
	})
	return l
}

func insertSub(r *rand.Rand, b *Elem, x *Elem) {
	k := r.Intn(len(b.Subs) + 1)
	b.Subs = append(b.Subs[:k:k], append([]*Elem{x}, b.Subs[k:]...)...)
}

// place puts an element of any kind somewhere in the design.
func place(g *Gen, d *Elem, x *Elem) {
	bl := d.blocks()
	b := bl[g.r.Intn(len(bl))]
	switch x.Kind {
	case "param":
		h := &Elem{Kind: pick(g.r, "proc", "stream", "proc", "group"), Name: "Holder_", Count: -1, Subs: []*Elem{x}}
		insertSub(g.r, b, h)
	case "return":
		h := &Elem{Kind: pick(g.r, "proc", "stream", "proc", "group"), Name: "Holder_", Count: -1, Subs: []*Elem{x}}
		insertSub(g.r, b, h)
	case "config", "mask", "static", "status", "irq":
		if g.r.Intn(5) == 0 {
			insertSub(g.r, b, &Elem{Kind: "group", Name: "Holder_", Count: -1, Subs: []*Elem{x}})
			return
		}
		insertSub(g.r, b, x)
	default:
		insertSub(g.r, b, x)
	}
}

// target returns an element of the kind: one of the design, or a new one.
func target(g *Gen, d *Elem, kind, p string) *Elem {
	var l []*Elem
	d.walk(func(x, _ *Elem, _ int) {
		if x.Kind == kind {
			l = append(l, x)
		}
	})
	if kind == "bus" {
		return d
	}
	if len(l) > 0 && g.r.Intn(2) == 0 {
		return l[g.r.Intn(len(l))]
	}
	x := minimal(g, kind, "Ill_", p)
	place(g, d, x)
	return x
}

func insertProp(r *rand.Rand, e *Elem, n string, v Value) {
	e.unset(n)
	k := r.Intn(len(e.Props) + 1)
	e.Props = append(e.Props[:k:k], append([]DProp{{n, v}}, e.Props[k:]...)...)
}

func illCatalogue() []ill {
	var l []ill
	add := func(x ill) { l = append(l, x) }
	dsg := func(rule string, f func(g *Gen, d *Elem) bool) { add(ill{rule: rule, design: f}) }
	body := func(rule, t string) { add(ill{rule: rule, body: t}) }

	// --- property names
	for _, k := range allKinds {
		ok := map[string]bool{}
		for _, p := range kindProps[k] {
			ok[p] = true
		}
		for _, p := range propNames {
			if ok[p] {
				continue
			}
			k, p := k, p
			dsg("invalid property: "+p+" of "+k, func(g *Gen, d *Elem) bool {
				insertProp(g.r, target(g, d, k, ""), p, propGood[p])
				return true
			})
			if k != "bus" {
				// through a type, alone in the type or in the instantiation
				e := minimal(&Gen{}, k, "y", "")
				var props, subs []*Item
				for _, it := range e.item().Body {
					if it.K == "prop" {
						props = append(props, it)
					} else {
						subs = append(subs, it)
					}
				}
				bad := &Item{K: "prop", Name: p, E: propGood[p].expr()}
				for v := 0; v < 2; v++ {
					t := &Item{K: "type", Name: "Ill_t", Base: k, Body: append(append([]*Item(nil), props...), subs...)}
					in := &Item{K: "inst", Name: "ill_", Base: "Ill_t"}
					if v == 0 {
						in.Body = []*Item{bad}
					} else {
						t.Body = append([]*Item{bad}, t.Body...)
					}
					body("invalid property through a type: "+p+" of "+k, holder(k, t, in))
				}
			}
		}
		for _, p := range kindProps[k] {
			for _, v := range propBad[p] {
				k, p, v := k, p, v
				dsg("invalid value: "+p+" of "+k, func(g *Gen, d *Elem) bool {
					e := target(g, d, k, p)
					if p == "range" {
						e.unset("width")
						e.unset("init-value")
						e.unset("reset-value")
						e.unset("read-value")
					}
					if p == "width" {
						e.unset("range")
					}
					if strings.HasPrefix(p, "enable-") {
						e.set("add-enable", vb(true))
					}
					insertProp(g.r, e, p, v)
					return true
				})
			}
			if len(propBad[p]) == 0 {
				panic("no bad value of " + p)
			}
			// value without a value
			k, p := k, p
			for range 3 {
				add(ill{rule: "undefined value: " + p + " of " + k, plain: true, design: func(g *Gen, d *Elem) bool {
					e := target(g, d, k, p)
					if p == "range" {
						e.unset("width")
					}
					if p == "width" {
						e.unset("range")
					}
					insertProp(g.r, e, p, vXt(pick(g.r, badExprs...)))
					return true
				}})
			}
			// given twice
			if k != "bus" {
				e := minimal(&Gen{}, k, "y", p)
				for j := 0; j < 3; j++ {
					var base []*Item
					for _, it := range e.item().Body {
						if it.K == "prop" {
							base = append(base, it)
						}
					}
					var subs []*Item
					for _, it := range e.item().Body {
						if it.K != "prop" {
							subs = append(subs, it)
						}
					}
					pr := &Item{K: "prop", Name: p, E: propGood[p].expr()}
					in := &Item{K: "inst", Name: "ill_", Base: "Ill_t"}
					switch j {
					case 0: // same body
						in.Base = k
						in.Body = append(append(append([]*Item(nil), base...), pr, pr), subs...)
						body("property given twice: "+p+" of "+k, holder(k, in))
					case 1: // type and instantiation
						t := &Item{K: "type", Name: "Ill_t", Base: k, Body: append(append(append([]*Item(nil), base...), pr), subs...)}
						in.Body = []*Item{pr}
						body("property given twice through a type: "+p+" of "+k, holder(k, t, in))
					case 2: // chain of types
						t := &Item{K: "type", Name: "Ill_t", Base: k, Body: append(append(append([]*Item(nil), base...), pr), subs...)}
						u := &Item{K: "type", Name: "Ill_u", Base: "Ill_t", Body: []*Item{pr}}
						v := &Item{K: "type", Name: "Ill_v", Base: "Ill_u"}
						in.Base = "Ill_v"
						body("property given twice through a chain: "+p+" of "+k, holder(k, v, t, u, in))
					}
				}
			}
		}
		// foreign words
		for _, p := range []string{"foo", "Width", "init_value", "width-x", "initvalue", "default", "doc"} {
			if k != "bus" {
				e := minimal(&Gen{}, k, "ill_", "")
				it := e.item()
				it.Body = append([]*Item{{K: "prop", Name: p, E: eInt(1)}}, it.Body...)
				body("unknown property of "+k, holder(k, it))
			}
		}
		// inner functionalities
		in := map[string]bool{}
		for _, x := range kindInner[k] {
			in[x] = true
		}
		for _, x := range allKinds {
			if in[x] {
				continue
			}
			k, x := k, x
			add(ill{rule: "inner functionality: " + x + " in " + k, plain: leafKind(k), design: func(g *Gen, d *Elem) bool {
				e := target(g, d, k, "")
				if k == "group" || k == "stream" {
					e = minimal(g, k, "Ill2_", "")
					place(g, d, e)
				}
				insertSub(g.r, e, minimal(g, x, "Inner_", ""))
				return true
			}})
			if k == "bus" {
				continue
			}
			e := minimal(&Gen{}, k, "y", "")
			inner := minimal(&Gen{}, x, "inner_", "").item()
			t := &Item{K: "type", Name: "Ill_t", Base: k, Body: append(e.item().Body, inner)}
			body("inner functionality through a type: "+x+" in "+k, holder(k, t, &Item{K: "inst", Name: "ill_", Base: "Ill_t"}))
			t2 := &Item{K: "type", Name: "Ill_t", Base: k, Body: e.item().Body}
			body("inner functionality added to a type: "+x+" in "+k, holder(k, t2, &Item{K: "inst", Name: "ill_", Base: "Ill_t", Body: []*Item{inner}}))
			// inner functionality of a user type
			t3 := &Item{K: "type", Name: "Ill_i", Base: x, Body: minimal(&Gen{}, x, "y", "").item().Body}
			it := e.item()
			it.Name = "ill_"
			it.Body = append(it.Body, &Item{K: "inst", Name: "inner_", Base: "Ill_i"})
			body("inner functionality of a user type: "+x+" in "+k, holder(k, t3, it))
		}
		// argument lists of base types
		e := minimal(&Gen{}, k, "ill_", "")
		it := e.item()
		it.HasArgs, it.Args = true, []Arg{{"", eInt(1)}}
		if k != "bus" {
			body("argument list of base type "+k, holder(k, it))
		}
		// array sizes
		if k != "bus" {
			for _, a := range []string{"-1", "0 - 5", "2.0", `"2"`, "true", "[1]", "1 : 2", "3 ns", "NOSUCH", "1 / 0"} {
				it := minimal(&Gen{}, k, "ill_", "").item()
				it.Arr = eText(a)
				body("array size "+a+" of "+k, holder(k, it))
			}
		}
		// equal names
		for _, x := range allKinds {
			if k == "bus" || x == "bus" {
				continue
			}
			for _, p := range allKinds {
				both := false
				for _, q := range kindInner[p] {
					if q == k {
						for _, q := range kindInner[p] {
							if q == x {
								both = true
							}
						}
					}
				}
				if !both || p == "bus" || p == "stream" && k != x || p == "group" && k != x {
					continue
				}
				k, x, p := k, x, p
				dsg("equal names: "+k+" and "+x+" in "+p, func(g *Gen, d *Elem) bool {
					h := &Elem{Kind: p, Name: "Ill_", Count: -1}
					h.Subs = append(h.Subs, minimal(g, k, "same_", ""))
					if g.r.Intn(2) == 0 {
						q := k
						h.Subs = append(h.Subs, minimal(g, q, "other_", ""))
					}
					h.Subs = append(h.Subs, minimal(g, x, "same_", ""))
					place(g, d, h)
					return true
				})
				a, b := minimal(&Gen{}, k, "same_", "").item(), minimal(&Gen{}, x, "same_", "").item()
				t := &Item{K: "type", Name: "Ill_t", Base: p, Body: []*Item{a}}
				body("equal names through a type: "+k+" and "+x+" in "+p, holder(p, t, &Item{K: "inst", Name: "ill_", Base: "Ill_t", Body: []*Item{b}}))
			}
		}
	}

	// --- values
	for _, k := range []string{"config", "mask", "static", "status"} {
		for _, p := range kindProps[k] {
			if !strings.HasSuffix(p, "-value") {
				continue
			}
			for j := 0; j < 8; j++ {
				j, k, p := j, k, p
				dsg("too wide "+p+" of "+k, func(g *Gen, d *Elem) bool {
					e := minimal(g, k, "Ill_", p)
					w := int64(1 + g.r.Intn(61))
					if j == 7 {
						w = int64(62 + g.r.Intn(70))
					}
					e.set("width", vi(w))
					if k == "config" && w < 60 && g.r.Intn(3) == 0 {
						e.unset("width")
						e.set("range", vi(int64(1)<<uint(w)-1))
					}
					e.unset("init-value")
					if k == "static" && p != "init-value" {
						e.set("init-value", vi(0))
					}
					var v Value
					switch j {
					case 0:
						v = vi(int64(1) << uint(w))
					case 1:
						v = vi(int64(1)<<uint(w) + g.r.Int63n(int64(1)<<uint(w)))
					case 2:
						v = vi(-(int64(1) << uint(w)) - 1 - g.r.Int63n(5))
					case 3:
						v = vi(9223372036854775807)
					case 4:
						v = vx(`b"` + strings.Repeat(pick(g.r, "0", "1", "x", "-"), int(w)+1) + `"`)
					case 5:
						v = vx(`x"` + strings.Repeat(pick(g.r, "0", "f", "Z"), int(w)/4+1) + `"`)
					case 6:
						v = vx(`o"` + strings.Repeat(pick(g.r, "0", "7", "u"), int(w)/3+1) + `"`)
					case 7:
						v = vx(`b"` + strings.Repeat(pick(g.r, "0", "1"), int(w)+1+g.r.Intn(9)) + `"`)
					}
					e.set(p, v)
					place(g, d, e)
					return true
				})
			}
		}
	}
	dsg("static without init-value", func(g *Gen, d *Elem) bool {
		e := target(g, d, "static", "")
		e.unset("init-value")
		return true
	})
	dsg("blackbox without size", func(g *Gen, d *Elem) bool {
		e := target(g, d, "blackbox", "")
		e.unset("size")
		return true
	})
	for _, p := range []string{"enable-init-value", "enable-reset-value"} {
		for _, v := range []Value{vi(0), vi(1), vx(`b"1"`)} {
			for j := 0; j < 2; j++ {
				dsg(p+" without enable", func(g *Gen, d *Elem) bool {
					e := target(g, d, "irq", "")
					e.unset("add-enable")
					e.unset("enable-init-value")
					e.unset("enable-reset-value")
					if j == 0 {
						e.set("add-enable", vb(false))
					}
					insertProp(g.r, e, p, v)
					return true
				})
			}
		}
	}
	// --- range and width
	for _, k := range []string{"config", "param"} {
		for j := 0; j < 4; j++ {
			dsg("range and width of "+k, func(g *Gen, d *Elem) bool {
				e := minimal(g, k, "Ill_", "")
				insertProp(g.r, e, "range", pick(g.r, vi(7), vr(0, 7), vL(vr(0, 1), vr(5, 7))))
				insertProp(g.r, e, "width", vi(3))
				place(g, d, e)
				return true
			})
		}
		for _, c := range [][2]string{{"range = 7", "width = 3"}, {"width = 3", "range = 7"}, {"range = 0:7", "width = 3"}, {"width = 3", "range = [0:3, 6:7]"}} {
			for _, mid := range []string{"", "type Ill_m Ill_t\n"} {
				base := "Ill_t"
				if mid != "" {
					base = "Ill_m"
				}
				t := fmt.Sprintf("type Ill_t %s; %s\n%sill_ %s; %s", k, c[0], mid, base, c[1])
				body("range and width through a type, "+k, holderText(k, t))
				t = fmt.Sprintf("type Ill_t %s; %s\n%stype Ill_v %s; %s\nill_ Ill_v", k, c[0], mid, base, c[1])
				body("range and width through a chain, "+k, holderText(k, t))
			}
		}
	}
	// --- groups and streams
	for _, k := range []string{"config", "mask", "static", "status", "irq", "param", "return"} {
		for _, x := range []string{"config", "mask", "static", "status", "irq", "param", "return"} {
			reg := func(k string) bool { return k == "config" || k == "mask" || k == "static" || k == "status" }
			if k == x || reg(k) && reg(x) {
				continue
			}
			dsg("group with "+k+" and "+x, func(g *Gen, d *Elem) bool {
				h := &Elem{Kind: "group", Name: "Ill_", Count: -1, Subs: []*Elem{minimal(g, k, "a1", "")}}
				if g.r.Intn(2) == 0 {
					h.Subs = append(h.Subs, minimal(g, k, "a2", ""))
				}
				h.Subs = append(h.Subs, minimal(g, x, "b1", ""))
				place(g, d, h)
				return true
			})
			a, b := minimal(&Gen{}, k, "a1", "").item(), minimal(&Gen{}, x, "b1", "").item()
			t := &Item{K: "type", Name: "Ill_t", Base: "group", Body: []*Item{a}}
			body("group through a type with "+k+" and "+x, holder("group", t, &Item{K: "inst", Name: "ill_", Base: "Ill_t", Body: []*Item{b}}))
		}
	}
	for _, k := range []string{"irq", "param", "return"} {
		dsg("virtual group of "+k, func(g *Gen, d *Elem) bool {
			h := &Elem{Kind: "group", Name: "Ill_", Count: -1, Props: []DProp{{"virtual", vb(true)}}, Subs: []*Elem{minimal(g, k, "a1", "")}}
			place(g, d, h)
			return true
		})
	}
	dsg("empty group", func(g *Gen, d *Elem) bool {
		h := &Elem{Kind: "group", Name: "Ill_", Count: -1}
		if g.r.Intn(2) == 0 {
			h.set("virtual", vb(g.r.Intn(2) == 0))
		}
		if g.r.Intn(2) == 0 {
			h.Consts = []DConst{{"C1", vi(3)}}
		}
		place(g, d, h)
		return true
	})
	for j := 0; j < 8; j++ {
		dsg("irq group with different out-trigger", func(g *Gen, d *Elem) bool {
			h := &Elem{Kind: "group", Name: "Ill_", Count: -1}
			n := 2 + g.r.Intn(4)
			odd := g.r.Intn(n)
			a, b := "Edge", "Level"
			if g.r.Intn(2) == 0 {
				a, b = b, a
			}
			for k := 0; k < n; k++ {
				e := &Elem{Kind: "irq", Name: fmt.Sprintf("i%d", k), Count: -1}
				v := a
				if k == odd {
					v = b
				}
				if v == "Edge" || g.r.Intn(2) == 0 {
					e.set("out-trigger", vs(v))
				}
				// the other properties make no difference
				switch g.r.Intn(4) {
				case 0:
					e.set("in-trigger", vs(a))
				case 1:
					e.set("in-trigger", vs(b))
				case 2:
					e.set("in-trigger", vs(v))
				}
				if g.r.Intn(3) == 0 {
					e.set("add-enable", vb(true))
				}
				if g.r.Intn(3) == 0 {
					e.set("clear", vs(pick(g.r, "Explicit", "On Read")))
				}
				h.Subs = append(h.Subs, e)
			}
			place(g, d, h)
			return true
		})
		dsg("stream with param and return", func(g *Gen, d *Elem) bool {
			h := &Elem{Kind: "stream", Name: "Ill_", Count: -1}
			a, b := "param", "return"
			if g.r.Intn(2) == 0 {
				a, b = b, a
			}
			for k := 0; k <= g.r.Intn(3); k++ {
				h.Subs = append(h.Subs, minimal(g, a, fmt.Sprintf("a%d", k), ""))
			}
			h.Subs = append(h.Subs, minimal(g, b, "b1", ""))
			place(g, d, h)
			return true
		})
	}
	body("stream with param and return through a type", "type Ill_t stream\n  a param\nill_ Ill_t\n  b return")
	body("stream with param and return through a type", "type Ill_t stream\n  a return\nill_ Ill_t\n  b param")
	// --- reserved names
	for _, k := range kindInner["bus"] {
		dsg("reserved name ID of "+k, func(g *Gen, d *Elem) bool {
			insertSub(g.r, d, minimal(g, k, "ID", ""))
			return true
		})
		add(ill{rule: "reserved name TIMESTAMP of " + k, args: []string{"-add-timestamp"}, design: func(g *Gen, d *Elem) bool {
			insertSub(g.r, d, minimal(g, k, "TIMESTAMP", ""))
			return true
		}})
	}
	// --- types
	for _, s := range []struct{ rule, t string }{
		{"unknown type", "ill_ nosuch"}, {"unknown type", "ill_ Nosuch(1)"}, {"unknown type", "type Ill_t nosuch\nill_ Ill_t"}, {"unknown type", "type Ill_t nosuch"}, {"unknown type", "ill_ [2]memory2"},
		{"unknown package", "ill_ nosuch.T"}, {"unknown package", "type Ill_t nosuch.T\nill_ Ill_t"},
		{"constant as type", "const Ill_c = 1\nill_ Ill_c"}, {"instantiation as type", "ill_a config\nill_b ill_a"}, {"parameter as type", "type Ill_t(A) block\n  c A\nill_ Ill_t(1)"},
		{"type as value", "type Ill_t config\nill_ config; width = Ill_t"}, {"instantiation as value", "ill_a config\nill_b config; width = ill_a"}, {"type as value", "type Ill_t config\nconst Ill_c = Ill_t"},
		{"inner type from outside", "ill_a block\n  type Ill_t config\n  c Ill_t\nill_b Ill_t"}, {"inner constant from outside", "ill_a block\n  const Ill_c = 3\n  c config; width = Ill_c\nill_b config; width = Ill_c"},
		{"parameter from outside", "type Ill_t(Ill_p) config; width = Ill_p\nill_ Ill_t(3)\nill_b config; width = Ill_p"},
		{"missing argument", "type Ill_t(a) config; width = a\nill_ Ill_t"}, {"missing argument", "type Ill_t(a, b) config; width = a + b\nill_ Ill_t(1)"}, {"missing argument", "type Ill_t(a, b = 2) config; width = a + b\nill_ Ill_t(b = 1)"}, {"missing argument", "type Ill_t(a, b) config; width = a + b\ntype Ill_u Ill_t(b = 4)\nill_ Ill_u"},
		{"too many arguments", "type Ill_t(a) config; width = a\nill_ Ill_t(1, 2)"}, {"too many arguments", "type Ill_t config\nill_ Ill_t(1)"}, {"too many arguments", "type Ill_t(a = 1, b = 2) config; width = a + b\nill_ Ill_t(1, 2, 3)"}, {"too many arguments", "type Ill_t(a) config; width = a\ntype Ill_u Ill_t(1, 2)\nill_ Ill_u"},
		{"unknown argument", "type Ill_t(a = 1) config; width = a\nill_ Ill_t(b = 2)"}, {"unknown argument", "type Ill_t(a = 1, b = 2) config; width = a\nill_ Ill_t(1, c = 2)"}, {"unknown argument", "type Ill_t(a = 1) config; width = a\nill_ Ill_t(A = 2)"},
		{"argument given twice", "type Ill_t(a = 1, b = 2) config; width = a\nill_ Ill_t(a = 1, a = 2)"}, {"argument given twice", "type Ill_t(a = 1, b = 2) config; width = a\nill_ Ill_t(1, a = 2)"}, {"argument given twice", "type Ill_t(a = 1, b = 2, c = 3) config; width = a\nill_ Ill_t(1, 2, b = 2)"},
		{"positional argument after keyword", "type Ill_t(a = 1, b = 2) config; width = a\nill_ Ill_t(a = 1, 2)"}, {"positional argument after keyword", "type Ill_t(a = 1, b = 2) config; width = a\nill_ Ill_t(b = 1, 2)"},
		{"empty argument list", "type Ill_t(a = 1) config; width = a\nill_ Ill_t()"}, {"empty parameter list", "type Ill_t() config\nill_ Ill_t"},
		{"parameter given twice", "type Ill_t(a, a) config; width = a\nill_ Ill_t(1, 1)"}, {"parameter given twice", "type Ill_t(a, b, a = 1) config; width = a\nill_ Ill_t(1, 1)"},
		{"parameter order", "type Ill_t(a = 1, b) config; width = a\nill_ Ill_t(1, 1)"}, {"parameter order", "type Ill_t(a, b = 1, c) config; width = a\nill_ Ill_t(1, 1, 1)"},
		{"bad argument type", "type Ill_t(a) config; width = a\nill_ Ill_t(true)"}, {"bad argument type", "type Ill_t(a) config; width = a\nill_ Ill_t(a = 1.5)"}, {"bad argument value", "type Ill_t(a) config; width = 3 - a\nill_ Ill_t(4)"}, {"bad default value", "type Ill_t(a = -1) config; width = a\nill_ Ill_t"},
		{"array of unusable size", "type Ill_t(a) config\nill_ [0 - 1]Ill_t(1)"},
		{"type of itself", "type Ill_t Ill_t\nill_ Ill_t"}, {"types of each other", "type Ill_a Ill_b\ntype Ill_b Ill_a\nill_ Ill_a"}, {"types of each other", "type Ill_a Ill_b\ntype Ill_b Ill_c\ntype Ill_c Ill_a\nill_ Ill_c"},
		{"type containing itself", "type Ill_t block\n  x Ill_t\nill_ Ill_t"}, {"type containing itself", "type Ill_a block\n  x Ill_b\ntype Ill_b block\n  y Ill_a\nill_ Ill_a"}, {"type containing itself", "type Ill_a block\n  c config\n  x block\n    y block\n      z Ill_a\nill_ Ill_a"},
		{"constant of itself", "const Ill_c = Ill_c"}, {"constant of itself", "const Ill_c = Ill_c + 1"}, {"constants of each other", "const Ill_a = Ill_b\nconst Ill_b = Ill_a"}, {"constants of each other", "const Ill_a = 1 + Ill_b\nconst Ill_b = 2 * Ill_c\nconst Ill_c = log2(Ill_a)"},
		{"redefined constant", "const Ill_c = 1\nconst Ill_c = 2"}, {"redefined constant", "const Ill_c = 1\nconst Ill_d = 1\nconst Ill_c = 1"}, {"redefined constant", "const\n  Ill_c = 1\n  Ill_c = 2"}, {"redefined constant", "const Ill_c = 1\nill_ config\nconst\n  Ill_d = 1\n  Ill_c = 2"}, {"redefined constant in a leaf", "ill_ config\n  const A = 1\n  const A = 2"},
		{"redefined type", "type Ill_t config\ntype Ill_t config"}, {"redefined type", "type Ill_t config\nill_ Ill_t\ntype Ill_u config\ntype Ill_t status; width = 3"},
		{"constant of an ancestor type", "type Ill_t block\n  const A = 1\n  c config\nill_ Ill_t\n  const A = 1"}, {"constant of an ancestor type", "type Ill_t group\n  const A = 1\n  c config\ntype Ill_u Ill_t\nill_ Ill_u\n  const A = true"},
		{"functionality of an ancestor type", "type Ill_t block\n  c config\ntype Ill_u Ill_t\n  d config\nill_ Ill_u\n  c status"},
		{"functionality of an ancestor type", "type Ill_t proc\n  c param\nill_ Ill_t\n  c return"},
		{"functionality of an ancestor type", "type Ill_t stream\n  c param\nill_ Ill_t\n  c param"},
		{"functionality of an ancestor type", "type Ill_t group\n  c param\nill_ Ill_t\n  c param"},
		{"value that does not fit through a type", "type Ill_t(w) config; width = w\nill_ Ill_t(3); init-value = 8"}, {"value that does not fit through a type", "type Ill_t(v) static; width = 3; init-value = v\nill_ Ill_t(8)"}, {"value that does not fit through a type", "type Ill_t(v) mask; init-value = v\nill_ Ill_t(b\"1101\"); width = 3"},
		{"value that does not fit the range", "ill_ config; range = 7; init-value = 8"}, {"value that does not fit the range", "type Ill_t config; init-value = 9\nill_ Ill_t; range = [0:1, 4:7]"},
		{"import in a body", "import \"x\""}, {"import in a body", "ill_ block\n  import \"x\"\n  c config"},
		{"keyword as name", "const const = 1"}, {"keyword as name", "type type config"}, {"keyword as name", "const true = 1"}, {"keyword as name", "type config config"}, {"keyword as name", "type false config"}, {"keyword as name", "const import = 1"},
	} {
		body(s.rule, s.t)
	}
	systematicLists(body)
	redefinitions(func(rule, t, ok string) { add(ill{rule: rule, body: t, okBody: ok}) })
	far(func(rule, t, ok string) { add(ill{rule: rule, body: t, okBody: ok}) })
	// --- syntax
	for _, t := range []string{
		"ill_", "ill_ []config", "ill_ [2 config", "ill_ 2]config", "ill_ [2][3]config", "ill_ [2, 3]config", "ill_ config; width 3", "ill_ config; width =", "ill_ config; = 3", "ill_ config width = 3", "ill_ = 3", "ill_ config; width == 3",
		"ill_ [3]", "ill_ config config", "ill_ config, width = 3", "ill_ config; width = 3,", "ill_ config; width = 3;", "ill_ config;", "ill_ config;; width = 3", "ill_ config; width = 3;; atomic = true", "ill_ config: width = 3", "ill_ config{}", "ill_ config width", "ill_ config; 3",
		"const", "const = 1", "const A", "const A =", "const 3 = 1", "const A 1", "const A == 1", "const A = 1; const B = 2", "const A = 1 const B = 2", "const A = 1, B = 2", "const A, B = 1, 2", "const\n  A", "const\n  A = ", "const\n  A = 1; B = 2", "const\n  A = 1 B = 2", "const\n  1 = A", "const A.b = 1",
		"type", "type T", "type 3 config", "type T = config", "type T config,", "type T(a config", "type T(a,) config", "type T(,a) config", "type T(a b) config", "type T(1) config", "type T(a =) config", "type T(a = 1; b) config", "type T [config", "type T.u config", "type (a) T config",
		"ill_ T(", "ill_ T(1", "ill_ T(a = )", "ill_ T(= 1)", "ill_ T(1 2)", "ill_ T(, 1)", "ill_ T(a == 1)", "ill_ (1)T", "ill_ T 1", "ill_ T[3]",
		"3", "\"abc\"", "true", "1 + 2", "[1]", "(1)", "b\"1\"", "= 3", "; width = 3", ", a", ": 3", ")", "]", "}", "{", "@", "ill_ config $", "ill_ config # comment\n   \t", "ill_ config\\", "ill-a config", "ill.a config", "1ill config", "ill_ con-fig",
		"ill_ block; masters = 1\n  c config", "ill_ config; width = 3\n  atomic = true", "ill_ config\n    width = 3", "ill_ config\n   width = 3", "ill_ config\n width = 3", "ill_ config\n\twidth = 3", "ill_ config\n  width = 3\n    atomic = true", "const A = 1\n  const B = 2", "const\n  A = 1\n    B = 2",
		"ill_ config ", "ill_ config; width = 3  ", "ill_ config\n  width = 3 ", " ", "   ", "ill_ config;  width = \"abc",
		"ill_ static; init-value = b\"12\"", "ill_ static; init-value = x\"1", "ill_ static; init-value = o\"1\n", "ill_ static; init-value = b\"0 1\"", "ill_ status; access = 0",
	} {
		body("syntax", t)
	}
	for _, x := range syntaxBad {
		for _, t := range []string{"ill_ config; width = %s", "const Ill_c = %s", "ill_ [%s]config", "type Ill_t [%s]config", "type Ill_t(a = %s) config", "ill_ config\n  init-value = %s\n  atomic = true"} {
			if strings.Contains(t, " [%s]") && x == "1]" || x == "1 ; 2" && strings.Contains(t, "; %") {
				continue
			}
			if x == "a b" && strings.Contains(t, " [%s]") || x == "f(1)" {
				continue
			}
			if strings.HasPrefix(t, "type") && x == "1 , 2" {
				continue
			}
			body("malformed expression", fmt.Sprintf(t, x))
		}
	}
	for _, x := range badExprs {
		for _, t := range []string{"ill_ config; width = %s", "const Ill_c = %s", "ill_ [%s]config", "type Ill_t(a = %s) config; width = a\nill_ Ill_t", "type Ill_t(a) config; width = a\nill_ Ill_t(%s)", "type Ill_t(a) config; width = a\nill_ Ill_t(a = 1 + (%s))", "ill_ block\n  masters = %s\n  c config", "ill_ block\n  const\n    Ill_c = 1\n    Ill_d = [2, %s]\n  c config", "const Ill_c = %s\nill_ config; width = Ill_c", "ill_ irq; clear = %s", "ill_ config; range = %s", "ill_ config; range = [0:1, %s]", "ill_ proc; delay = %s"} {
			body("undefined expression", fmt.Sprintf(t, x))
		}
	}
	// --- package level
	for _, k := range allKinds {
		if k == "bus" {
			continue
		}
		it := minimal(&Gen{}, k, "ill_", "").item()
		add(ill{rule: "package level " + k, top: printItems([]*Item{it}, canonical()), pkg: true})
		t := &Item{K: "type", Name: "Ill_t", Base: k, Body: it.Body}
		add(ill{rule: "package level " + k + " of a user type", top: printItems([]*Item{t, {K: "inst", Name: "ill_", Base: "Ill_t"}}, canonical()), pkg: true})
	}
	for _, x := range badExprs {
		add(ill{rule: "undefined package constant", top: "const Ill_c = " + x + "\n", pkg: true})
	}
	for _, x := range []struct{ rule, t string }{
		{"redefined package constant", "const Ill_c = 1\nconst Ill_c = 2\n"}, {"redefined package constant", "const Ill_c = 1\ntype Ill_t config\nconst\n  Ill_d = 2\n  Ill_c = 2\n"}, {"redefined package type", "type Ill_t config\ntype Ill_t status\n"},
		{"unknown type", "type Ill_t nosuch\n"}, {"unknown package", "type Ill_t nosuch.T\n"}, {"unknown type", "type Ill_t(a) block\n  c nosuch\n"}, {"argument list of base type", "type Ill_t config(1)\n"}, {"type of itself", "type Ill_t Ill_t\n"}, {"types of each other", "type Ill_a Ill_b\ntype Ill_b Ill_a\n"},
		{"missing package", "import \"nosuchpkg\"\n"}, {"missing package", "import x \"nosuchpkg/fbd-x\"\n"}, {"missing package", "import\n  \"nosuchpkg\"\n"}, {"missing package", "import y\n"}, {"syntax", "import\n"}, {"syntax", "import 3\n"}, {"syntax", "import \"a\n"}, {"syntax", "import x y \"z\"\n"}, {"syntax", "import \"x\", \"y\"\n"}, {"syntax", "import \"x\"; \"y\"\n"}, {"syntax", "import x = \"y\"\n"}, {"syntax", "import\n  \"x\" \"y\"\n"}, {"syntax", "import \"x\" import \"y\"\n"}, {"syntax", "import\nconst A = 1\n"},
		{"property at package level", "width = 3\n"}, {"syntax", "; width = 3\n"}, {"syntax", "type Ill_t(a) config; width = a; b\n"}, {"syntax", "3\n"}, {"syntax", "const\n"}, {"syntax", "type\n"}, {"syntax", "const A = 1 type T config\n"}, {"syntax", "\"abc\"\n"}, {"indented", "const A = 1\n  const B = 2\n"}, {"tab", "const\tA = 1\n"}, {"syntax", "# comment\n  # indented comment\n  const A = 1\n  x\n"},
		{"reinstantiation", "ill_ bus\n  c config\nill_ bus\n  c config\n"}, {"unterminated string", "const A = \"abc\n"}, {"carriage return", "const A = 1\r\n"}, {"byte order mark", "\xef\xbb\xbfconst A = 1\n"}, {"null byte", "const A = 1\x00\n"},
	} {
		add(ill{rule: "package level, " + x.rule, top: x.t, pkg: true})
	}
	for _, p := range []string{"a", "fbd-a", "x/fbd-a", "a.fbd", "a/", "A", "fbd-fbd-a"} {
		add(ill{rule: "missing package", top: "import \"" + p + "zz\"\n", pkg: true})
	}
	proj := func(rule string, f func(r *rand.Rand, f Files) bool) { add(ill{rule: rule, proj: f}) }
	proj("bus in another package", func(r *rand.Rand, f Files) bool {
		f["fbd-illp/a.fbd"] = "ill_ bus\n  c config\n"
		return true
	})
	proj("bus of a user type in another package", func(r *rand.Rand, f Files) bool {
		f["fbd-illp/a.fbd"] = "type Ill_t bus\n  c config\nill_ Ill_t\n"
		return true
	})
	proj("constant redefined in another file", func(r *rand.Rand, f Files) bool {
		f["fbd-illp/a.fbd"] = "const Ill_c = 1\n"
		f["fbd-illp/b.fbd"] = "type T config\nconst Ill_c = 1\n"
		return true
	})
	proj("type redefined in another file", func(r *rand.Rand, f Files) bool {
		f["fbd-illp/a.fbd"] = "const A = 3\ntype Ill_t config\n"
		f["fbd-illp/b.fbd"] = "type Ill_t config\n"
		return true
	})
	proj("ambiguous import", func(r *rand.Rand, f Files) bool {
		f["x/fbd-illp/a.fbd"] = "const A = 3\n"
		f["y/fbd-illq/a.fbd"] = "const A = 3\n"
		f["z/fbd-illp/sub/fbd-illp/a.fbd"] = "const A = 4\n"
		f["x/fbd-illp/sub/x.txt"] = ""
		f["bus.fbd"] = "import i1 \"illp\"\n" + f["bus.fbd"]
		return true
	})
	for _, t := range []string{"import \"illp\"\nimport \"illp\"\n", "import illp \"illq\"\nimport \"illp\"\n", "import a \"illp\"\nimport a \"illq\"\n", "import\n  \"illp\"\n  illp \"illq\"\n"} {
		proj("import name used twice", func(r *rand.Rand, f Files) bool {
			f["x/fbd-illp/a.fbd"] = "const A = 3\n"
			f["x/fbd-illq/a.fbd"] = "const A = 3\n"
			f["bus.fbd"] = t + f["bus.fbd"]
			return true
		})
	}
	for _, t := range []string{"const Ill_c = illp.B\n", "type Ill_t illp.U\n", "const Ill_c = illp.T\n", "type Ill_t illp.A\n", "type Ill_t illp.T(1)\n", "const Ill_c = illp.a\n", "const Ill_c = Illp.A\n", "type Ill_t illp.T\ntype Ill_u Ill_t(2)\n", "const Ill_c = T\n", "const Ill_c = A + 1\n", "type Ill_t T\n"} {
		proj("unknown symbol of a package", func(r *rand.Rand, f Files) bool {
			f["x/fbd-illp/a.fbd"] = "const A = 3\ntype T config\n"
			f["bus.fbd"] = "import \"illp\"\n" + f["bus.fbd"] + t
			return true
		})
	}
	proj("import of another file", func(r *rand.Rand, f Files) bool {
		f["x/fbd-illp/a.fbd"] = "import \"illq\"\nconst A = illq.A\n"
		f["x/fbd-illp/b.fbd"] = "const B = illq.A\n"
		f["x/fbd-illq/a.fbd"] = "const A = 3\n"
		return true
	})
	proj("constants of each other in packages", func(r *rand.Rand, f Files) bool {
		f["x/fbd-illp/a.fbd"] = "import \"illq\"\nconst A = illq.A\n"
		f["x/fbd-illq/a.fbd"] = "import \"illp\"\nconst A = illp.A\n"
		return true
	})
	proj("no main bus", func(r *rand.Rand, f Files) bool {
		f["bus.fbd"] = strings.Replace(f["bus.fbd"], "main bus", pick(r, "Main", "mai", "main1", "x")+" bus", 1)
		return true
	})
	proj("main bus of another base type", func(r *rand.Rand, f Files) bool {
		k := pick(r, "block", "config", "group", "proc", "status")
		f["bus.fbd"] = fmt.Sprintf("type Ill_t %s\n%s", k, map[string]string{"group": "  c config\n", "block": "  c config\n"}[k]) + "main Ill_t\n"
		return true
	})
	proj("empty description", func(r *rand.Rand, f Files) bool {
		f["bus.fbd"] = pick(r, "", "\n", "# main bus\n", "const A = 1\n", "\n\n\n")
		return true
	})
	add(ill{rule: "no bus of the requested name", args: []string{"-main", "nosuch"}, proj: func(r *rand.Rand, f Files) bool { return true }})

	// --- text
	txt := func(rule string, f func(r *rand.Rand, t string) (string, bool)) {
		for range 12 {
			add(ill{rule: "text: " + rule, text: f})
		}
	}
	line := func(t string, ok func(l []string, k int) bool, r *rand.Rand, f func(l []string, k int)) (string, bool) {
		l := strings.Split(strings.TrimSuffix(t, "\n"), "\n")
		var ks []int
		in := inString(t)
		for k := range l {
			if !in[k] && !strings.HasPrefix(strings.TrimLeft(l[k], " "), "#") && ok(l, k) {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			return t, false
		}
		f(l, ks[r.Intn(len(ks))])
		return strings.Join(l, "\n") + "\n", true
	}
	code := func(l []string, k int) bool { return strings.TrimSpace(l[k]) != "" && !strings.Contains(l[k], "#") }
	txt("space at line end", func(r *rand.Rand, t string) (string, bool) {
		return line(t, code, r, func(l []string, k int) { l[k] += strings.Repeat(" ", 1+r.Intn(4)) })
	})
	txt("tab", func(r *rand.Rand, t string) (string, bool) {
		return line(t, func(l []string, k int) bool { return code(l, k) && !strings.Contains(l[k], `"`) }, r, func(l []string, k int) {
			switch p := strings.IndexByte(strings.TrimLeft(l[k], " "), ' '); {
			case r.Intn(3) == 0 || p < 0:
				l[k] = "\t" + l[k]
			case r.Intn(2) == 0:
				l[k] += "\t"
			default:
				p += len(l[k]) - len(strings.TrimLeft(l[k], " "))
				l[k] = l[k][:p] + pick(r, "\t", " \t", "\t ") + l[k][p+1:]
			}
		})
	})
	txt("odd indent", func(r *rand.Rand, t string) (string, bool) {
		return line(t, func(l []string, k int) bool { return code(l, k) && k > 0 }, r, func(l []string, k int) { l[k] = " " + l[k] })
	})
	txt("indent of two levels", func(r *rand.Rand, t string) (string, bool) {
		for _, in := range inString(t) {
			if in {
				return t, false
			}
		}
		return line(t, func(l []string, k int) bool { return code(l, k) && k > 0 }, r, func(l []string, k int) {
			// deeper by two levels than the preceding line which is not empty, whether it is code or a comment
			n := 4 - ind(l[k])
			for j := k - 1; j >= 0; j-- {
				if strings.TrimSpace(l[j]) != "" {
					n += ind(l[j])
					break
				}
			}
			l[k] = strings.Repeat(" ", max(n, 4)+2*r.Intn(3)) + l[k]
		})
	})
	txt("first line indented", func(r *rand.Rand, t string) (string, bool) { return "  " + t, code(strings.Split(t, "\n"), 0) })
	txt("invalid byte", func(r *rand.Rand, t string) (string, bool) {
		return line(t, func(l []string, k int) bool { return code(l, k) && !strings.Contains(l[k], `"`) }, r, func(l []string, k int) {
			n := ind(l[k])
			p := n + r.Intn(len(l[k])-n+1)
			l[k] = l[k][:p] + pick(r, "@", "$", "?", "~", "^", "`", "\\", "'", "{", "}", "\x00", "\r", "\x7f", "\xc5\x82", "\xff", "\v", "\f") + l[k][p:]
		})
	})
	txt("odd number of quotes", func(r *rand.Rand, t string) (string, bool) {
		if strings.Contains(t, "#") || strings.Count(t, `"`)%2 == 1 {
			return t, false
		}
		return line(t, func(l []string, k int) bool { return strings.Contains(l[k], `"`) && strings.Count(l[k], `"`)%2 == 0 }, r, func(l []string, k int) {
			p := strings.LastIndexByte(l[k], '"')
			l[k] = l[k][:p] + l[k][p+1:]
		})
	})
	txt("semicolon at line end", func(r *rand.Rand, t string) (string, bool) {
		return line(t, code, r, func(l []string, k int) { l[k] += pick(r, ";", " ;", ";;") })
	})
	txt("punctuation at line end", func(r *rand.Rand, t string) (string, bool) {
		return line(t, code, r, func(l []string, k int) {
			l[k] += pick(r, ",", ")", "]", " =", " + ", " *", ":", " :", " 5", " foo", "(", "[", " \"a\"", " b\"1\"", " true", "**")
		})
	})
	txt("unbalanced parenthesis", func(r *rand.Rand, t string) (string, bool) {
		return line(t, func(l []string, k int) bool {
			return code(l, k) && strings.ContainsAny(l[k], "()[]") && !strings.Contains(l[k], `"`)
		}, r, func(l []string, k int) {
			var ps []int
			for p := range l[k] {
				if strings.IndexByte("()[]", l[k][p]) >= 0 {
					ps = append(ps, p)
				}
			}
			p := ps[r.Intn(len(ps))]
			l[k] = l[k][:p] + l[k][p+1:]
		})
	})
	txt("missing value", func(r *rand.Rand, t string) (string, bool) {
		return line(t, func(l []string, k int) bool { return code(l, k) && strings.Contains(l[k], "= ") }, r, func(l []string, k int) { l[k] = l[k][:strings.Index(l[k], "= ")+1] })
	})
	txt("missing equality sign", func(r *rand.Rand, t string) (string, bool) {
		return line(t, func(l []string, k int) bool {
			return code(l, k) && strings.Contains(l[k], " = ") && !strings.Contains(l[k], `"`)
		}, r, func(l []string, k int) { l[k] = strings.Replace(l[k], " = ", " ", 1) })
	})
	return l
}

func ind(l string) int { return len(l) - len(strings.TrimLeft(l, " ")) }

// inString tells which lines start inside of a string literal.
func inString(t string) map[int]bool {
	m := map[int]bool{}
	n, str, com := 0, false, false
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '\n':
			n++
			com = false
			m[n] = str
		case com:
		case t[i] == '"':
			str = !str
		case t[i] == '#' && !str:
			com = true
		}
	}
	return m
}

// holder wraps items of a kind that may not be directly in a block.
func holder(kind string, l ...*Item) string {
	return holderText(kind, strings.TrimSuffix(printItems(l, canonical()), "\n"))
}

func holderText(kind, t string) string {
	if kind == "param" || kind == "return" {
		return "ill_h proc\n" + indent(t, 1)
	}
	return t
}

// systematicLists enumerates short lists of parameters, arguments, constants, types, properties and inner functionalities
// that break exactly one rule: equal names at any two positions, orders and names that are not allowed.
func systematicLists(body func(rule, t string)) {
	// Parameters: one pair of equal names, or a required parameter after an optional one.
	for n := 2; n <= 5; n++ {
		for mask := 0; mask < 1<<uint(n); mask++ {
			ordered := true
			for k := 1; k < n; k++ {
				if mask>>uint(k-1)&1 == 1 && mask>>uint(k)&1 == 0 {
					ordered = false
				}
			}
			list := func(i, j int) string {
				var l []string
				for k := 0; k < n; k++ {
					x := fmt.Sprintf("p%d", k)
					if k == j {
						x = fmt.Sprintf("p%d", i)
					}
					if mask>>uint(k)&1 == 1 {
						x += fmt.Sprintf(" = %d", k+1)
					}
					l = append(l, x)
				}
				return strings.Join(l, ", ")
			}
			var args []string
			for k := 0; k < n; k++ {
				if mask>>uint(k)&1 == 0 {
					args = append(args, fmt.Sprint(k+1))
				}
			}
			inst := "ill_ Ill_t"
			if len(args) > 0 {
				inst += "(" + strings.Join(args, ", ") + ")"
			}
			if !ordered {
				if n < 5 {
					body("parameter order", "type Ill_t("+list(-1, -1)+") config; width = p0\n"+inst)
				}
				continue
			}
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					body("parameter given twice", "type Ill_t("+list(i, j)+") config; width = p0\n"+inst)
				}
			}
		}
	}
	// Arguments: all lists of up to 3 positional and named ones.
	for n := 1; n <= 3; n++ {
		for req := 0; req <= n; req++ {
			var ps []string
			for k := 0; k < n; k++ {
				x := fmt.Sprintf("p%d", k)
				if k >= req {
					x += fmt.Sprintf(" = %d", k+1)
				}
				ps = append(ps, x)
			}
			var rec func(l []int)
			rec = func(l []int) {
				// -1 is a positional argument, n is a name that no parameter has.
				rule := ""
				given := map[int]bool{}
				named := false
				var as []string
				for k, a := range l {
					v := fmt.Sprint(4 + k)
					if a == -1 {
						if named && rule == "" {
							rule = "positional argument after keyword"
						}
						if given[k] && rule == "" {
							rule = "argument given twice"
						}
						given[k] = true
						as = append(as, v)
						continue
					}
					named = true
					if a == n && rule == "" {
						rule = "unknown argument"
					}
					if given[a] && rule == "" {
						rule = "argument given twice"
					}
					given[a] = true
					as = append(as, fmt.Sprintf("p%d = %s", a, v))
				}
				if len(l) > n {
					rule = "too many arguments"
				}
				for k := 0; k < req; k++ {
					if !given[k] && rule == "" {
						rule = "missing argument"
					}
				}
				if rule != "" {
					inst := "Ill_t"
					if len(as) > 0 {
						inst += "(" + strings.Join(as, ", ") + ")"
					}
					t := "type Ill_t(" + strings.Join(ps, ", ") + ") config; width = p0\n"
					if len(l) == 3 && (l[0]+l[1]+l[2])%2 == 0 {
						body(rule, t+"type Ill_u "+inst+"\nill_ Ill_u")
					} else {
						body(rule, t+"ill_ "+inst)
					}
				}
				if len(l) < 3 || len(l) == 3 && n == 3 && l[0] == -1 && l[1] == -1 {
					for a := -1; a <= n; a++ {
						rec(append(append([]int(nil), l...), a))
					}
				}
			}
			rec(nil)
		}
	}
	// Equal names and properties at any two positions.
	props := []string{"atomic = true", "init-value = 1", "read-value = 2", "reset-value = 3", "width = 7"}
	for n := 2; n <= 5; n++ {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				names := make([]string, n)
				ps := append([]string(nil), props[:n]...)
				for k := range names {
					names[k] = fmt.Sprintf("n%d", k)
				}
				names[j], ps[j] = names[i], ps[i]
				join := func(format, sep string) string {
					var l []string
					for k, x := range names {
						l = append(l, strings.NewReplacer("NAME", x, "K", fmt.Sprint(k+1)).Replace(format))
					}
					return strings.Join(l, sep)
				}
				body("redefined constant", "ill_ block\n  c config\n"+join("  const NAME = K", "\n"))
				body("redefined constant", "ill_ block\n  const\n"+join("    NAME = K", "\n"))
				body("redefined constant in a type", "type Ill_t group\n  c config\n"+join("  const NAME = K", "\n")+"\nill_ Ill_t")
				body("redefined type", "ill_ block\n  c config\n"+join("  type NAME config; width = K", "\n"))
				body("redefined functionality", "ill_ block\n"+join("  NAME config; width = K", "\n"))
				body("redefined functionality", "ill_ group\n"+join("  NAME status; width = K", "\n"))
				body("redefined functionality", "ill_ proc\n"+join("  NAME param; width = K", "\n"))
				body("redefined functionality", "ill_ stream\n"+join("  NAME return; width = K", "\n"))
				body("property given twice", "ill_ config; "+strings.Join(ps, "; "))
				body("property given twice", "ill_ mask\n  "+strings.Join(ps, "\n  "))
				body("property given twice", "type Ill_t config\n  "+strings.Join(ps, "\n  ")+"\nill_ Ill_t")
				for cut := i + 1; cut <= j; cut++ {
					body("property given twice through a type", "type Ill_t config; "+strings.Join(ps[:cut], "; ")+"\nill_ Ill_t; "+strings.Join(ps[cut:], "; "))
				}
			}
		}
	}
}

// redefinitions calls body for redefinitions of constants and functionalities
// of ancestor types, together with the same text without the redefinition.
func redefinitions(body func(rule, t, ok string)) {
	nest := func(head string, l []string) string { return head + "\n" + indent(strings.Join(l, "\n"), 1) }
	// through renders a base, the defect being in the descendant of a type.
	through := func(kind string, base []string, x string, chain int) string {
		t := nest("type Ill_t "+kind, base)
		last := "Ill_t"
		for k := 1; k < chain; k++ {
			t += fmt.Sprintf("\ntype Ill_t%d %s", k, last)
			last = fmt.Sprintf("Ill_t%d", k)
		}
		return t + "\n" + nest("ill_ "+last, []string{x})
	}
	vals := []struct{ n, v string }{{"bool", "true"}, {"bool list", "[true, false]"}, {"float", "1.5"}, {"integer", "3"}, {"integer list", "[1, 2]"}, {"string", `"s"`}}
	for _, kind := range []string{"block", "group"} {
		for _, a := range vals {
			for _, b := range vals {
				base := []string{"const Ill_a = " + a.v, "c_ config", "const Ill_b = " + a.v}
				for _, n := range []string{"Ill_a", "Ill_b"} {
					ok := "const Ill_n = " + b.v
					bad := "const " + n + " = " + b.v
					for chain := 1; chain <= 2; chain++ {
						body(fmt.Sprintf("%s constant of an ancestor type redefined as %s", a.n, b.n), through(kind, base, bad, chain), through(kind, base, ok, chain))
					}
					body(fmt.Sprintf("%s constant redefined as %s", a.n, b.n), nest("ill_ "+kind, append(base[:3:3], bad)), nest("ill_ "+kind, append(base[:3:3], ok)))
				}
			}
		}
	}
	for _, kind := range []string{"block", "group", "proc", "stream"} {
		for _, a := range kindInner[kind] {
			for _, b := range kindInner[kind] {
				if a != b && (kind == "stream" || kind == "group") {
					continue
				}
				text := func(k, n string) string {
					return strings.TrimRight(printItems([]*Item{minimal(&Gen{}, k, n, "").item()}, canonical()), "\n")
				}
				base := []string{text(a, "ill_0"), text(a, "ill_1"), text(a, "ill_2")}
				for n := 0; n < 3; n++ {
					for chain := 1; chain <= 2; chain++ {
						body(fmt.Sprintf("%s of an ancestor %s type redefined as %s", a, kind, b), through(kind, base, text(b, fmt.Sprintf("ill_%d", n)), chain), through(kind, base, text(b, "ill_n"), chain))
					}
					body(fmt.Sprintf("%s redefined as %s in %s", a, b, kind), nest("ill_ "+kind, append(base[:3:3], text(b, fmt.Sprintf("ill_%d", n)))), nest("ill_ "+kind, append(base[:3:3], text(b, "ill_n"))))
				}
			}
		}
	}
}

// far calls body for rules broken in the last places of long lists.
func far(body func(rule, t, ok string)) {
	nest := func(head string, l []string) string { return head + "\n" + indent(strings.Join(l, "\n"), 1) }
	for _, n := range []int{20, 70} {
		pairs := [][2]int{{0, n - 1}, {n - 2, n - 1}, {n / 2, n/2 + 1}, {17, n - 1}}
		list := func(f func(k int, name string) string, j int, name string) []string {
			var l []string
			for k := 0; k < n; k++ {
				x := fmt.Sprintf("n%d", k)
				if k == j {
					x = name
				}
				l = append(l, f(k, x))
			}
			return l
		}
		for _, p := range pairs {
			dup := fmt.Sprintf("n%d", p[0])
			own := fmt.Sprintf("n%d", p[1])
			// names
			for _, k := range []string{"block config", "block status", "block mask", "block irq", "block proc", "block stream", "block block", "block group", "block blackbox", "block static", "group status", "group config", "group irq", "proc param", "proc return", "stream param", "stream return", "group param", "group return"} {
				kind, sub, _ := strings.Cut(k, " ")
				f := func(_ int, x string) string {
					return strings.TrimRight(printItems([]*Item{minimal(&Gen{}, sub, x, "").item()}, canonical()), "\n")
				}
				body(fmt.Sprintf("%s redefined in a long %s", sub, kind), nest("ill_ "+kind, list(f, p[1], dup)), nest("ill_ "+kind, list(f, p[1], own)))
				if p[0] != 0 {
					l, m := list(f, -1, ""), f(0, dup)
					body(fmt.Sprintf("%s of a long ancestor %s type redefined", sub, kind), nest("type Ill_t "+kind, l)+"\n"+nest("ill_ Ill_t", []string{m}), nest("type Ill_t "+kind, l)+"\n"+nest("ill_ Ill_t", []string{f(0, "ill_n")}))
				}
			}
			cnst := func(k int, x string) string { return fmt.Sprintf("const %s = %d", x, k) }
			typ := func(k int, x string) string { return fmt.Sprintf("type %s config; width = %d", x, k+1) }
			c := []string{"c_ config"}
			body("constant redefined in a long list", nest("ill_ block", append(c[:1:1], list(cnst, p[1], dup)...)), nest("ill_ block", append(c[:1:1], list(cnst, p[1], own)...)))
			body("type redefined in a long list", nest("ill_ block", append(c[:1:1], list(typ, p[1], dup)...)), nest("ill_ block", append(c[:1:1], list(typ, p[1], own)...)))
			body("constant of a long ancestor type redefined", nest("type Ill_t group", append([]string{"c_ status"}, list(cnst, -1, "")...))+"\n"+nest("ill_ Ill_t", []string{cnst(0, dup)}), nest("type Ill_t group", append([]string{"c_ status"}, list(cnst, -1, "")...))+"\n"+nest("ill_ Ill_t", []string{cnst(0, "ill_n")}))
			// parameters and arguments
			par := func(k int, x string) string { return fmt.Sprintf("%s = %d", x, k+1) }
			params := strings.Join(list(par, -1, ""), ", ")
			body("parameter redefined in a long list", "type Ill_t("+strings.Join(list(par, p[1], dup), ", ")+") config; width = n0\nill_ Ill_t", "type Ill_t("+params+") config; width = n0\nill_ Ill_t")
			body("argument given twice in a long list", "type Ill_t("+params+") config; width = n0\nill_ Ill_t("+strings.Join(list(par, p[1], dup), ", ")+")", "type Ill_t("+params+") config; width = n0\nill_ Ill_t("+params+")")
			body("unknown argument in a long list", "type Ill_t("+params+") config; width = n0\nill_ Ill_t("+strings.Join(list(par, p[1], "nosuch"), ", ")+")", "type Ill_t("+params+") config; width = n0\nill_ Ill_t("+params+")")
			one := func(k int, x string) string {
				if x == "REQ" {
					return fmt.Sprintf("m%d", k)
				}
				return par(k, x)
			}
			body("parameter without default value at the end of a long list", "type Ill_t("+strings.Join(list(one, p[1], "REQ"), ", ")+") config; width = n0\nill_ Ill_t("+strings.Join(list(func(k int, _ string) string { return fmt.Sprint(k + 1) }, -1, ""), ", ")+")", "type Ill_t("+params+") config; width = n0\nill_ Ill_t")
			// one wrong item of many
			for _, w := range []struct{ rule, kind, good, bad string }{
				{"wrong value type", "block", "%s config; width = 3", "%s config; width = true"},
				{"wrong value type", "group", "%s status; width = 3", "%s status; width = \"a\""},
				{"wrong value type", "proc", "%s param; width = 3", "%s param; width = -1"},
				{"wrong value type", "stream", "%s return; width = 3", "%s return; width = 1.5"},
				{"unknown property", "block", "%s mask; width = 3", "%s mask; range = 3"},
				{"unknown property", "proc", "%s return; width = 3", "%s return; range = 3"},
				{"unknown name", "block", "%s config; width = 3", "%s config; width = ILL_NOSUCH"},
				{"unknown name", "block", "const %s = 3", "const %s = ILL_NOSUCH"},
				{"unknown type", "block", "%s config", "%s ILL_nosuch"},
				{"inner functionality", "proc", "%s param", "%s config"},
				{"inner functionality", "stream", "%s param", "%s return"},
				{"inner functionality", "group", "%s status", "%s block"},
				{"value too wide", "block", "%s config; width = 3; init-value = 7", "%s config; width = 3; init-value = 8"},
				{"static without value", "block", "%s static; init-value = 1", "%s static"},
				{"negative array", "block", "%s [2]config", "%s [-2]config"},
				{"inverted range", "block", "%s config; range = 2:3", "%s config; range = 3:2"},
			} {
				f := func(_ int, x string) string {
					if strings.HasPrefix(x, "BAD") {
						return fmt.Sprintf(w.bad, "bad_")
					}
					return fmt.Sprintf(w.good, x)
				}
				var pre []string
				if strings.HasPrefix(w.good, "const") {
					pre = c
				}
				body(w.rule+" in a long "+w.kind, nest("ill_ "+w.kind, append(pre[:len(pre):len(pre)], list(f, p[1], "BAD")...)), nest("ill_ "+w.kind, append(pre[:len(pre):len(pre)], list(f, p[1], own)...)))
				if w.kind == "block" {
					body(w.rule+" in a long type", nest("type Ill_t block", append(c[:1:1], list(f, p[1], "BAD")...))+"\nill_ Ill_t", nest("type Ill_t block", append(c[:1:1], list(f, p[1], own)...))+"\nill_ Ill_t")
				}
			}
			// list items
			item := func(bad string) func(int, string) string {
				return func(k int, x string) string {
					if x == "BAD" {
						return bad
					}
					return fmt.Sprintf("%d:%d", 4*k, 4*k+2)
				}
			}
			for _, bad := range []string{"7", "true", fmt.Sprintf("%d:%d", 4*p[1]+2, 4*p[1]), "\"a\"", "-3:-2"} {
				body("wrong item of a long list of ranges", "ill_ config; range = ["+strings.Join(list(item(bad), p[1], "BAD"), ", ")+"]", "ill_ config; range = ["+strings.Join(list(item(bad), -1, ""), ", ")+"]")
			}
		}
	}
	// deep type chains
	for _, n := range []int{5, 20, 60} {
		chain := func(first string, at int, x string, props string) string {
			t := "type Ill_0 " + first + "\n"
			for k := 1; k <= n; k++ {
				t += fmt.Sprintf("type Ill_%d Ill_%d", k, k-1)
				if k == at {
					t += x
				}
				t += "\n"
			}
			return t + fmt.Sprintf("ill_ Ill_%d", n) + props
		}
		for _, at := range []int{1, n / 2, n} {
			body("property set twice along a long chain of types", chain("config; width = 3", at, "; width = 4", ""), chain("config; width = 3", at, "; atomic = true", ""))
			body("property set twice along a long chain of types", chain("config", at, "; width = 4", "; width = 4"), chain("config", at, "; width = 4", "; atomic = true"))
			body("range and width along a long chain of types", chain("config; range = 3", at, "; width = 4", ""), chain("config; range = 3", at, "; atomic = true", ""))
			body("range and width along a long chain of types", chain("config", at, "; width = 4", "; range = 3"), chain("config", at, "; width = 4", "; atomic = true"))
			body("functionality defined twice along a long chain of types", chain("block\n  x config", at, "\n  x status", ""), chain("block\n  x config", at, "\n  y status", ""))
			body("constant defined twice along a long chain of types", chain("block\n  x config\n  const C = 1", at, "\n  const C = 2", ""), chain("block\n  x config\n  const C = 1", at, "\n  const D = 2", ""))
			body("inner functionality along a long chain of types", chain("config", at, "\n  y status", ""), chain("block\n  x config", at, "\n  y status", ""))
			body("unknown property along a long chain of types", chain("status", at, "; init-value = 1", ""), chain("status", at, "; read-value = 1", ""))
		}
		body("long chain of types ending in no type", chain("nosuch", 0, "", ""), chain("config", 0, "", ""))
		body("long chain of types ending in itself", chain(fmt.Sprintf("Ill_%d", n), 0, "", ""), chain("config", 0, "", ""))
	}
}

func checkC12(c *Check) {
	c.rule = "valid designs in which exactly one rule of a catalogue is broken (properties x kinds x values, inner functionalities, names, types and arguments, groups, ranges, expressions, syntax, indentation, imports), in the main file or an imported package, directly, in nested blocks, through types and factored forms; " +
		"the same design without the defect is compiled as a control; non-trivial: distinct ill-formed projects whose control compiles"
	c.assume = []string{"rules not in the catalogue are not observed", "array sizes of zero, trailing commas, and unused definitions inside bodies that are never instantiated are not judged"}
	cat := illCatalogue()
	per := c.n(4, 16)
	n := len(cat) * per
	c.parallel(n, func(w *Worker, i int) {
		r := newRand(c.seed, "C12", i)
		x := cat[i%len(cat)]
		o := fullOpt(i)
		o.MaxElems, o.MaxDepth, o.BlockBias = 3, 1+r.Intn(3), 35
		d := genDesign(r, o)
		g := &Gen{r: r, o: o, bw: d.busWidth()}
		st := canonical
		if r.Intn(3) == 0 {
			st = func() *Style { return wild(r) }
		}
		var good, bad Files
		mode := "flat"
		switch {
		case x.design != nil:
			good = Files{"bus.fbd": d.flat()}
			b := d.clone()
			if !x.design(g, b) {
				c.count("not applicable", 1)
				return
			}
			switch {
			case x.plain || r.Intn(2) == 0:
				bad = Files{"bus.fbd": printItems([]*Item{b.item()}, st())}
			default:
				mode = "factored"
				f := newFactorer(r, r.Intn(3))
				factorProfile(f, r.Intn(5))
				bad = f.factor(b, st)
			}
		case x.body != "":
			raw := &Item{K: "raw", Name: x.body}
			holderItem := &Item{K: "inst", Name: "Ill_holder", Base: "block", Body: []*Item{{K: "raw", Name: "# ill"}, {K: "inst", Name: "c_", Base: "config"}}}
			it := d.item()
			var bodies []*Item
			var walk func(t *Item)
			walk = func(t *Item) {
				if t.Base == "block" || t.Base == "bus" {
					bodies = append(bodies, t)
				}
				for _, s := range t.Body {
					walk(s)
				}
			}
			walk(it)
			h := bodies[r.Intn(len(bodies))]
			at := -1
			put := func(b *Item, x *Item) {
				k := r.Intn(len(b.Body) + 1)
				if at >= 0 {
					k = at
				}
				b.Body = append(b.Body[:k:k], append([]*Item{x}, b.Body[k:]...)...)
			}
			// putOK places the text without the defect for the time of printing the control.
			okRaw := &Item{K: "raw", Name: x.okBody}
			putOK := func(b *Item, print func()) {
				if x.okBody == "" {
					print()
					return
				}
				saved := b.Body
				at = r.Intn(len(b.Body) + 1)
				b.Body = append([]*Item(nil), b.Body...)
				put(b, okRaw)
				print()
				b.Body = saved
			}
			good, bad = Files{}, Files{}
			switch r.Intn(4) {
			case 0, 1:
				putOK(h, func() {
					if x.okBody == "" {
						good["bus.fbd"] = printItems([]*Item{it}, canonical())
					} else {
						good["bus.fbd"] = printItems([]*Item{it}, bodyStyle())
					}
				})
				put(h, raw)
				// raw text after one line properties would end the body
				bad["bus.fbd"] = printItems([]*Item{it}, bodyStyle())
			case 2: // in a type of the main file
				mode = "type"
				put(h, &Item{K: "inst", Name: "Ill_holder", Base: "Ill_T"})
				ty := &Item{K: "type", Name: "Ill_T", Base: "block", Body: holderItem.Body}
				items := []*Item{it, ty}
				if r.Intn(2) == 0 {
					items = []*Item{ty, it}
				}
				putOK(ty, func() { good["bus.fbd"] = printItems(items, bodyStyle()) })
				ty.Body = append([]*Item(nil), ty.Body...)
				put(ty, raw)
				bad["bus.fbd"] = printItems(items, bodyStyle())
			case 3: // in a type of another package
				mode = "package"
				put(h, &Item{K: "inst", Name: "Ill_holder", Base: "illp.Ill_T"})
				ty := &Item{K: "type", Name: "Ill_T", Base: "block", Body: holderItem.Body}
				good["bus.fbd"] = printItems([]*Item{{K: "import", Path: "illp"}, it}, bodyStyle())
				good["lib/fbd-illp/a.fbd"] = "const Ill_z = 1\n"
				putOK(ty, func() { good["lib/fbd-illp/t.fbd"] = printItems([]*Item{ty}, bodyStyle()) })
				for k, v := range good {
					bad[k] = v
				}
				ty.Body = append([]*Item(nil), ty.Body...)
				put(ty, raw)
				bad["lib/fbd-illp/t.fbd"] = printItems([]*Item{ty}, bodyStyle())
			}
		case x.top != "":
			good, bad = Files{"bus.fbd": d.flat()}, Files{}
			target := "bus.fbd"
			if x.pkg && r.Intn(2) == 0 {
				target = "lib/fbd-illp/a.fbd"
				good[target] = "const Ill_z = 1\ntype Ill_z config\n"
				if r.Intn(2) == 0 {
					good["lib/fbd-illp/z.fbd"] = "const Ill_y = 1\n"
				}
				mode = "package"
			}
			for k, v := range good {
				bad[k] = v
			}
			if r.Intn(2) == 0 && !strings.HasPrefix(good[target], "#") {
				bad[target] = x.top + good[target]
			} else {
				bad[target] = good[target] + x.top
			}
		case x.text != nil:
			switch r.Intn(3) {
			case 0:
				good = Files{"bus.fbd": d.flat()}
			case 1:
				good = Files{"bus.fbd": printItems([]*Item{d.item()}, st())}
			case 2:
				mode = "factored"
				f := newFactorer(r, 1+r.Intn(2))
				good = f.factor(d, st)
			}
			bad = Files{}
			var ks []string
			for k, v := range good {
				bad[k] = v
				ks = append(ks, k)
			}
			sort.Strings(ks)
			k := ks[r.Intn(len(ks))]
			t, ok := x.text(r, good[k])
			if !ok {
				c.count("not applicable", 1)
				return
			}
			bad[k] = t
		case x.proj != nil:
			good, bad = Files{"bus.fbd": d.flat()}, Files{"bus.fbd": d.flat()}
			if !x.proj(r, bad) {
				return
			}
		}
		ctl := w.compile(good)
		if c.unusable(i, ctl, good, "control") {
			return
		}
		if ctl.Exit != 0 {
			c.violation(i, "control of "+x.rule+": a valid description does not compile: "+ctl.brief(), good, "")
			return
		}
		dir := w.project(bad)
		args := append([]string{"-c", "const.json"}, x.args...)
		if r.Intn(2) == 0 {
			args = x.args
		}
		res := w.runIn(dir, nil, args...)
		c.eval(1)
		c.judgeIll(i, x.rule+", "+mode, bad, dir, res)
		c.nontrivial(bad.text())
		c.seen("rules", x.rule)
		c.seen("rule and placement", x.rule+mode)
		cl, _, _ := strings.Cut(x.rule, ":")
		c.count("broken rule: "+strings.SplitN(cl, " of ", 2)[0], 1)
		if i%997 == 0 {
			c.sample(bad.text())
		}
	})
}

// bodyStyle prints properties always in bodies, one per line.
func bodyStyle() *Style { return &Style{r: rand.New(rand.NewSource(1))} }

// judgeIll decides whether an ill-formed description was rejected properly.
func (c *Check) judgeIll(i int, rule string, f Files, dir string, res *Res) {
	if c.unusable(i, res, f, "ill-formed description ("+rule+")") {
		return
	}
	switch {
	case res.Exit == 0:
		c.violation(i, "accepted although ill-formed: "+rule, f, string(res.Stdout))
	case len(res.Stdout) > 0:
		c.violation(i, "output for an ill-formed description: "+rule, f, string(res.Stdout))
	case len(strings.TrimSpace(res.err())) < 3:
		c.violation(i, "no diagnostic for an ill-formed description: "+rule, f, res.err())
	}
	if _, err := os.Stat(filepath.Join(dir, "const.json")); err == nil {
		c.violation(i, "constants file for an ill-formed description: "+rule, f, res.err())
	}
}
