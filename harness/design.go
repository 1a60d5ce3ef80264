package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------------------
// Concrete (elaborated) bus design: the reference for what a description means.
// ---------------------------------------------------------------------------

// Value is an elaborated property or constant value.
type Value struct {
	K    byte // i int, s string, b bool, x bit string, t time, r range, L range list, l list, f float
	I    int64
	S    string
	B    bool
	F    float64
	L, R int64
	List []Value
	Sec  int64
	Ns   int64
	TN   int64  // time literal number
	TU   string // time literal unit
	X    *Expr  // expression written in place of the literal (factored sources only)
}

func vi(i int64) Value    { return Value{K: 'i', I: i} }
func vs(s string) Value   { return Value{K: 's', S: s} }
func vb(b bool) Value     { return Value{K: 'b', B: b} }
func vx(s string) Value   { return Value{K: 'x', S: s} }
func vr(l, r int64) Value { return Value{K: 'r', L: l, R: r} }
func vL(l ...Value) Value { return Value{K: 'L', List: l} }
func vl(l ...Value) Value { return Value{K: 'l', List: l} }
func vf(f float64) Value  { return Value{K: 'f', F: f} }
func vt(n int64, u string) Value {
	v := Value{K: 't', TN: n, TU: u}
	switch u {
	case "s":
		v.Sec = n
	case "ms":
		v.Sec, v.Ns = n/1000, n%1000*1000000
	case "us":
		v.Sec, v.Ns = n/1000000, n%1000000*1000
	case "ns":
		v.Sec, v.Ns = n/1000000000, n%1000000000
	}
	return v
}

// expr returns the plain literal expression of the value.
func (v Value) expr() *Expr {
	if v.X != nil {
		return v.X.clone()
	}
	switch v.K {
	case 'i':
		return eInt(v.I)
	case 's':
		return eText("\"" + v.S + "\"")
	case 'b':
		return eText(fmt.Sprint(v.B))
	case 'x':
		return eText(v.S)
	case 't':
		return &Expr{K: "time", I: v.TN, S: v.TU}
	case 'r':
		return eBin(":", eInt(v.L), eInt(v.R))
	case 'L', 'l':
		e := eList()
		for _, x := range v.List {
			e.A = append(e.A, x.expr())
		}
		return e
	case 'f':
		return eText(floatText(v.F))
	}
	panic("value kind")
}

func floatText(f float64) string {
	s := fmt.Sprintf("%.12f", f)
	s = strings.TrimRight(s, "0")
	if strings.HasSuffix(s, ".") {
		s += "0"
	}
	return s
}

type DProp struct {
	Name string
	V    Value
}

type DConst struct {
	Name string
	V    Value
}

// Elem is an elaborated functionality.
type Elem struct {
	Kind   string
	Name   string
	Count  int64 // -1 when not an array
	CountX *Expr // expression written in place of the count (factored sources only)
	Props  []DProp
	Consts []DConst
	Subs   []*Elem
	Doc    []string // text after '#'
}

func (e *Elem) clone() *Elem {
	c := *e
	c.Props = append([]DProp(nil), e.Props...)
	c.Consts = append([]DConst(nil), e.Consts...)
	c.Doc = append([]string(nil), e.Doc...)
	c.Subs = nil
	for _, s := range e.Subs {
		c.Subs = append(c.Subs, s.clone())
	}
	return &c
}

func (e *Elem) prop(n string) (Value, bool) {
	for _, p := range e.Props {
		if p.Name == n {
			return p.V, true
		}
	}
	return Value{}, false
}

func (e *Elem) set(n string, v Value) {
	for i := range e.Props {
		if e.Props[i].Name == n {
			e.Props[i].V = v
			return
		}
	}
	e.Props = append(e.Props, DProp{n, v})
}

func (e *Elem) unset(n string) {
	for i := range e.Props {
		if e.Props[i].Name == n {
			e.Props = append(e.Props[:i:i], e.Props[i+1:]...)
			return
		}
	}
}

func (e *Elem) count() int64 {
	if e.Count < 0 {
		return 1
	}
	return e.Count
}

// width returns the effective width of a data functionality on a bus of width bw.
func (e *Elem) width(bw int64) int64 {
	if e.Kind == "irq" {
		return 1
	}
	if v, ok := e.prop("width"); ok {
		return v.I
	}
	if v, ok := e.prop("range"); ok {
		return rangeWidth(v)
	}
	return bw
}

func rangeWidth(v Value) int64 {
	m := int64(0)
	switch v.K {
	case 'i':
		m = v.I
	case 'r':
		m = v.R
	case 'L':
		for _, x := range v.List {
			if x.R > m {
				m = x.R
			}
		}
	}
	w := int64(0)
	for m > 0 {
		w++
		m >>= 1
	}
	return w
}

// item converts the element to source level with plain literals.
func (e *Elem) item() *Item {
	it := &Item{K: "inst", Name: e.Name, Base: e.Kind, Doc: e.Doc}
	if e.Count >= 0 {
		it.Arr = eInt(e.Count)
	}
	for _, p := range e.Props {
		it.Body = append(it.Body, &Item{K: "prop", Name: p.Name, E: p.V.expr()})
	}
	for _, c := range e.Consts {
		it.Body = append(it.Body, &Item{K: "const", Name: c.Name, E: c.V.expr()})
	}
	for _, s := range e.Subs {
		it.Body = append(it.Body, s.item())
	}
	return it
}

// flat prints the design in canonical, fully inlined form.
func (e *Elem) flat() string { return printItems([]*Item{e.item()}, canonical()) }

func (e *Elem) walk(f func(e, parent *Elem, depth int)) { e.walk2(f, nil, 0) }

func (e *Elem) walk2(f func(e, parent *Elem, depth int), p *Elem, d int) {
	f(e, p, d)
	for _, s := range e.Subs {
		s.walk2(f, e, d+1)
	}
}

func (e *Elem) size() int {
	n := 0
	e.walk(func(*Elem, *Elem, int) { n++ })
	return n
}

func (e *Elem) busWidth() int64 {
	if v, ok := e.prop("width"); ok {
		return v.I
	}
	return 32
}
