package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// idPair builds two buses that differ in one place only.
type idPair struct {
	class string
	f     func(r *rand.Rand, v int) *Elem // the element with the variant v (0 or 1) of the difference
	bare  bool                            // nothing else in the bus
}

func idText(n int, pos int, v int, from string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = from[(i*7+n)%len(from)]
	}
	if v == 1 {
		k := strings.IndexByte(from, b[pos])
		b[pos] = from[(k+1)%len(from)]
	}
	return string(b)
}

const idLetters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// idGrades lists differences of every magnitude at every place of a value,
// so that values hashed only in part are noticed.
func idGrades() []idPair {
	var l []idPair
	add := func(class string, f func(r *rand.Rand, v int) *Elem) { l = append(l, idPair{class: class, f: f}) }
	blk := func(c ...DConst) *Elem {
		return &Elem{Kind: "block", Name: "Blk", Count: -1, Consts: c, Subs: []*Elem{{Kind: "config", Name: "c", Count: -1}}}
	}
	cn := func(v Value) *Elem { return blk(DConst{"CONST_A", v}) }
	leaf := func(kind, name string) *Elem {
		e := &Elem{Kind: kind, Name: name, Count: -1}
		switch kind {
		case "static":
			e.set("init-value", vi(1))
		case "block":
			e.Subs = []*Elem{{Kind: "config", Name: "c", Count: -1}}
		case "blackbox":
			e.set("size", vi(4))
		}
		return e
	}
	for k := 0; k < 63; k++ {
		add(fmt.Sprintf("bit %d of an integer constant", k), func(r *rand.Rand, v int) *Elem {
			x := r.Int63() &^ (1 << k)
			if r.Intn(2) == 0 {
				x &= 1<<k - 1
			}
			return cn(vi(x | int64(v)<<k))
		})
		add(fmt.Sprintf("bit %d of a list item", k), func(r *rand.Rand, v int) *Elem {
			x := r.Int63() &^ (1 << k)
			return cn(vl(vi(3), vi(x|int64(v)<<k), vi(r.Int63n(5))))
		})
		if k < 62 {
			add(fmt.Sprintf("bit %d of masters", k), func(r *rand.Rand, v int) *Elem {
				e := blk()
				e.set("masters", vi(1<<62>>r.Intn(63)&^(1<<k)|int64(v)<<k|b2i(k == 0)<<1|b2i(k != 0)))
				return e
			})
		}
	}
	add("sign of an integer constant", func(r *rand.Rand, v int) *Elem {
		return cn(vi((1 + r.Int63()>>uint(r.Intn(50))) * int64(1-2*v)))
	})
	for d := 0; d <= 12; d++ {
		add(fmt.Sprintf("decimal %d of a float constant", d), func(r *rand.Rand, v int) *Elem {
			x := 1 + float64(r.Intn(98)) + 0.5
			p := 1.0
			for i := 0; i < d; i++ {
				p /= 10
			}
			return cn(vf(x + p*float64(v)))
		})
	}
	for k := 0; k < 24; k++ {
		add(fmt.Sprintf("item %d of an integer list", k), func(r *rand.Rand, v int) *Elem {
			x := vl()
			for i := 0; i < 24; i++ {
				x.List = append(x.List, vi(int64(i)))
			}
			x.List[k].I += int64(v) * (1 + r.Int63n(9))
			return cn(x)
		})
		add(fmt.Sprintf("item %d of a boolean list", k), func(r *rand.Rand, v int) *Elem {
			x := vl()
			for i := 0; i < 24; i++ {
				x.List = append(x.List, vb(r.Intn(2) == 0))
			}
			x.List[k].B = v == 1
			return cn(x)
		})
		add(fmt.Sprintf("integer list of %d or %d items", k+1, k+2), func(r *rand.Rand, v int) *Elem {
			x := vl()
			for i := 0; i < k+1+v; i++ {
				x.List = append(x.List, vi(int64(i+1)))
			}
			return cn(x)
		})
		for _, c := range []Value{vi(5), vb(false), vs("abc"), vf(1.5), vl(vi(1), vi(2)), vl(vb(true))} {
			add(fmt.Sprintf("constant %d of 24 of kind %c", k, c.K), func(r *rand.Rand, v int) *Elem {
				var cs []DConst
				for i := 0; i < 24; i++ {
					x := c
					if i == k && v == 1 {
						switch c.K {
						case 'i':
							x.I += 1 + r.Int63n(9)
						case 'b':
							x.B = true
						case 's':
							x.S += "d"
						case 'f':
							x.F += 1
						case 'l':
							x = vl(c.List[0], c.List[0], c.List[0])
						}
					}
					cs = append(cs, DConst{fmt.Sprintf("N%c%d", 'z'-rune(i), i), x})
				}
				return blk(cs...)
			})
		}
	}
	for k := 0; k < 96; k++ {
		add(fmt.Sprintf("character %d of a string constant", k), func(r *rand.Rand, v int) *Elem {
			return cn(vs(idText(96, k, v, idLetters+" .,;#")))
		})
		if k%3 == 0 {
			add(fmt.Sprintf("string constant of %d or %d characters", k, k+1), func(r *rand.Rand, v int) *Elem {
				return cn(vs(strings.Repeat("a", k+v)))
			})
		}
	}
	kinds := []string{"config", "mask", "static", "status", "irq", "proc", "stream", "block", "blackbox", "param", "return"}
	for _, kind := range kinds {
		wrap := func(e *Elem) *Elem {
			switch kind {
			case "param":
				return &Elem{Kind: "proc", Name: "Prc", Count: -1, Subs: []*Elem{e}}
			case "return":
				return &Elem{Kind: "stream", Name: "Str", Count: -1, Subs: []*Elem{e}}
			}
			return &Elem{Kind: "block", Name: "Wrap", Count: -1, Subs: []*Elem{e}}
		}
		for k := 0; k < 40; k += 1 + k/8 {
			add(fmt.Sprintf("character %d of the name of a %s", k, kind), func(r *rand.Rand, v int) *Elem {
				return wrap(leaf(kind, idText(40, k, v, idLetters)))
			})
			add(fmt.Sprintf("name of %d or %d characters of a %s", k+1, k+2, kind), func(r *rand.Rand, v int) *Elem {
				return wrap(leaf(kind, strings.Repeat("n", k+1+v)))
			})
		}
		for k := 0; k < 20; k++ {
			add(fmt.Sprintf("%s %d of 20", kind, k), func(r *rand.Rand, v int) *Elem {
				w := wrap(leaf(kind, "x0"))
				w.Subs = nil
				for i := 0; i < 20; i++ {
					n := fmt.Sprintf("x%d", i)
					if i == k && v == 1 {
						n += pick(r, "b", "_", "Z")
					}
					w.Subs = append(w.Subs, leaf(kind, n))
				}
				return w
			})
		}
		switch kind {
		case "param", "return", "config", "static", "status":
			// widths and array sizes
			for k := 0; k < 10; k++ {
				add(fmt.Sprintf("bit %d of the array size of a %s", k, kind), func(r *rand.Rand, v int) *Elem {
					e := leaf(kind, "x")
					e.set("width", vi(4))
					e.Count = (1+r.Int63n(1000))&^(1<<k) | int64(v)<<k
					if e.Count == 0 || e.Count == 1<<k && k == 0 {
						e.Count += 2
					}
					return wrap(e)
				})
			}
		case "block":
			for k := 0; k < 10; k++ {
				add(fmt.Sprintf("bit %d of the array size of a %s", k, kind), func(r *rand.Rand, v int) *Elem {
					e := leaf(kind, "x")
					e.Count = 2048 | r.Int63n(1000)&^(1<<k) | int64(v)<<k
					return wrap(e)
				})
			}
		}
		switch kind {
		case "param", "return", "config", "static", "status", "mask":
			for k := 0; k < 11; k++ {
				add(fmt.Sprintf("bit %d of the width of a %s", k, kind), func(r *rand.Rand, v int) *Elem {
					e := leaf(kind, "x")
					e.set("width", vi(2048|r.Int63n(2000)&^(1<<k)|int64(v)<<k))
					return wrap(e)
				})
			}
		case "blackbox":
			for k := 0; k < 30; k++ {
				add(fmt.Sprintf("bit %d of the size of a blackbox", k), func(r *rand.Rand, v int) *Elem {
					e := leaf(kind, "x")
					e.set("size", vi(1<<31|r.Int63n(1<<30)&^(1<<k)|int64(v)<<k))
					return wrap(e)
				})
			}
		}
		switch kind {
		case "config", "mask", "static":
			for k := 0; k < 100; k += 1 + k/16 {
				add(fmt.Sprintf("digit %d of the initial value of a %s", k, kind), func(r *rand.Rand, v int) *Elem {
					e := leaf(kind, "x")
					e.set("width", vi(400))
					f, from := "x", "0123456789abcdefABCDEF-uUwWxXzZ"
					switch r.Intn(3) {
					case 0:
						f, from = "b", "01-uUwWxXzZ"
					case 1:
						f, from = "o", "01234567-uUwWxXzZ"
					}
					e.set("init-value", vx(f+`"`+idText(100, k, v, from)+`"`))
					return wrap(e)
				})
			}
			for k := 0; k < 63; k += 1 + k/16 {
				add(fmt.Sprintf("bit %d of the initial value of a %s", k, kind), func(r *rand.Rand, v int) *Elem {
					e := leaf(kind, "x")
					e.set("width", vi(int64(63+r.Intn(8))))
					e.set("init-value", vi(r.Int63()&^(1<<k)|int64(v)<<k))
					return wrap(e)
				})
			}
		}
	}
	for d := 1; d <= 6; d++ {
		add(fmt.Sprintf("initial value at depth %d", d), func(r *rand.Rand, v int) *Elem {
			e := leaf("config", "x")
			e.set("init-value", vi(r.Int63n(1000)*2+int64(v)))
			for i := 0; i < d; i++ {
				e = &Elem{Kind: "block", Name: fmt.Sprintf("B%d", i), Count: -1, Subs: []*Elem{e}}
			}
			return e
		})
	}
	for k := 0; k < 300; k += 1 + k/12 {
		add(fmt.Sprintf("character %d of the bus documentation", k), func(r *rand.Rand, v int) *Elem {
			return &Elem{Kind: "config", Name: "Cfg", Count: -1, Doc: []string{" " + idText(300, k, v, idLetters+" .,;\"")}}
		})
	}
	for k := 0; k < 30; k++ {
		add(fmt.Sprintf("line %d of the bus documentation", k), func(r *rand.Rand, v int) *Elem {
			e := &Elem{Kind: "config", Name: "Cfg", Count: -1}
			for i := 0; i < 30; i++ {
				e.Doc = append(e.Doc, fmt.Sprintf(" line %d", i))
			}
			if v == 1 {
				e.Doc[k] += "!"
			}
			return e
		})
	}
	return append(l, idBounds()...)
}

// idBounds lists differences in what a value is part of: the kind of an element, the value or the list a
// character or an item belongs to, the block an element stands in.
func idBounds() []idPair {
	var l []idPair
	add := func(class string, f func(r *rand.Rand, v int) *Elem) {
		l = append(l, idPair{class: class, f: f}, idPair{class: class + ", nothing else in the bus", f: f, bare: true})
	}
	word := func(r *rand.Rand, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = idLetters[r.Intn(len(idLetters))]
		}
		return string(b)
	}
	leaf := func(kind, name string, w int64) *Elem {
		e := &Elem{Kind: kind, Name: name, Count: -1}
		switch kind {
		case "irq", "blackbox", "group", "block", "proc", "stream":
		default:
			e.set("width", vi(w))
		}
		if kind == "blackbox" {
			e.set("size", vi(w))
		}
		return e
	}
	blk := func(name string, sub ...*Elem) *Elem { return &Elem{Kind: "block", Name: name, Count: -1, Subs: sub} }
	// kinds
	leafs := []string{"config", "mask", "status", "static"}
	for a, x := range leafs {
		for _, y := range leafs[a+1:] {
			for _, in := range []bool{false, true} {
				add(fmt.Sprintf("%s instead of %s, in a block %v", y, x, in), func(r *rand.Rand, v int) *Elem {
					e := leaf(pick2(v, x, y), word(r, 1+r.Intn(12)), 1+r.Int63n(32))
					if x == "static" || y == "static" {
						n := r.Int63n(2)
						if x == "status" {
							e.unset("init-value")
						} else {
							e.set("init-value", vi(n))
						}
						if e.Kind == "static" {
							e.set("init-value", vi(n))
						}
					} else if x != "status" && y != "status" && r.Intn(2) == 0 {
						e.set("init-value", vi(r.Int63n(2)))
					}
					if !in {
						return e
					}
					return blk("Blk", e)
				})
			}
		}
	}
	for _, k := range []string{"proc", "stream"} {
		for n := 1; n <= 3; n++ {
			if k == "stream" && n > 1 {
				continue
			}
			add(fmt.Sprintf("return instead of param %d in a %s", n, k), func(r *rand.Rand, v int) *Elem {
				e := &Elem{Kind: k, Name: word(r, 5), Count: -1}
				for i := 1; i <= n; i++ {
					kk := "param"
					if i == n && v == 1 {
						kk = "return"
					}
					e.Subs = append(e.Subs, leaf(kk, fmt.Sprintf("p%d%s", i, word(r, 3)), 32))
				}
				return e
			})
		}
	}
	add("stream instead of proc", func(r *rand.Rand, v int) *Elem {
		return &Elem{Kind: pick2(v, "proc", "stream"), Name: word(r, 5), Count: -1, Subs: []*Elem{leaf("param", word(r, 3), 1+r.Int63n(40))}}
	})
	add("blackbox instead of block", func(r *rand.Rand, v int) *Elem {
		if v == 0 {
			return leaf("blackbox", "x", 1)
		}
		return blk("x", leaf("config", "c", 32))
	})
	// values of other properties
	props := []struct{ kind, prop string }{{"config", "read-value"}, {"config", "reset-value"}, {"mask", "read-value"}, {"mask", "reset-value"},
		{"static", "read-value"}, {"static", "reset-value"}, {"status", "read-value"}}
	for _, p := range props {
		with := func(r *rand.Rand, w int64) *Elem {
			e := leaf(p.kind, word(r, 3), w)
			if p.kind == "static" {
				e.set("init-value", vi(1))
			}
			return e
		}
		add(p.prop+" added to a "+p.kind, func(r *rand.Rand, v int) *Elem {
			e := with(r, 8)
			if v == 1 {
				e.set(p.prop, vi(r.Int63n(200)))
			}
			return e
		})
		for _, k := range []int{0, 1, 7, 30, 31, 32, 61} {
			add(fmt.Sprintf("bit %d of the %s of a %s", k, p.prop, p.kind), func(r *rand.Rand, v int) *Elem {
				e := with(r, 62)
				if r.Intn(2) == 0 {
					e.set("init-value", vi(1))
					if p.kind == "status" {
						e.unset("init-value")
					}
				}
				e.set(p.prop, vi(r.Int63n(1<<62)&^(1<<k)|int64(v)<<k))
				return e
			})
		}
		for _, q := range []string{"init-value", "read-value", "reset-value"} {
			if q == p.prop || p.kind == "status" || p.kind == "static" {
				continue
			}
			add(q+" instead of "+p.prop+" of a "+p.kind, func(r *rand.Rand, v int) *Elem {
				e := with(r, 8)
				e.set(pick2(v, p.prop, q), vi(r.Int63n(200)))
				return e
			})
		}
	}
	for _, k := range []int{0, 1, 7, 31, 32, 50} {
		for _, end := range []bool{false, true} {
			add(fmt.Sprintf("bit %d of a bound %v of a range of a config", k, end), func(r *rand.Rand, v int) *Elem {
				e := leaf("config", word(r, 3), 1)
				e.unset("width")
				x := r.Int63n(1<<51)&^(1<<k) | int64(v)<<k
				if end {
					e.set("range", vr(0, 1<<51|x))
				} else {
					e.set("range", vr(x, 1<<52))
				}
				return e
			})
			add(fmt.Sprintf("bit %d of a bound %v of the second range of a param", k, end), func(r *rand.Rand, v int) *Elem {
				e := leaf("param", word(r, 3), 1)
				e.unset("width")
				x := 10 + r.Int63n(1<<51)&^(1<<k) | int64(v)<<k
				if end {
					e.set("range", vL(vr(0, 3), vr(7, 1<<52|x), vr(1<<60, 1<<61)))
				} else {
					e.set("range", vL(vr(0, 3), vr(1<<52|x, 1<<53), vr(1<<60, 1<<61)))
				}
				return &Elem{Kind: "proc", Name: "Prc", Count: -1, Subs: []*Elem{e}}
			})
		}
	}
	for k := 0; k < 24; k++ {
		add(fmt.Sprintf("range %d of 24 of a config", k), func(r *rand.Rand, v int) *Elem {
			e := leaf("config", word(r, 3), 1)
			e.unset("width")
			l := vL()
			for i := 0; i < 24; i++ {
				n := int64(i)*20 + r.Int63n(8)
				if i == k {
					n += int64(v)
				}
				l.List = append(l.List, vr(n, int64(i)*20+15))
			}
			e.set("range", l)
			return e
		})
	}
	for _, k := range []string{"proc params", "proc returns", "stream params", "stream returns"} {
		kind, sub, _ := strings.Cut(k, " ")
		for n := 0; n < 24; n += 1 + n/12 {
			add(fmt.Sprintf("%d of 24 %s", n, k), func(r *rand.Rand, v int) *Elem {
				e := &Elem{Kind: kind, Name: word(r, 4), Count: -1}
				for i := 0; i < 24; i++ {
					name := fmt.Sprintf("x%d", i)
					if i == n && v == 1 {
						name += pick(r, "b", "_", "Z")
					}
					e.Subs = append(e.Subs, leaf(strings.TrimSuffix(sub, "s"), name, 32))
				}
				return e
			})
		}
	}
	add("range instead of width", func(r *rand.Rand, v int) *Elem {
		e := leaf("config", word(r, 3), 8)
		if v == 1 {
			e.unset("width")
			e.set("range", vr(0, 255))
		}
		return e
	})
	for _, k := range []string{"proc", "stream"} {
		for _, b := range []int{0, 1, 9, 20} {
			for _, u := range []string{"s", "ns"} {
				add(fmt.Sprintf("bit %d of the delay in %s of a %s", b, u, k), func(r *rand.Rand, v int) *Elem {
					e := &Elem{Kind: k, Name: word(r, 4), Count: -1, Subs: []*Elem{leaf("param", "p", 32)}}
					e.set("delay", vt(r.Int63n(1<<21)&^(1<<b)|int64(v)<<b, u))
					return e
				})
			}
		}
		add("delay added to a "+k, func(r *rand.Rand, v int) *Elem {
			e := &Elem{Kind: k, Name: word(r, 4), Count: -1, Subs: []*Elem{leaf("param", "p", 32)}}
			if v == 1 {
				e.set("delay", vt(1+r.Int63n(100), "us"))
			}
			return e
		})
	}
	for d := 0; d < 3; d++ {
		for _, x := range [][2]string{{"", "Sync"}, {"", "Async"}, {"Sync", "Async"}} {
			add(fmt.Sprintf("reset %q or %q of a block at depth %d", x[0], x[1], d), func(r *rand.Rand, v int) *Elem {
				e := blk(word(r, 4), leaf("config", "c", 32))
				if x[v] != "" {
					e.set("reset", vs(x[v]))
				}
				for i := 0; i < d; i++ {
					e = blk(fmt.Sprintf("b%d", i), e)
				}
				return e
			})
		}
	}
	// neighbours
	str := func(s string) Value { return vs(s) }
	add("character of a string constant moved to the next one", func(r *rand.Rand, v int) *Elem {
		t, k := word(r, 4+r.Intn(20)), 1+r.Intn(3)
		b := blk("Blk")
		b.Consts = []DConst{{"A", str(t[:k+v])}, {"B", str(t[k+v:])}}
		return b
	})
	add("item of an integer list moved to the next one", func(r *rand.Rand, v int) *Elem {
		var x []Value
		for i := 0; i < 8; i++ {
			x = append(x, vi(r.Int63n(1000)))
		}
		k := 2 + r.Intn(3)
		b := blk("Blk")
		b.Consts = []DConst{{"A", vl(x[:k+v]...)}, {"B", vl(x[k+v:]...)}}
		return b
	})
	add("item of a bool list moved to the next one", func(r *rand.Rand, v int) *Elem {
		var x []Value
		for i := 0; i < 8; i++ {
			x = append(x, vb(r.Intn(2) == 0))
		}
		k := 2 + r.Intn(3)
		b := blk("Blk")
		b.Consts = []DConst{{"A", vl(x[:k+v]...)}, {"B", vl(x[k+v:]...)}}
		return b
	})
	add("list of one integer instead of the integer", func(r *rand.Rand, v int) *Elem {
		n := vi(r.Int63n(1000))
		if v == 1 {
			n = vl(n)
		}
		b := blk("Blk")
		b.Consts = []DConst{{"A", n}}
		return b
	})
	add("list of one bool instead of the bool", func(r *rand.Rand, v int) *Elem {
		n := vb(r.Intn(2) == 0)
		if v == 1 {
			n = vl(n)
		}
		b := blk("Blk")
		b.Consts = []DConst{{"A", n}}
		return b
	})
	for _, k := range append([]string{"irq"}, leafs...) {
		add("character of the name of a "+k+" moved to its documentation", func(r *rand.Rand, v int) *Elem {
			t := word(r, 12)
			e := leaf(k, t[:4+v], 7)
			e.Doc = []string{" " + t[4+v:]}
			if k == "static" {
				e.set("init-value", vi(1))
			}
			return blk("Blk", e)
		})
	}
	add("enable reset value instead of enable init value", func(r *rand.Rand, v int) *Elem {
		e := leaf("irq", word(r, 4), 0)
		e.set("add-enable", vb(true))
		e.set(pick2(v, "enable-init-value", "enable-reset-value"), vi(r.Int63n(2)))
		return e
	})
	add("enable values exchanged", func(r *rand.Rand, v int) *Elem {
		e := leaf("irq", word(r, 4), 0)
		e.set("add-enable", vb(true))
		e.set("enable-init-value", vi(int64(v)))
		e.set("enable-reset-value", vi(int64(1-v)))
		return e
	})
	add("triggers exchanged", func(r *rand.Rand, v int) *Elem {
		e := leaf("irq", word(r, 4), 0)
		e.set("in-trigger", vs(pick2(v, "Edge", "Level")))
		e.set("out-trigger", vs(pick2(v, "Level", "Edge")))
		return e
	})
	// places
	for _, k := range append([]string{"irq"}, leafs...) {
		for _, inner := range []bool{false, true} {
			add(fmt.Sprintf("%s moved to the next block, nested %v", k, inner), func(r *rand.Rand, v int) *Elem {
				e := leaf(k, word(r, 4), 1+r.Int63n(32))
				if k == "static" {
					e.set("init-value", vi(1))
				}
				a, b := blk("A", leaf("config", "c", 32)), blk("B", leaf("config", "c", 32))
				if inner {
					a.Subs = append(a.Subs, b)
				}
				if v == 0 {
					a.Subs = append(a.Subs, e)
				} else {
					b.Subs = append(b.Subs, e)
				}
				if inner {
					return blk("Blk", a)
				}
				return blk("Blk", a, b)
			})
		}
	}
	add("constant moved to the next block", func(r *rand.Rand, v int) *Elem {
		c := []DConst{{"A", vi(r.Int63n(100))}}
		a, b := blk("A", leaf("config", "c", 32)), blk("B", leaf("config", "c", 32))
		if v == 0 {
			a.Consts = c
		} else {
			b.Consts = c
		}
		return blk("Blk", a, b)
	})
	add("constant moved to the inner block", func(r *rand.Rand, v int) *Elem {
		c := []DConst{{"A", vi(r.Int63n(100))}}
		a := blk("A", leaf("config", "c", 32))
		b := blk("B", a)
		if v == 0 {
			a.Consts = c
		} else {
			b.Consts = c
		}
		return b
	})
	add("param moved to the next proc", func(r *rand.Rand, v int) *Elem {
		a, b := &Elem{Kind: "proc", Name: "A", Count: -1}, &Elem{Kind: "proc", Name: "B", Count: -1}
		for k := 0; k < 3; k++ {
			p := leaf("param", fmt.Sprintf("p%d", k), 32)
			if k < 1+v {
				a.Subs = append(a.Subs, p)
			} else {
				b.Subs = append(b.Subs, p)
			}
		}
		return blk("Blk", a, b)
	})
	return l
}

func pick2(v int, a, b string) string {
	if v == 0 {
		return a
	}
	return b
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// checkIDGrades compiles every pair in several contexts.
func checkIDGrades(c *Check, tally func(class string, hit bool, idx int, f Files, id string)) {
	l := idGrades()
	rounds := c.n(6, 40)
	c.count("graded differences", int64(len(l)))
	c.parallel(len(l)*rounds, func(w *Worker, i int) {
		p := l[i%len(l)]
		base := newRand(c.seed, "C06 grade context", i)
		o := fullOpt(i)
		o.MaxElems = 3
		o.Widths = []int64{32, 32, 64}
		d := genDesign(base, o)
		at := base.Intn(len(d.Subs) + 1)
		var txt [2]string
		for v := range txt {
			e := p.f(newRand(c.seed, "C06 grade", i), v)
			if strings.HasPrefix(p.class, "digit") && e == nil {
				return
			}
			g := d.clone()
			if p.bare {
				g.Subs, g.Consts, at = nil, nil, 0
			}
			if e.Doc != nil {
				g.Doc, e.Doc = e.Doc, nil
			} else {
				g.Doc = nil
			}
			g.Subs = append(g.Subs[:at:at], append([]*Elem{e}, g.Subs[at:]...)...)
			txt[v] = g.flat()
		}
		if txt[0] == txt[1] {
			c.count("graded difference without effect", 1)
			return
		}
		f := Files{"original/bus.fbd": txt[0], "mutated/bus.fbd": txt[1]}
		var ids [2]string
		for v := range txt {
			x := w.compileText(txt[v])
			if c.unusable(i, x, f, "graded difference") {
				return
			}
			if x.Exit != 0 {
				c.count("graded difference not valid: "+p.class, 1)
				return
			}
			j, err := decodeBus(x.Stdout)
			if err != nil {
				return
			}
			ids[v] = j.id()
		}
		c.eval(1)
		c.count("graded mutants", 1)
		tally(p.class, ids[0] == ids[1], i, f, ids[0])
	})
}
