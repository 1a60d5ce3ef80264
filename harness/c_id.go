package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
)

func init() { register("C06", checkC06) }

// mutation changes one thing of a cloned design; apply reports whether it was applicable.
type mutation struct {
	name string
	e    *Elem // element of the original design
	pos  string
	f    func(e, parent *Elem)
}

// mutations lists the changes that have to change the ID.
func mutations(r *rand.Rand, d *Elem) []mutation {
	var l []mutation
	bw := d.busWidth()
	var walk func(e, p *Elem, idx, n, depth int)
	walk = func(e, p *Elem, idx, n, depth int) {
		if e.Kind == "group" {
			return // groups and their members are not part of the register map
		}
		pos := "middle"
		switch {
		case n == 1:
			pos = "only"
		case idx == 0:
			pos = "first"
		case idx == n-1:
			pos = "last"
		}
		add := func(name string, f func(e, parent *Elem)) {
			l = append(l, mutation{name, e, fmt.Sprintf("%s depth %d", pos, min(depth, 3)), f})
		}
		if p != nil {
			k := r.Intn(4)
			add("name", func(e, _ *Elem) {
				switch k {
				case 0:
					e.Name += "x"
				case 1:
					e.Name = "q" + e.Name
				case 2:
					b := []byte(e.Name)
					b[len(b)-1] ^= 1
					if b[len(b)-1] < '0' || b[len(b)-1] > 'z' || b[len(b)-1] == '`' || b[len(b)-1] == '@' || b[len(b)-1] == ':' || b[len(b)-1] == '[' || b[len(b)-1] == '^' {
						b[len(b)-1] = 'k'
					}
					if string(b) == e.Name {
						b = append(b, 'w')
					}
					e.Name = string(b)
				case 3:
					e.Name = "Renamed_1"
				}
			})
			add("array size", func(e, _ *Elem) {
				switch {
				case e.Count < 0:
					e.Count = 2
				case e.Count > 1 && k%2 == 0:
					e.Count--
				default:
					e.Count++
				}
			})
			if e.Count < 0 {
				add("single to array of one", func(e, _ *Elem) { e.Count = 1 })
			}
			if len(p.Subs) > 1 && (p.Kind == "block" || p.Kind == "bus" || p.Kind == "proc" || p.Kind == "stream") {
				add("remove", func(e, p *Elem) {
					var s []*Elem
					for _, x := range p.Subs {
						if x != e {
							s = append(s, x)
						}
					}
					p.Subs = s
				})
			}
		}
		switch e.Kind {
		case "config", "mask", "static", "status", "param", "return":
			if _, ok := e.prop("range"); !ok {
				dw := int64(1)
				if r.Intn(2) == 0 {
					dw = int64(1 + r.Intn(5))
				}
				add("width", func(e, _ *Elem) {
					w := e.width(bw)
					e.set("width", vi(w+dw))
				})
				add("width down", func(e, _ *Elem) {
					w := e.width(bw)
					if w > dw {
						e.set("width", vi(w-dw))
					}
				})
			}
		}
		switch e.Kind {
		case "config", "mask", "status":
			add("atomicity", func(e, _ *Elem) {
				if v, ok := e.prop("atomic"); ok {
					e.set("atomic", vb(!v.B))
					return
				}
				def := true // the default of every kind is atomic, except of those where it is not
				e.set("atomic", vb(!def))
			})
		}
		switch e.Kind {
		case "config", "mask", "static":
			nv := r.Int63n(4)
			add("initial value", func(e, _ *Elem) {
				w := e.width(bw)
				if w < 1 {
					return
				}
				x := nv
				if w < 3 {
					x = nv % (1 << w)
				}
				if v, ok := e.prop("init-value"); ok && v.K == 'i' {
					if v.I == x {
						x = (x + 1) % (1 << min(w, 20))
					}
				} else if ok {
					// bit string, change one digit
					s := []byte(v.S)
					k := 2 + r.Intn(len(s)-3)
					if s[k] == '1' {
						s[k] = '0'
					} else {
						s[k] = '1'
					}
					e.set("init-value", vx(string(s)))
					return
				}
				e.set("init-value", vi(x))
			})
		case "irq":
			add("add-enable", func(e, _ *Elem) {
				v, _ := e.prop("add-enable")
				e.set("add-enable", vb(!v.B))
				if v.B {
					e.unset("enable-init-value")
					e.unset("enable-reset-value")
				}
			})
			flip := func(n, a, b string) {
				add(n, func(e, _ *Elem) {
					v, ok := e.prop(n)
					if !ok {
						v = vs(map[string]string{"clear": "Explicit", "in-trigger": "Level", "out-trigger": "Level"}[n])
					}
					if v.S == a {
						e.set(n, vs(b))
					} else {
						e.set(n, vs(a))
					}
				})
			}
			flip("clear", "Explicit", "On Read")
			flip("in-trigger", "Edge", "Level")
			flip("out-trigger", "Edge", "Level")
			if v, _ := e.prop("add-enable"); v.B {
				for _, n := range []string{"enable-init-value", "enable-reset-value"} {
					add(n, func(e, _ *Elem) {
						if v, ok := e.prop(n); ok && v.K == 'i' {
							e.set(n, vi(1-v.I))
						} else if ok && v.S == `b"1"` {
							e.set(n, vx(`b"0"`))
						} else {
							e.set(n, vx(`b"1"`))
						}
					})
				}
			}
		case "block", "bus":
			for i := range e.Consts {
				nv := (&Gen{r: r}).constVal()
				for nv.K != e.Consts[i].V.K || nv.K == 'l' && (len(nv.List) == 0 || nv.List[0].K != e.Consts[i].V.List[0].K) {
					nv = (&Gen{r: r}).constVal()
				}
				add("constant "+string(nv.K), func(e, _ *Elem) { e.Consts[i].V = nv })
			}
			add("masters", func(e, _ *Elem) {
				v, ok := e.prop("masters")
				if !ok {
					v.I = 1
				}
				e.set("masters", vi(v.I+1+r.Int63n(3)))
			})
			nk := pick(r, "config", "status", "mask", "static", "irq", "proc", "stream", "block")
			add("add "+nk, func(e, _ *Elem) {
				x := &Elem{Kind: nk, Name: "Added_1", Count: -1}
				if nk == "static" {
					x.set("init-value", vi(1))
				}
				if nk == "block" {
					x.Subs = []*Elem{{Kind: "config", Name: "c", Count: -1}}
				}
				k := r.Intn(len(e.Subs) + 1)
				e.Subs = append(e.Subs[:k:k], append([]*Elem{x}, e.Subs[k:]...)...)
			})
		case "proc":
			nk := pick(r, "param", "return")
			add("add "+nk, func(e, _ *Elem) {
				x := &Elem{Kind: nk, Name: "Added_1", Count: -1}
				k := r.Intn(len(e.Subs) + 1)
				e.Subs = append(e.Subs[:k:k], append([]*Elem{x}, e.Subs[k:]...)...)
			})
		case "blackbox":
		}
		if e.Kind == "bus" {
			add("bus width", func(e, _ *Elem) { e.set("width", vi(pick(r, bw*2, bw+1, bw+8))) })
		}
		add("documentation of "+e.Kind, func(e, _ *Elem) {
			k := r.Intn(3)
			switch {
			case len(e.Doc) > 0 && k == 0 && docText(e.Doc[1:]) != docText(e.Doc):
				e.Doc = e.Doc[1:]
			case len(e.Doc) > 0 && k == 1:
				e.Doc[len(e.Doc)-1] += "."
			default:
				e.Doc = append(e.Doc, " another line")
			}
		})
		for k, s := range e.Subs {
			// position among the elements of the same kind
			n, idx := 0, 0
			for m, o := range e.Subs {
				if o.Kind == s.Kind {
					if m < k {
						idx++
					}
					n++
				}
			}
			walk(s, e, idx, n, depth+1)
		}
	}
	walk(d, nil, 0, 1, 0)
	return l
}

// mutate applies m to a clone of d.
func (m mutation) mutate(d *Elem) *Elem {
	c := d.clone()
	c.Doc = append([]string(nil), d.Doc...)
	var walk func(a, b, p *Elem) bool
	walk = func(a, b, p *Elem) bool {
		if a == m.e {
			m.f(b, p)
			return true
		}
		for i := range a.Subs {
			if walk(a.Subs[i], b.Subs[i], b) {
				return true
			}
		}
		return false
	}
	walk(d, c, nil)
	return c
}

type idClass struct {
	n, hit int
	ex     Files
	what   string
	idx    int
}

// tail is the probability of at least k hits among n with probability p each.
func tail(n, k int, p float64) float64 {
	s := 0.0
	for i := k; i <= n; i++ {
		a, _ := math.Lgamma(float64(n + 1))
		b, _ := math.Lgamma(float64(i + 1))
		c, _ := math.Lgamma(float64(n - i + 1))
		s += math.Exp(a - b - c + float64(i)*math.Log(p) + float64(n-i)*math.Log(1-p))
	}
	return s
}

// checkIDStatic checks the ID static itself.
func checkIDStatic(j *JBlock) string {
	w := min(j.Width, 32)
	n := 0
	for _, s := range j.Statics {
		if s.Name != "ID" {
			continue
		}
		n++
		a := s.Access
		if s.Width != w || a.ItemWidth != w || a.ItemCount != 1 || s.IsArray || a.StartAddr != 0 || a.EndAddr != 0 || a.StartBit != 0 || a.EndBit != w-1 {
			return fmt.Sprintf("ID is not a %d bit static at address 0, bit 0: %+v", w, *s)
		}
		v := s.InitValue
		if len(v) < 4 || strings.IndexByte("box", v[0]) < 0 || int64(len(refBits(v[0], v[2:len(v)-1]))) != w || strings.Trim(refBits(v[0], v[2:len(v)-1]), "01") != "" {
			return fmt.Sprintf("the ID value %q is not %d bits wide", v, w)
		}
	}
	if n != 1 {
		return fmt.Sprintf("%d ID statics in the main bus", n)
	}
	bad := ""
	j.walk(func(b, p *JBlock, path string) {
		if p == nil {
			return
		}
		for _, s := range b.Statics {
			if s.Name == "ID" && s.Doc == "Bus identifier" {
				bad = "ID in subblock " + path
			}
		}
	})
	return bad
}

func checkC06(c *Check) {
	c.rule = "random designs compiled, rewritten (formatting, comments, types, constants, packages, ) and mutated in one aspect; the ID must be well formed and equal for the rewritten ones, and different for mutated ones on buses at least 32 bits wide, judged per class of mutation (aspect, kind, array, position, depth; every bit, digit, character and item of the hashed values) against a collision rate of 1 percent; " +
		"non-trivial: distinct designs with at least 3 elements"
	c.assume = []string{"the ID is a 32 bit checksum, a class of mutations is reported when its collisions have a probability below 1e-9 for an accidental collision rate of 1 percent", "members of groups, constant names and align properties are not part of the property"}
	n := c.n(2200, 30000)
	var mu sync.Mutex
	classes := map[string]*idClass{}
	c.parallel(n, func(w *Worker, i int) {
		r := newRand(c.seed, "C06", i)
		o := fullOpt(i)
		o.MaxElems = 2 + i%6
		if i%2 == 0 {
			o.Widths = []int64{32, 32, 64, 128}
		}
		if i%3 == 0 {
			o.BlockBias, o.MaxDepth = 45, 3
		}
		d := genDesign(r, o)
		if i%4 == 0 {
			withDocs(r, d)
		}
		t := d.flat()
		f := Files{"bus.fbd": t}
		res := w.compile(f)
		c.eval(1)
		j := c.mustCompile(i, res, f, "id")
		if j == nil {
			return
		}
		if e := checkIDStatic(j); e != "" {
			c.violation(i, e, f, t+string(res.Stdout))
			return
		}
		id := j.id()
		c.seen("IDs", id)
		if d.size() >= 3 {
			c.nontrivial(t)
		}
		if i < 2 {
			c.sample(t)
		}
		// rewriting
		var rw []Files
		fa := newFactorer(r, i%3)
		factorProfile(fa, i)
		fac := d.clone()
		var names []string
		switch i % 3 {
		case 0:
			rw, names = append(rw, Files{"bus.fbd": printItems([]*Item{d.item()}, wild(r))}), append(names, "formatting")
		case 1:
			ff := fa.factor(fac, canonical)
			if fac.flat() == t { // the constants of types became part of the bus otherwise
				rw, names = append(rw, ff), append(names, "types, constants and packages")
			}
		case 2:
			rw, names = append(rw, Files{"bus.fbd": t}), append(names, "repeated")
		}
		for k, g := range rw {
			x := c.mustCompile(i, w.compile(g), g, "rewritten")
			if x == nil {
				return
			}
			c.count("rewritten: "+names[k], 1)
			if x.id() != id {
				c.violation(i, fmt.Sprintf("ID %s changes to %s by rewriting: %s", id, x.id(), names[k]), g, t)
				return
			}
		}
		if d.busWidth() < 32 {
			return
		}
		ms := mutations(r, d)
		by := map[string][]mutation{}
		var ks []string
		for _, m := range ms {
			k := m.name + " of " + m.e.Kind
			if by[k] == nil {
				ks = append(ks, k)
			}
			by[k] = append(by[k], m)
		}
		r.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
		for _, k := range firstN(ks, 9) {
			m := by[k][r.Intn(len(by[k]))]
			g := m.mutate(d)
			gt := g.flat()
			if gt == t {
				continue
			}
			mf := Files{"original/bus.fbd": t, "mutated/bus.fbd": gt}
			x := w.compileText(gt)
			if x.Exit != 0 && strings.Contains(string(x.Stderr), "unimplemented") {
				c.count("mutated design needs a feature declared as not implemented", 1)
				continue
			}
			if c.unusable(i, x, mf, "mutated") {
				return
			}
			if x.Exit != 0 {
				c.count("mutated design is not valid: "+m.name, 1)
				continue
			}
			jm, err := decodeBus(x.Stdout)
			if err != nil {
				continue
			}
			arr := ""
			if m.e.Count >= 0 {
				arr = " array"
			}
			hit := jm.id() == id
			mu.Lock()
			for _, cl := range []string{k + arr, k + " " + m.pos, k + arr + " " + m.pos} {
				x := classes[cl]
				if x == nil {
					x = &idClass{}
					classes[cl] = x
				}
				x.n++
				if hit {
					if x.hit == 0 || i < x.idx {
						x.ex, x.what, x.idx = mf, id, i
					}
					x.hit++
				}
			}
			mu.Unlock()
			c.count("mutants", 1)
			if hit {
				c.count("accidental collisions", 1)
			}
			c.seen("mutation classes", k+arr+m.pos)
		}
	})
	checkIDGrades(c, func(cl string, hit bool, idx int, f Files, id string) {
		mu.Lock()
		defer mu.Unlock()
		x := classes[cl]
		if x == nil {
			x = &idClass{}
			classes[cl] = x
		}
		x.n++
		if hit {
			if x.hit == 0 || idx < x.idx {
				x.ex, x.what, x.idx = f, id, idx
			}
			x.hit++
			c.count("accidental collisions", 1)
		}
	})
	var ks []string
	for k := range classes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x := classes[k]
		if x.hit > 0 && tail(x.n, x.hit, 0.01) < 1e-9 {
			c.violation(x.idx, fmt.Sprintf("changing %s does not change the ID (%d of %d mutants keep it, for example ID %s)", k, x.hit, x.n, x.what), x.ex, x.ex.text())
		}
	}
}
