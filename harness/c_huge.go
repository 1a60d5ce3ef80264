package main

import (
	"fmt"
	"math/big"
	"math/rand"
)

// hugeDesign returns a design with widths, counts or aligns of any magnitude.
func hugeDesign(r *rand.Rand) *Elem {
	top := pick(r, 20, 36, 50, 58, 63)
	num := func() int64 {
		k := uint(r.Intn(top))
		n := int64(1)<<k + r.Int63n(int64(1)<<k)
		if r.Intn(3) == 0 {
			n = int64(1)<<k - int64(r.Intn(2))
		}
		if n < 1 {
			n = 1
		}
		return n
	}
	leaf := func(name string) *Elem {
		e := &Elem{Kind: pick(r, "status", "status", "config", "static", "mask", "proc", "proc", "stream"), Name: name, Count: -1}
		if e.Kind == "mask" {
			e.set("width", vi(num()))
			return e
		}
		if e.Kind == "proc" || e.Kind == "stream" {
			kind := pick(r, "param", "return")
			for k := r.Intn(8) / 7 * (15 + r.Intn(20)); k > 0; k-- {
				// a long list in front of the large items
				e.Subs = append(e.Subs, &Elem{Kind: kind, Name: fmt.Sprintf("%s%c_%d", name, kind[0], k), Count: -1})
			}
			for k := 1 + r.Intn(3); k > 0; k-- {
				x := &Elem{Kind: kind, Name: fmt.Sprintf("%s%c%d", name, kind[0], k), Count: -1}
				if r.Intn(3) > 0 {
					x.set("width", vi(num()))
				}
				if r.Intn(2) == 0 {
					x.Count = num()
				}
				if r.Intn(3) == 0 {
					x.Count = -1
					x.unset("width")
				}
				e.Subs = append(e.Subs, x)
				if e.Kind == "proc" && r.Intn(2) == 0 {
					kind = "return"
				}
			}
			return e
		}
		if e.Kind == "static" {
			e.set("init-value", vXt(`b"1"`))
			if r.Intn(2) == 0 {
				e.set("width", vi(1+r.Int63n(70)))
			}
			return e
		}
		if e.Kind == "config" && r.Intn(2) == 0 {
			e.Count = num()
			return e // arrays of wide configs are not implemented
		}
		if r.Intn(3) > 0 {
			e.set("width", vi(num()))
		}
		if e.Kind == "status" && r.Intn(2) == 0 {
			e.Count = num()
		}
		return e
	}
	var block func(name string, d int) *Elem
	block = func(name string, d int) *Elem {
		b := &Elem{Kind: "block", Name: name, Count: -1}
		kind := pick(r, "config", "status", "mask", "proc", "stream", "static", "block")
		for n := r.Intn(8) / 7 * (15 + r.Intn(20)); n > 0; n-- {
			e := &Elem{Kind: kind, Name: fmt.Sprintf("s%d", n), Count: -1}
			switch kind {
			case "static":
				e.set("init-value", vXt(`b"1"`))
			case "proc", "stream":
				e.Subs = []*Elem{{Kind: "param", Name: e.Name + "p", Count: -1}}
			case "block":
				e.Subs = []*Elem{{Kind: "status", Name: e.Name + "s", Count: -1}}
			}
			b.Subs = append(b.Subs, e)
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			if r.Intn(3) == 0 {
				b.Subs = append(b.Subs, leaf(fmt.Sprintf("l%d", n)))
			} else {
				b.Subs = append(b.Subs, &Elem{Kind: "config", Name: fmt.Sprintf("l%d", n), Count: -1})
			}
		}
		if d < 3 {
			for n := r.Intn(3); n > 0; n-- {
				b.Subs = append(b.Subs, block(fmt.Sprintf("b%d", n), d+1))
			}
		}
		if d > 0 && r.Intn(2) == 0 {
			b.Count = num()
		}
		if d > 0 && r.Intn(6) == 0 {
			b.set("align", vi(int64(1)<<uint(r.Intn(top))))
		}
		return b
	}
	d := block("main", 0)
	d.Kind = "bus"
	if r.Intn(2) == 0 {
		d.set("width", vi(pick(r, int64(1), 8, 16, 64, 128, 1000)))
	}
	if r.Intn(20) == 0 {
		d.set("width", vi(num()))
	}
	return d
}

// oracleHuge checks a register map of any magnitude with unbounded arithmetic.
func oracleHuge(bus *JBlock, d *Elem) (errs []string) {
	bw := big.NewInt(d.busWidth())
	B := big.NewInt
	add := func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
	mul := func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
	bad := func(path, f string, a ...any) { errs = append(errs, path+": "+fmt.Sprintf(f, a...)) }
	busAligned := false
	if _, ok := d.prop("align"); ok {
		busAligned = true
	}
	matchBlocks(bus, d, func(b *JBlock, e *Elem, path string) {
		s := b.Sizes
		if s.Own < 0 || s.Cumulated < s.Own || s.Aligned < s.Cumulated {
			bad(path, "sizes %+v", s)
		}
		sp := add(B(b.AddrSpace.End), add(B(1), new(big.Int).Neg(B(b.AddrSpace.Start))))
		if want := mul(B(b.Count), B(s.Aligned)); sp.Cmp(want) != 0 || b.AddrSpace.Start < 0 {
			bad(path, "address space %+v does not hold %d times %d", b.AddrSpace, b.Count, s.Aligned)
		}
		cum, need := B(s.Own), B(s.Own)
		for _, x := range b.Subblocks {
			cum = add(cum, mul(B(x.Count), B(x.Sizes.Cumulated)))
			need = add(need, mul(B(x.Count), B(x.Sizes.Aligned)))
			if x.AddrSpace.Start < b.AddrSpace.Start+s.Own || x.AddrSpace.End > b.AddrSpace.Start+s.Aligned-1 {
				bad(path, "subblock %s at %+v is not behind the registers of its parent and inside of it", x.Name, x.AddrSpace)
			}
			for _, y := range b.Subblocks {
				if x != y && x.AddrSpace.Start <= y.AddrSpace.End && y.AddrSpace.Start <= x.AddrSpace.End {
					bad(path, "subblocks %s and %s overlap", x.Name, y.Name)
				}
			}
		}
		if cum.Cmp(B(s.Cumulated)) != 0 {
			bad(path, "cumulated size %d instead of %s", s.Cumulated, cum)
		}
		if need.Cmp(B(s.Aligned)) > 0 {
			bad(path, "aligned size %d is less than %s", s.Aligned, need)
		}
		if _, ok := e.prop("align"); !ok && !busAligned && !isPow2(s.Aligned) {
			bad(path, "aligned size %d is not a power of two", s.Aligned)
		}
		used := B(0)
		type placed struct {
			name string
			JAccess
		}
		var all []placed
		leaf := func(l *JElem) {
			a := l.Access
			all = append(all, placed{l.Name, a})
			p := path + "." + l.Name
			if a.RegCount < 1 || a.StartAddr < 0 || a.EndAddr >= s.Own || a.EndAddr-a.StartAddr+1 != a.RegCount {
				bad(p, "registers %+v, own size %d", a, s.Own)
			}
			if a.StartBit < 0 || a.EndBit < 0 || B(a.StartBit).Cmp(bw) >= 0 || B(a.EndBit).Cmp(bw) >= 0 || a.StartRegWidth < 1 || a.EndRegWidth < 1 || B(a.StartRegWidth).Cmp(bw) > 0 || B(a.EndRegWidth).Cmp(bw) > 0 {
				bad(p, "bits %+v", a)
			}
			if a.ItemCount < 1 || a.ItemWidth < 1 {
				bad(p, "items %+v", a)
			}
			bits := mul(B(a.ItemCount), B(a.ItemWidth))
			room := mul(B(a.RegCount), bw)
			if bits.Cmp(room) > 0 {
				bad(p, "%s bits do not fit %d registers", bits, a.RegCount)
			}
			used = add(used, bits)
		}
		for _, l := range b.leaves() {
			leaf(l)
		}
		ends := func(p *JProc) (first, lastP, lastR int64) {
			lastP, lastR, first = -1, -1, -1
			var prev *JAccess
			for k, l := range [][]*JElem{p.Params, p.Returns} {
				for _, x := range l {
					leaf(x)
					a := x.Access
					if prev != nil && (a.StartAddr < prev.EndAddr || a.StartAddr == prev.EndAddr && a.StartBit <= prev.EndBit) {
						bad(path+"."+p.Name+"."+x.Name, "starts at %d[%d], the previous one ends at %d[%d]", a.StartAddr, a.StartBit, prev.EndAddr, prev.EndBit)
					}
					prev = &x.Access
					if k == 0 {
						lastP = a.EndAddr
					} else {
						lastR = a.EndAddr
					}
					if first < 0 {
						first = a.StartAddr
					}
				}
			}
			return
		}
		for _, p := range b.Procs {
			_, lp, lr := ends(p)
			if lp >= 0 && (p.CallAddr == nil || *p.CallAddr != lp) {
				bad(path+"."+p.Name, "call address is not %d", lp)
			}
			if lr >= 0 && (p.ExitAddr == nil || *p.ExitAddr != lr) {
				bad(path+"."+p.Name, "exit address is not %d", lr)
			}
		}
		for _, p := range b.Streams {
			_, lp, lr := ends(p)
			if want := max(lp, lr); want >= 0 && p.StbAddr != want {
				bad(path+"."+p.Name, "strobe address %d is not %d", p.StbAddr, want)
			}
		}
		for i, x := range all {
			for _, y := range all[:i] {
				lo, hi := max(x.StartAddr, y.StartAddr), min(x.EndAddr, y.EndAddr)
				if lo > hi || y.Type == "ArrayOneInReg" || x.Type == "ArrayOneInReg" || x.Type == "ArrayNInReg" || y.Type == "ArrayNInReg" || x.Type == "ArrayNInRegMInEndReg" || y.Type == "ArrayNInRegMInEndReg" {
					continue
				}
				bits := func(p placed) (int64, int64) {
					f, l := int64(0), d.busWidth()-1
					if lo == p.StartAddr {
						f = p.StartBit
					}
					if lo == p.EndAddr {
						l = p.EndBit
					}
					return f, l
				}
				xf, xl := bits(x)
				yf, yl := bits(y)
				if lo < hi || xf <= yl && yf <= xl {
					bad(path, "%s at %+v and %s at %+v overlap", x.name, x.JAccess, y.name, y.JAccess)
				}
			}
		}
		if used.Cmp(mul(B(s.Own), bw)) > 0 {
			bad(path, "%s bits do not fit %d registers", used, s.Own)
		}
		for _, x := range e.Subs {
			if x.Kind == "block" {
				continue
			}
			for _, y := range x.Subs {
				found := false
				for _, p := range append(append([]*JProc{}, b.Procs...), b.Streams...) {
					for _, l := range append(append([]*JElem{}, p.Params...), p.Returns...) {
						if p.Name == x.Name && l.Name == y.Name {
							found = true
							if l.Access.ItemCount != y.count() || l.Access.ItemWidth != y.width(d.busWidth()) {
								bad(path+"."+x.Name+"."+y.Name, "%d items of width %d, declared %d of width %d", l.Access.ItemCount, l.Access.ItemWidth, y.count(), y.width(d.busWidth()))
							}
						}
					}
				}
				if !found {
					bad(path+"."+x.Name+"."+y.Name, "missing")
				}
			}
			for _, l := range b.leaves() {
				if l.Name == x.Name && (l.Access.ItemCount != x.count() || l.Access.ItemWidth != x.width(d.busWidth())) {
					bad(path+"."+x.Name, "%d items of width %d, declared %d of width %d", l.Access.ItemCount, l.Access.ItemWidth, x.count(), x.width(d.busWidth()))
				}
			}
		}
	})
	return errs
}

// magnitude is an upper limit on the registers and bits of a design.
func magnitude(d *Elem, bw float64) float64 {
	n := 0.0
	for _, x := range d.Subs {
		if x.Kind == "block" {
			n += float64(x.count()) * magnitude(x, bw)
			continue
		}
		for _, y := range x.Subs {
			n += float64(y.count()) * (float64(y.width(int64(bw))) + 2*bw)
		}
		n += float64(x.count()) * (float64(x.width(int64(bw))) + 2*bw)
	}
	n = 4*n + bw
	if v, ok := d.prop("align"); ok {
		n += float64(v.I)
	}
	return n
}

// checkHuge observes maps of huge designs: either right or refused.
func checkHuge(c *Check) {
	c.parallel(c.n(3000, 30000), func(w *Worker, i int) {
		r := newRand(c.seed, c.id+" huge", i)
		d := hugeDesign(r)
		t := d.flat()
		f := Files{"bus.fbd": t}
		res := w.compile(f)
		c.eval(1)
		if c.unusable(i, res, f, "huge design") {
			return
		}
		if res.Exit != 0 {
			if magnitude(d, float64(d.busWidth())) < 1<<56 {
				c.violation(i, "a valid description of moderate size does not compile: "+res.brief(), f, "")
				return
			}
			c.count("huge designs refused", 1)
			return
		}
		j, err := decodeBus(res.Stdout)
		if err != nil {
			c.violation(i, "output is not a complete JSON document: "+err.Error(), f, string(res.Stdout))
			return
		}
		if e := oracleHuge(j, d); len(e) > 0 {
			c.violation(i, "huge design: "+e[0], f, string(res.Stdout))
			return
		}
		c.count("huge designs mapped", 1)
		c.nontrivial(t)
	})
}
