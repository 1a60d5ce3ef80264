package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Register map oracles.
// ---------------------------------------------------------------------------

type cell struct {
	addr, bit int64
}

// cells expands an access description. It returns the cell of every bit of every item in order.
func cells(a JAccess) ([]cell, error) {
	bw := a.RegWidth
	if bw <= 0 || a.ItemWidth < 0 || a.ItemCount < 0 || a.ItemCount*a.ItemWidth > 1<<20 {
		return nil, fmt.Errorf("unreasonable access %+v", a)
	}
	var r []cell
	put := func(addr, bit, n int64) {
		for i := int64(0); i < n; i++ {
			r = append(r, cell{addr + (bit+i)/bw, (bit + i) % bw})
		}
	}
	switch a.Type {
	case "SingleOneReg", "SingleNRegs", "ArrayOneReg", "ArrayNRegs":
		put(a.StartAddr, a.StartBit, a.ItemCount*a.ItemWidth)
	case "ArrayOneInReg":
		for i := int64(0); i < a.ItemCount; i++ {
			put(a.StartAddr+i, a.StartBit, a.ItemWidth)
		}
	case "ArrayNInReg", "ArrayNInRegMInEndReg":
		if a.ItemWidth == 0 || a.ItemWidth > bw {
			return nil, fmt.Errorf("item width %d impossible for %s", a.ItemWidth, a.Type)
		}
		n := bw / a.ItemWidth
		for i := int64(0); i < a.ItemCount; i++ {
			put(a.StartAddr+i/n, a.StartBit+(i%n)*a.ItemWidth, a.ItemWidth)
		}
	case "ArrayOneInNRegs":
		n := (a.ItemWidth + bw - 1) / bw
		for i := int64(0); i < a.ItemCount; i++ {
			put(a.StartAddr+i*n, a.StartBit, a.ItemWidth)
		}
	default:
		return nil, fmt.Errorf("unknown access type %q", a.Type)
	}
	return r, nil
}

// selfConsistent checks redundant fields of an access against the expansion (C03).
func selfConsistent(a JAccess, cs []cell) string {
	if len(cs) == 0 {
		return ""
	}
	bw := a.RegWidth
	lo, hi := cs[0].addr, cs[0].addr
	for _, c := range cs {
		if c.addr < lo {
			lo = c.addr
		}
		if c.addr > hi {
			hi = c.addr
		}
		if c.bit < 0 || c.bit >= bw {
			return fmt.Sprintf("bit %d outside register of width %d", c.bit, bw)
		}
	}
	var inLo, inHi, minLo, maxHi int64
	minLo, maxHi = bw, -1
	used := map[int64]bool{}
	for _, c := range cs {
		used[c.addr] = true
		if c.addr == lo {
			inLo++
			if c.bit < minLo {
				minLo = c.bit
			}
		}
		if c.addr == hi {
			inHi++
			if c.bit > maxHi {
				maxHi = c.bit
			}
		}
	}
	e := func(n string, got, want int64) string {
		if got != want {
			return fmt.Sprintf("%s is %d, placement implies %d", n, got, want)
		}
		return ""
	}
	for _, s := range []string{
		e("StartAddr", a.StartAddr, lo), e("EndAddr", a.EndAddr, hi), e("RegCount", a.RegCount, hi-lo+1),
		e("RegCount", a.RegCount, int64(len(used))),
		e("StartBit", a.StartBit, minLo), e("EndBit", a.EndBit, maxHi),
		e("StartRegWidth", a.StartRegWidth, inLo), e("EndRegWidth", a.EndRegWidth, inHi),
	} {
		if s != "" {
			return s
		}
	}
	one := a.RegCount == 1
	switch a.Type {
	case "SingleOneReg", "ArrayOneReg":
		if !one {
			return a.Type + " with more than one register"
		}
	case "SingleNRegs":
		if one {
			return a.Type + " with one register"
		}
	}
	switch a.Type {
	case "SingleOneReg", "SingleNRegs":
		if a.ItemCount != 1 {
			return a.Type + " with item count not equal 1"
		}
	}
	if a.Type == "SingleNRegs" || a.Type == "SingleOneReg" || a.Type == "ArrayNRegs" || a.Type == "ArrayOneReg" {
		if a.StartBit+a.ItemCount*a.ItemWidth != (a.RegCount-1)*bw+a.EndBit+1 {
			return "start bit, width and end bit disagree"
		}
	}
	return ""
}

// role of a functionality in one register
type use struct {
	owner string // unique functionality path inside the block
	kind  string // config mask static status param return irq irq-onread enable clear call exit stb
}

func (u use) writes() bool {
	switch u.kind {
	case "config", "mask", "param", "enable", "clear", "call", "stb-down":
		return true
	}
	return false
}

// data reports roles that occupy bits.
type placed struct {
	owner string
	kind  string
	a     JAccess
	cs    []cell
	decl  *Elem
}

// blockMap is the register map of one block.
type blockMap struct {
	b     *JBlock
	items []placed
	uses  map[int64][]use // by local address
	errs  []string
	waste map[int64]bool // second register of an enabled irq that has no explicit clear
}

func mapBlock(b *JBlock, decl *Elem) *blockMap {
	m := &blockMap{b: b, uses: map[int64][]use{}, waste: map[int64]bool{}}
	find := func(p *Elem, n string) *Elem {
		if p == nil {
			return nil
		}
		for _, s := range p.Subs {
			if s.Name == n {
				return s
			}
		}
		return nil
	}
	put := func(owner, kind string, a JAccess, d *Elem) {
		cs, err := cells(a)
		if err != nil {
			m.errs = append(m.errs, owner+": "+err.Error())
			return
		}
		m.items = append(m.items, placed{owner, kind, a, cs, d})
		regs := map[int64]bool{}
		for _, c := range cs {
			if !regs[c.addr] {
				regs[c.addr] = true
				m.uses[c.addr] = append(m.uses[c.addr], use{owner, kind})
			}
		}
	}
	strobe := func(owner, kind string, a *int64) {
		if a != nil {
			m.uses[*a] = append(m.uses[*a], use{owner, kind})
		}
	}
	for _, e := range b.Configs {
		put(e.Name, "config", e.Access, find(decl, e.Name))
	}
	for _, e := range b.Masks {
		put(e.Name, "mask", e.Access, find(decl, e.Name))
	}
	for _, e := range b.Statics {
		put(e.Name, "static", e.Access, find(decl, e.Name))
	}
	for _, e := range b.Statuses {
		put(e.Name, "status", e.Access, find(decl, e.Name))
	}
	for _, e := range b.Irqs {
		k := "irq"
		if e.Clear == "On Read" {
			k = "irq-onread"
		}
		put(e.Name, k, e.Access, find(decl, e.Name))
		if e.AddEnable {
			put(e.Name, "enable", e.EnableAccess, find(decl, e.Name))
			if e.ClearAddr == nil {
				m.waste[e.EnableAccess.EndAddr+1] = true
			}
		}
		strobe(e.Name, "clear", e.ClearAddr)
	}
	for _, p := range b.Procs {
		d := find(decl, p.Name)
		for _, x := range p.Params {
			put(p.Name+"."+x.Name, "param", x.Access, find(d, x.Name))
		}
		for _, x := range p.Returns {
			put(p.Name+"."+x.Name, "return", x.Access, find(d, x.Name))
		}
		strobe(p.Name, "call", p.CallAddr)
		strobe(p.Name, "exit", p.ExitAddr)
	}
	for _, p := range b.Streams {
		d := find(decl, p.Name)
		for _, x := range p.Params {
			put(p.Name+"."+x.Name, "param", x.Access, find(d, x.Name))
		}
		for _, x := range p.Returns {
			put(p.Name+"."+x.Name, "return", x.Access, find(d, x.Name))
		}
		k := "stb-down"
		if len(p.Returns) > 0 {
			k = "stb-up"
		}
		a := p.StbAddr
		strobe(p.Name, k, &a)
	}
	return m
}

func matchBlocks(b *JBlock, d *Elem, f func(b *JBlock, d *Elem, path string)) {
	var rec func(b *JBlock, d *Elem, path string)
	rec = func(b *JBlock, d *Elem, path string) {
		f(b, d, path)
		for _, s := range b.Subblocks {
			var ds *Elem
			if d != nil {
				for _, x := range d.Subs {
					if x.Kind == "block" && x.Name == s.Name {
						ds = x
					}
				}
			}
			rec(s, ds, path+"."+s.Name)
		}
	}
	rec(b, d, b.Name)
}

// --- C01 -------------------------------------------------------------------

func oracleC01(bus *JBlock, d *Elem) (errs []string, bits int64) {
	type gcell struct{ addr, bit int64 }
	global := map[gcell]string{}
	var rec func(b *JBlock, base int64, path string)
	rec = func(b *JBlock, base int64, path string) {
		m := mapBlock(b, nil)
		for _, e := range m.errs {
			errs = append(errs, path+": "+e)
		}
		for _, it := range m.items {
			if it.a.RegWidth != bus.Width {
				errs = append(errs, fmt.Sprintf("%s.%s: register width %d on a bus of width %d", path, it.owner, it.a.RegWidth, bus.Width))
			}
			for k, c := range it.cs {
				g := gcell{base + c.addr, c.bit}
				who := fmt.Sprintf("%s.%s (%s) bit %d of item %d", path, it.owner, it.kind, int64(k)%max64(1, it.a.ItemWidth), int64(k)/max64(1, it.a.ItemWidth))
				if c.bit >= bus.Width || c.bit < 0 {
					errs = append(errs, fmt.Sprintf("%s lies at bit %d of a %d bit register", who, c.bit, bus.Width))
					continue
				}
				if o, ok := global[g]; ok {
					errs = append(errs, fmt.Sprintf("address %d bit %d is used by %s and by %s", g.addr, g.bit, o, who))
					if len(errs) > 5 {
						return
					}
				}
				global[g] = who
				bits++
			}
		}
		for _, s := range b.Subblocks {
			for k := int64(0); k < s.Count; k++ {
				p := path + "." + s.Name
				if s.IsArray {
					p += fmt.Sprintf("[%d]", k)
				}
				// Addresses of nested blocks of array elements repeat with the array period.
				rec(s, base+(s.AddrSpace.Start-b.AddrSpace.Start)+k*s.Sizes.Aligned, p)
			}
		}
	}
	rec(bus, bus.AddrSpace.Start, bus.Name)
	return
}

// --- C02 -------------------------------------------------------------------

func isPow2(n int64) bool { return n > 0 && n&(n-1) == 0 }

// total0 tells that there are no registers in the block and its descendants.
func total0(b *JBlock) bool {
	if b.Sizes.Own != 0 {
		return false
	}
	for _, s := range b.Subblocks {
		if !total0(s) {
			return false
		}
	}
	return true
}

func oracleC02(bus *JBlock, d *Elem, ts bool) (errs []string, blocks int64) {
	bad := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	busAlign := int64(0)
	if v, ok := d.prop("align"); ok {
		busAlign = v.I
	}
	anyOwn := false
	d.walk(func(e, p *Elem, _ int) {
		if _, ok := e.prop("align"); ok && p != nil {
			anyOwn = true
		}
	})
	if bus.AddrSpace.Start != 0 {
		bad("bus address space starts at %d", bus.AddrSpace.Start)
	}
	cum := map[*JBlock]int64{}
	var rec func(b *JBlock, d *Elem, path string) int64
	rec = func(b *JBlock, de *Elem, path string) int64 {
		blocks++
		m := mapBlock(b, de)
		for _, e := range m.errs {
			bad("%s: %s", path, e)
		}
		last := int64(-1)
		for a := range m.uses {
			if a < 0 {
				bad("%s: register at negative address %d", path, a)
			}
			if a >= b.Sizes.Own {
				bad("%s: register at %d outside own size %d (%v)", path, a, b.Sizes.Own, m.uses[a])
			}
			if a > last {
				last = a
			}
		}
		for a := range m.waste {
			if a > last {
				last = a
			}
		}
		if b.Sizes.Own != last+1 {
			bad("%s: own size is %d, last used register is %d", path, b.Sizes.Own, last)
		}
		cnt := b.Count
		if !b.IsArray && cnt != 1 {
			bad("%s: single block with count %d", path, cnt)
		}
		if got := b.AddrSpace.End - b.AddrSpace.Start + 1; got != cnt*b.Sizes.Aligned {
			bad("%s: address space %v holds %d addresses, count * aligned size is %d", path, b.AddrSpace, got, cnt*b.Sizes.Aligned)
		}
		align := busAlign
		own := false
		if de != nil {
			if v, ok := de.prop("align"); ok {
				align, own = v.I, true
			}
		}
		if b.Sizes.Aligned == 0 && total0(b) {
			// nothing to place: blocks holding only elements without registers
		} else if align == 0 {
			if !isPow2(b.Sizes.Aligned) {
				bad("%s: aligned size %d is not a power of two", path, b.Sizes.Aligned)
			} else if busAlign == 0 && !anyOwn && b.AddrSpace.Start%b.Sizes.Aligned != 0 {
				bad("%s: start address %d is not a multiple of the aligned size %d", path, b.AddrSpace.Start, b.Sizes.Aligned)
			}
		} else {
			if b.Sizes.Aligned%align != 0 {
				bad("%s: aligned size %d is not a multiple of align %d", path, b.Sizes.Aligned, align)
			}
			if !anyOwn && !own && b.AddrSpace.Start%align != 0 {
				bad("%s: start address %d is not a multiple of align %d", path, b.AddrSpace.Start, align)
			}
		}
		total := b.Sizes.Own
		type span struct {
			s, e int64
			n    string
		}
		spans := []span{{b.AddrSpace.Start, b.AddrSpace.Start + b.Sizes.Own - 1, "own registers of " + path}}
		var subs int64
		for _, s := range b.Subblocks {
			var ds *Elem
			if de != nil {
				for _, x := range de.Subs {
					if x.Kind == "block" && x.Name == s.Name {
						ds = x
					}
				}
			}
			total += s.Count * rec(s, ds, path+"."+s.Name)
			subs += s.Count * s.Sizes.Aligned
			if s.AddrSpace.Start < b.AddrSpace.Start || s.AddrSpace.End > b.AddrSpace.Start+b.Sizes.Aligned-1 {
				bad("%s.%s: address space %v outside the (first) parent block at %d of size %d", path, s.Name, s.AddrSpace, b.AddrSpace.Start, b.Sizes.Aligned)
			}
			spans = append(spans, span{s.AddrSpace.Start, s.AddrSpace.End, path + "." + s.Name})
		}
		sort.Slice(spans, func(i, j int) bool { return spans[i].s < spans[j].s })
		for i := 1; i < len(spans); i++ {
			if spans[i].s <= spans[i-1].e {
				bad("address spaces of %s %d:%d and %s %d:%d overlap", spans[i-1].n, spans[i-1].s, spans[i-1].e, spans[i].n, spans[i].s, spans[i].e)
			}
		}
		if b.Sizes.Aligned < b.Sizes.Own+subs {
			bad("%s: aligned size %d cannot hold own size %d and subblocks %d", path, b.Sizes.Aligned, b.Sizes.Own, subs)
		}
		if b.Sizes.Cumulated != total {
			bad("%s: cumulated size is %d, registers of the block and its descendants are %d", path, b.Sizes.Cumulated, total)
		}
		cum[b] = total
		return total
	}
	rec(bus, d, bus.Name)
	return
}

// --- C03 -------------------------------------------------------------------

func oracleC03(bus *JBlock, d *Elem) (errs []string, accs int64, types map[string]int64) {
	types = map[string]int64{}
	bad := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	bw := d.busWidth()
	matchBlocks(bus, d, func(b *JBlock, de *Elem, path string) {
		m := mapBlock(b, de)
		for _, e := range m.errs {
			bad("%s: %s", path, e)
		}
		for _, it := range m.items {
			accs++
			types[it.kind+" "+it.a.Type]++
			who := path + "." + it.owner + " (" + it.kind + ")"
			if it.a.RegWidth != bw {
				bad("%s: RegWidth %d on a bus of width %d", who, it.a.RegWidth, bw)
			}
			if s := selfConsistent(it.a, it.cs); s != "" {
				bad("%s: %s in %+v", who, s, it.a)
			}
			var cnt, w int64
			array := false
			switch {
			case it.decl != nil:
				cnt, w = it.decl.count(), it.decl.width(bw)
				array = it.decl.Count >= 0
			case it.owner == "ID":
				cnt, w = 1, min64(bw, 32)
			case it.owner == "TIMESTAMP":
				cnt, w = 1, min64(bw, 36)
			default:
				bad("%s: not declared", who)
				continue
			}
			if it.a.ItemCount != cnt || it.a.ItemWidth != w {
				bad("%s: access has %d items of width %d, declared %d of width %d", who, it.a.ItemCount, it.a.ItemWidth, cnt, w)
			}
			if array != strings.HasPrefix(it.a.Type, "Array") {
				bad("%s: access type %s for array=%v", who, it.a.Type, array)
			}
			// Items of atomic functionalities must not straddle.
			atomic := true
			if it.decl != nil {
				if v, ok := it.decl.prop("atomic"); ok {
					atomic = v.B
				}
			}
			if atomic && it.kind != "param" && it.kind != "return" && w <= bw {
				for i := int64(0); i < it.a.ItemCount; i++ {
					if i*w+w <= int64(len(it.cs)) && w > 0 && it.cs[i*w].addr != it.cs[i*w+w-1].addr {
						bad("%s: item %d straddles registers %d and %d", who, i, it.cs[i*w].addr, it.cs[i*w+w-1].addr)
						break
					}
				}
			}
		}
		lo := int64(0)
		for a := lo; a < b.Sizes.Own; a++ {
			if len(m.uses[a]) == 0 && !m.waste[a] {
				bad("%s: address %d of own size %d holds nothing", path, a, b.Sizes.Own)
			}
		}
	})
	return
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// --- C04 -------------------------------------------------------------------

func oracleC04(bus *JBlock, d *Elem) (errs []string, shared int64, pairs map[string]int64) {
	pairs = map[string]int64{}
	matchBlocks(bus, d, func(b *JBlock, de *Elem, path string) {
		m := mapBlock(b, de)
		for _, e := range m.errs {
			errs = append(errs, path+": "+e)
		}
		for a, us := range m.uses {
			for i := range us {
				for j := range us {
					if i == j {
						continue
					}
					x, y := us[i], us[j]
					ox, oy := strings.SplitN(x.owner, ".", 2)[0], strings.SplitN(y.owner, ".", 2)[0]
					if ox == oy {
						// An irq is never cleared by writing its own enable.
						if x.kind == "clear" && y.kind == "enable" {
							errs = append(errs, fmt.Sprintf("%s: address %d: clearing irq %s writes its enable", path, a, x.owner))
						}
						continue
					}
					if i < j {
						shared++
						k := []string{x.kind, y.kind}
						sort.Strings(k)
						pairs[k[0]+"+"+k[1]]++
					}
					why := ""
					switch {
					case x.writes() && y.writes():
						why = "two writable functionalities share the register"
					case x.kind == "param" || x.kind == "return" || x.kind == "call" || x.kind == "exit" || x.kind == "stb-up" || x.kind == "stb-down":
						why = "proc or stream register is shared"
					case x.kind == "irq-onread":
						why = "clear on read irq register is shared"
					case strings.HasPrefix(x.kind, "irq") && strings.HasPrefix(y.kind, "irq"):
						why = "two irqs share the register"
					}
					if why != "" {
						errs = append(errs, fmt.Sprintf("%s: address %d: %s: %s (%s) and %s (%s)", path, a, why, x.owner, x.kind, y.owner, y.kind))
					}
				}
			}
		}
	})
	return
}

// --- C22 -------------------------------------------------------------------

func oracleC22(bus *JBlock, d *Elem) (errs []string, n int64, shapes map[string]int64) {
	shapes = map[string]int64{}
	bad := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	bw := bus.Width
	matchBlocks(bus, d, func(b *JBlock, de *Elem, path string) {
		if de == nil {
			bad("%s: not declared", path)
			return
		}
		next := int64(0)
		if b == bus {
			next = 1
		}
		_ = next
		regs := map[int64]string{}
		claim := func(a int64, who string) {
			if o, ok := regs[a]; ok && o != who {
				bad("%s: register %d belongs to %s and %s", path, a, o, who)
			}
			regs[a] = who
		}
		check := func(p *JProc, stream bool) {
			var dd *Elem
			for _, s := range de.Subs {
				if s.Name == p.Name && s.Kind == p.Kind {
					dd = s
				}
			}
			who := path + "." + p.Name
			if dd == nil {
				bad("%s: %s not declared", who, p.Kind)
				return
			}
			n++
			var dp, dr []*Elem
			for _, s := range dd.Subs {
				if s.Kind == "param" {
					dp = append(dp, s)
				} else {
					dr = append(dr, s)
				}
			}
			if len(dp) != len(p.Params) || len(dr) != len(p.Returns) {
				bad("%s: %d params and %d returns, declared %d and %d", who, len(p.Params), len(p.Returns), len(dp), len(dr))
				return
			}
			all := append(append([]*JElem(nil), p.Params...), p.Returns...)
			decl := append(append([]*Elem(nil), dp...), dr...)
			shapes[fmt.Sprintf("%s params=%d returns=%d delay=%v", p.Kind, len(dp), len(dr), p.Delay != nil)]++
			_, hasDelay := dd.prop("delay")
			var pos cell
			for i, x := range all {
				if x.Name != decl[i].Name {
					bad("%s: element %d is %s, declared %s", who, i, x.Name, decl[i].Name)
					return
				}
				cs, err := cells(x.Access)
				if err != nil {
					bad("%s.%s: %v", who, x.Name, err)
					return
				}
				if want := decl[i].count() * decl[i].width(bw); int64(len(cs)) != want {
					bad("%s.%s: %d bits placed, declared %d", who, x.Name, len(cs), want)
					return
				}
				for k, c := range cs {
					if i == 0 && k == 0 {
						if c.bit != 0 {
							bad("%s.%s: first bit of the functionality is bit %d", who, x.Name, c.bit)
						}
						pos = c
					} else {
						pos.bit++
						if pos.bit == bw {
							pos.bit = 0
							pos.addr++
						}
						if c != pos {
							bad("%s.%s: bit %d is at %d[%d], packing requires %d[%d]", who, x.Name, k, c.addr, c.bit, pos.addr, pos.bit)
							return
						}
					}
					claim(c.addr, p.Name)
				}
			}
			last := func(l []*JElem) int64 {
				cs, _ := cells(l[len(l)-1].Access)
				return cs[len(cs)-1].addr
			}
			if stream {
				if len(all) > 0 {
					if p.StbAddr != last(all) {
						bad("%s: strobe address %d, last data register %d", who, p.StbAddr, last(all))
					}
				} else {
					claim(p.StbAddr, p.Name)
				}
				return
			}
			str := func(a *int64) string {
				if a == nil {
					return "none"
				}
				return fmt.Sprint(*a)
			}
			// call address
			switch {
			case len(dp) > 0:
				if p.CallAddr == nil || *p.CallAddr != last(p.Params) {
					bad("%s: call address %s, last param register %d", who, str(p.CallAddr), last(p.Params))
				}
			case len(dr) > 0 && !hasDelay:
				if p.CallAddr != nil {
					bad("%s: call address %s for a proc without params and delay", who, str(p.CallAddr))
				}
			case len(dr) > 0:
				if p.CallAddr == nil {
					bad("%s: no call address for a proc with delay", who)
				} else if *p.CallAddr != p.Returns[0].Access.StartAddr {
					bad("%s: call address %d, first register of the proc is %d", who, *p.CallAddr, p.Returns[0].Access.StartAddr)
				}
			default:
				if p.CallAddr == nil {
					bad("%s: no call address for an empty proc", who)
				} else {
					claim(*p.CallAddr, p.Name)
				}
			}
			// exit address
			switch {
			case len(dr) > 0:
				if p.ExitAddr == nil || *p.ExitAddr != last(p.Returns) {
					bad("%s: exit address %s, last return register %d", who, str(p.ExitAddr), last(p.Returns))
				}
			case hasDelay:
				if p.ExitAddr == nil || p.CallAddr == nil || *p.ExitAddr != *p.CallAddr {
					bad("%s: exit address %s with delay and no returns, call address %s", who, str(p.ExitAddr), str(p.CallAddr))
				}
			default:
				if p.ExitAddr != nil {
					bad("%s: exit address %s without returns and delay", who, str(p.ExitAddr))
				}
			}
		}
		for _, p := range b.Procs {
			check(p, false)
		}
		for _, p := range b.Streams {
			check(p, true)
		}
		// Registers of procs and streams hold nothing else.
		m := mapBlock(b, de)
		for a, us := range m.uses {
			if o, ok := regs[a]; ok {
				for _, u := range us {
					if strings.SplitN(u.owner, ".", 2)[0] != o {
						bad("%s: register %d of %s also holds %s", path, a, o, u.owner)
					}
				}
			}
		}
	})
	return
}
