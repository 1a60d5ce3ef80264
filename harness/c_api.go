package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
)

func init() {
	register("C16", checkC16)
	register("C19", checkC19)
}

// ---------------------------------------------------------------------------
// C19: API and helper methods.
// ---------------------------------------------------------------------------

type hm = map[string]any

func hAddr(a JAccess) any { return [2]int64{a.StartAddr, a.EndAddr} }

func hRange(m json.RawMessage) any {
	if len(m) == 0 || string(m) == "null" {
		return nil
	}
	max := int64(0)
	for _, r := range decodeRange(m) {
		if n := int64(bits.Len64(uint64(r.End))); n > max {
			max = n
		}
	}
	h := hm{"bits": max}
	if bytes.HasPrefix(bytes.TrimSpace(m), []byte("[")) {
		h["empty"] = len(decodeRange(m)) == 0
	}
	return h
}

func hElem(e *JElem) any {
	h := hm{"name": e.Name, "type": e.Kind}
	switch e.Kind {
	case "blackbox":
		return h
	case "config", "param":
		h["range"] = hRange(e.Range)
	case "irq":
		h["eaddr"] = hAddr(e.EnableAccess)
	}
	h["addr"] = hAddr(e.Access)
	return h
}

func hElems(l []*JElem) []any {
	r := []any{}
	for _, e := range l {
		r = append(r, hElem(e))
	}
	return r
}

func hBuf(l []*JElem) (size int64, start any) {
	if len(l) == 0 {
		return 0, "panic"
	}
	lo, hi := l[0].Access.StartAddr, l[0].Access.EndAddr
	for _, e := range l {
		lo, hi = min(lo, e.Access.StartAddr), max(hi, e.Access.EndAddr)
	}
	return hi - lo + 1, lo
}

func hProc(p *JProc) any {
	h := hm{"name": p.Name, "type": "proc", "params": hElems(p.Params), "returns": hElems(p.Returns)}
	h["pbuf"], h["pstart"] = hBuf(p.Params)
	h["rbuf"], h["rstart"] = hBuf(p.Returns)
	np, nr := len(p.Params) > 0, len(p.Returns) > 0
	h["empty"] = !np && !nr
	h["isparam"] = np && !nr
	h["isreturn"] = nr && !np
	h["zero"] = hZero(p.Delay)
	return h
}

func hZero(t *JTime) any {
	if t == nil {
		return nil
	}
	return t.S == 0 && t.Ns == 0
}

func hStream(p *JProc) any {
	h := hm{"name": p.Name, "type": "stream", "params": hElems(p.Params), "returns": hElems(p.Returns)}
	h["up"] = len(p.Returns) > 0
	h["down"] = len(p.Returns) == 0
	h["zero"] = hZero(p.Delay)
	h["start"] = p.StbAddr
	if l := append(append([]*JElem{}, p.Params...), p.Returns...); len(l) > 0 {
		_, h["start"] = hBuf(l)
	}
	return h
}

func (k JConsts) empty() bool {
	return len(k.Bools)+len(k.BoolLists)+len(k.Floats)+len(k.Ints)+len(k.IntLists)+len(k.Strings) == 0
}

func hGroup(g *JGroup) any {
	ro := len(g.Configs)+len(g.Masks)+len(g.Params) == 0
	for _, i := range g.Irqs {
		if i.AddEnable || i.Clear == "Explicit" {
			ro = false
		}
	}
	return hm{"name": g.Name, "type": "group", "ro": ro, "noconsts": g.Consts.empty()}
}

func hBlock(b *JBlock) any {
	mapl := func(l []*JProc, f func(*JProc) any) []any {
		r := []any{}
		for _, x := range l {
			r = append(r, f(x))
		}
		return r
	}
	gs, ss := []any{}, []any{}
	for _, g := range b.Groups {
		gs = append(gs, hGroup(g))
	}
	for _, s := range b.Subblocks {
		ss = append(ss, hBlock(s))
	}
	s := b.AddrSpace
	return hm{
		"name": b.Name, "type": "block", "start": s.Start, "noconsts": b.Consts.empty(),
		"spacebits": bits.Len64(uint64(s.End)), "shift": [4]int64{s.Start, s.End, s.Start + 1000, s.End + 1000},
		"blackboxes": hElems(b.Blackboxes), "configs": hElems(b.Configs), "groups": gs,
		"irqs": hElems(b.Irqs), "masks": hElems(b.Masks), "procs": mapl(b.Procs, hProc),
		"statics": hElems(b.Statics), "statuses": hElems(b.Statuses), "streams": mapl(b.Streams, hStream), "subblocks": ss,
	}
}

// normal normalizes a value through JSON; panics of the helpers are reduced to the word.
func normal(v any) any {
	b, _ := json.Marshal(v)
	var x any
	json.Unmarshal(b, &x)
	return dropPanic(x)
}

func dropPanic(x any) any {
	switch t := x.(type) {
	case map[string]any:
		if _, ok := t["panic"]; ok && len(t) == 1 {
			return "panic"
		}
		for k := range t {
			t[k] = dropPanic(t[k])
		}
	case []any:
		for k := range t {
			t[k] = dropPanic(t[k])
		}
	}
	return x
}

// jsonDiff returns the path and the values of the first difference.
func jsonDiff(path string, a, b any) string {
	ma, ok1 := a.(map[string]any)
	mb, ok2 := b.(map[string]any)
	if ok1 && ok2 {
		for k := range ma {
			if d := jsonDiff(path+"."+k, ma[k], mb[k]); d != "" {
				return d
			}
		}
		for k := range mb {
			if _, ok := ma[k]; !ok {
				return path + "." + k + ": unexpected"
			}
		}
		return ""
	}
	la, ok1 := a.([]any)
	lb, ok2 := b.([]any)
	if ok1 && ok2 && len(la) == len(lb) {
		for k := range la {
			if d := jsonDiff(fmt.Sprintf("%s[%d]", path, k), la[k], lb[k]); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a, b) {
		x, _ := json.Marshal(a)
		y, _ := json.Marshal(b)
		return fmt.Sprintf("%s: want %.200s, got %.200s", path, x, y)
	}
	return ""
}

var tsValue = regexp.MustCompile(`("Name": "TIMESTAMP",(?:\n.*){0,6}?"InitValue": ")[^\n]*`)

func dropTS(b []byte) []byte { return tsValue.ReplaceAll(b, []byte(`$1"`)) }

func checkC19(c *Check) {
	c.rule = "random valid descriptions, plain and factored into packages, compiled by the command and by a program linking the public Go API; the API model and constants are compared byte by byte with the printed ones and every helper method with a value computed from the plain data; " +
		"non-trivial: at least 3 elements, distinct by source text"
	c.assume = []string{"the generation time is ignored when comparing models with a timestamp"}
	bin := c.buildProbe()
	n := c.n(12000, 60000)
	probes := newProbePool(bin)
	c.parallel(n, func(w *Worker, i int) {
		p := probes.get(w.n)
		r := newRand(c.seed, "C19", i)
		o := fullOpt(i)
		if i%5 == 1 { // procs, streams and groups
			o.Kinds = map[string]int{"proc": 20, "stream": 20, "group": 20, "config": 10, "irq": 10}
		}
		d := genDesign(r, o)
		var f Files
		name := "main"
		switch i % 3 {
		case 0:
			f = Files{"bus.fbd": d.flat()}
		case 1:
			fa := newFactorer(r, r.Intn(3))
			factorProfile(fa, i)
			f = fa.factor(d, canonical)
		case 2:
			f = Files{"bus.fbd": printItems([]*Item{d.item()}, wild(r))}
		}
		ts := i%4 == 3
		args := []string{"-c", "consts.json"}
		if ts {
			args = append(args, "-add-timestamp")
		}
		dir := w.project(f)
		res := w.runIn(dir, nil, args...)
		c.eval(1)
		j := c.mustCompile(i, res, f, "api")
		if j == nil {
			return
		}
		var a ProbeBus
		if !p.ask(ProbeReq{Op: "compile", Dir: dir, File: "bus.fbd", Name: name, TS: ts}, &a) {
			c.violation(i, fmt.Sprintf("the command compiles the description, the API ended the process (compilation %d of the process): %s", p.served+1, p.dead), f, f.text())
			probes.drop(w.n)
			return
		}
		t := f.text()
		if a.Err != "" {
			c.violation(i, "the command compiles the description, the API reports: "+a.Err, f, t)
			return
		}
		cli, api := res.Stdout, []byte(a.Bus)
		if ts {
			cli, api = dropTS(cli), dropTS(api)
		}
		if !bytes.Equal(cli, api) {
			c.violation(i, fmt.Sprintf("the model of the API (compilation %d of the process) differs from the printed one: %s", p.served, firstDiff(cli, api)), f, t)
			return
		}
		if string(res.Const) != a.Pkgs {
			c.violation(i, "the constants of the API differ from the printed ones: "+firstDiff(res.Const, []byte(a.Pkgs)), f, t)
			return
		}
		if !a.Unchanged {
			c.violation(i, "calling helper methods changed the model", f, t)
			return
		}
		var h any
		json.Unmarshal(a.Helpers, &h)
		if e := jsonDiff("main", normal(hBlock(j)), dropPanic(h)); e != "" {
			c.violation(i, "helper method disagrees with the data: "+e, f, t+string(res.Stdout))
			return
		}
		var dump map[string]struct{ Consts JConsts }
		json.Unmarshal(res.Const, &dump)
		for k, e := range a.PkgEmpty {
			if x := dump[k].Consts; e != x.empty() {
				c.violation(i, fmt.Sprintf("package %s: container emptiness is %v", k, e), f, t)
				return
			}
		}
		j.walk(func(b, _ *JBlock, _ string) {
			c.count("blocks", 1)
			c.count("procs", int64(len(b.Procs)))
			c.count("streams", int64(len(b.Streams)))
			c.count("groups", int64(len(b.Groups)))
			c.count("accesses", int64(len(b.leaves())))
		})
		c.count("packages", int64(len(a.PkgEmpty)))
		if d.size() > 3 {
			c.nontrivial(t)
		}
		if i < 2 {
			c.sample(t)
		}
		// ranges
		if i%4 == 0 {
			var q [][2]int64
			for k := r.Intn(5); k > 0; k-- {
				l := bigish(r)
				q = append(q, [2]int64{l, l + min(bigish(r), 1<<62-l)})
			}
			off := bigish(r) % (1 << 60)
			var ans struct {
				Single [][5]int64
				Bits   int64
				Empty  bool
			}
			if !p.ask(ProbeReq{Op: "range", R: q, N: off}, &ans) {
				c.violation(i, "range helper ended the process: "+p.dead, nil, fmt.Sprint(q, off))
				probes.drop(w.n)
				return
			}
			m := int64(0)
			for k, x := range q {
				b := int64(big.NewInt(x[1]).BitLen())
				m = max(m, b)
				want := [5]int64{b, x[0] + off, x[1] + off, x[0], x[1]}
				if len(ans.Single) <= k || ans.Single[k] != want {
					c.violation(i, fmt.Sprintf("range %v shifted by %d: want %v, got %v", x, off, want, ans.Single), nil, "")
					return
				}
				c.count("ranges", 1)
			}
			if ans.Bits != m || ans.Empty != (len(q) == 0) {
				c.violation(i, fmt.Sprintf("ranges %v: want bit width %d, got %d, empty %v", q, m, ans.Bits, ans.Empty), nil, "")
			}
		}
	})
	probes.close()
}

func bigish(r *rand.Rand) int64 {
	n := r.Intn(62)
	v := int64(1) << n
	switch r.Intn(4) {
	case 0:
		return v
	case 1:
		return v - 1
	case 2:
		return 0
	}
	return r.Int63n(v + 1)
}

// probePool keeps one probe process per worker.
type probePool struct {
	bin string
	p   [64]*Probe
}

func newProbePool(bin string) *probePool { return &probePool{bin: bin} }

func (l *probePool) get(n int) *Probe {
	if l.p[n] == nil {
		l.p[n] = startProbe(l.bin)
	}
	return l.p[n]
}

func (l *probePool) drop(n int) {
	if l.p[n] != nil {
		l.p[n].close()
		l.p[n] = nil
	}
}

func (l *probePool) close() {
	for i := range l.p {
		l.drop(i)
	}
}

// ---------------------------------------------------------------------------
// C16: bit strings.
// ---------------------------------------------------------------------------

type bsAns struct {
	Bin, Oct, Hex any
	BW, CW        any
	ToBin, BinBin any
	Lit, U64      any
	Ext           []any
	Same          bool
}

func isPanic(v any) (string, bool) {
	m, ok := v.(map[string]any)
	if !ok {
		return "", false
	}
	s, ok := m["panic"].(string)
	return s, ok
}

// refBits expands digits to bits, most significant first.
func refBits(f byte, digits string) string {
	n := map[byte]int{'b': 1, 'o': 3, 'x': 4}[f]
	var b strings.Builder
	for _, d := range []byte(digits) {
		v := strings.IndexByte("0123456789abcdef", d|0x20)
		if d >= '0' && d <= '9' {
			v = int(d - '0')
		}
		if v < 0 || f != 'x' && strings.IndexByte("01234567", d) < 0 || d == '-' {
			b.WriteString(strings.Repeat(string(d), n))
			continue
		}
		for k := n - 1; k >= 0; k-- {
			b.WriteByte('0' + byte(v>>k&1))
		}
	}
	return b.String()
}

func checkBS(s string, ws []int64, a *bsAns) string {
	f := s[0]
	digits := s[2 : len(s)-1]
	bs := refBits(f, digits)
	n := map[byte]int{'b': 1, 'o': 3, 'x': 4}[f]
	eq := func(what string, got any, want any) string {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("%s of %s: want %v, got %v", what, s, want, got)
		}
		return ""
	}
	for _, e := range []string{
		eq("IsBin", a.Bin, f == 'b'), eq("IsOctal", a.Oct, f == 'o'), eq("IsHex", a.Hex, f == 'x'),
		eq("BitWidth", a.BW, len(digits)*n), eq("CharWidth", a.CW, len(digits)),
		eq("ToBin", a.ToBin, `b"`+bs+`"`), eq("ToBin of ToBin", a.BinBin, `b"`+bs+`"`), eq("ValueLiteral", a.Lit, digits),
	} {
		if e != "" {
			return e
		}
	}
	if !a.Same {
		return "the receiver " + s + " changed"
	}
	meta := strings.Trim(bs, "01") != ""
	for _, x := range bs {
		if x != '0' && x != '1' {
			meta = true
		}
	}
	v, ok := new(big.Int).SetString(bs, 2)
	if bs == "" {
		ok = false
	}
	_, panicked := isPanic(a.U64)
	switch {
	case meta || !ok || v.BitLen() > 64:
		if !panicked {
			return fmt.Sprintf("Uint64 of %s is %v", s, a.U64)
		}
	default:
		if e := eq("Uint64", a.U64, v.String()); e != "" {
			return e
		}
	}
	for k, w := range ws {
		p, panicked := isPanic(a.Ext[k])
		if w < int64(len(bs)) {
			if !panicked {
				return fmt.Sprintf("Extend of %s to lesser width %d returns %v", s, w, a.Ext[k])
			}
			continue
		}
		if panicked {
			if strings.Contains(p, "not yet implemented") {
				continue
			}
			return fmt.Sprintf("Extend of %s to %d panics: %s", s, w, p)
		}
		x, _ := a.Ext[k].(string)
		if len(x) < 3 || strings.IndexByte("box", x[0]) < 0 || x[1] != '"' || x[len(x)-1] != '"' {
			return fmt.Sprintf("Extend of %s to %d returns %v", s, w, a.Ext[k])
		}
		if got, want := refBits(x[0], x[2:len(x)-1]), strings.Repeat("0", int(w)-len(bs))+bs; got != want {
			return fmt.Sprintf("Extend of %s to %d: want bits %s, got %s", s, w, want, got)
		}
	}
	return ""
}

func checkC16(c *Check) {
	c.rule = "bit string literals of every format (all strings up to a length limit over reduced digit sets, all digits, random ones up to 200 digits, with metavalues) given to every method of the public type, compared with a reference expansion; non-trivial: distinct literals with at least 2 digits"
	c.assume = []string{"extending an octal bit string may stop with 'not yet implemented'"}
	bin := c.buildProbe()
	probes := newProbePool(bin)
	meta := map[byte]string{'b': "01-uwxzUWXZhlHL", 'o': "01234567-uwxzUWXZhlHL", 'x': "0123456789abcdefABCDEF-uwxzUWXZhlHL"}
	var fixed []string
	for f, al := range meta {
		for _, a := range al {
			fixed = append(fixed, fmt.Sprintf(`%c"%c"`, f, a))
			for _, b := range al {
				fixed = append(fixed, fmt.Sprintf(`%c"%c%c"`, f, a, b))
			}
		}
	}
	// every binary string up to 10 digits, and the widths around the limits of a machine word
	for n := 3; n <= 10; n++ {
		for v := 0; v < 1<<n; v++ {
			fixed = append(fixed, fmt.Sprintf(`b"%0*b"`, n, v))
		}
	}
	for _, n := range []int{63, 64, 65, 128} {
		fixed = append(fixed, `b"`+strings.Repeat("1", n)+`"`, `b"0`+strings.Repeat("1", n-1)+`"`)
	}
	for _, n := range []int{15, 16, 17} {
		fixed = append(fixed, `x"`+strings.Repeat("f", n)+`"`, `x"0`+strings.Repeat("F", n-1)+`"`)
	}
	for _, n := range []int{20, 21, 22, 23} {
		fixed = append(fixed, `o"1`+strings.Repeat("7", n)+`"`, `o"2`+strings.Repeat("0", n)+`"`, `o"0`+strings.Repeat("7", n)+`"`)
	}
	const batch = 50
	nf := (len(fixed) + batch - 1) / batch
	n := nf + c.n(1500, 20000)
	c.parallel(n, func(w *Worker, i int) {
		p := probes.get(w.n)
		r := newRand(c.seed, "C16", i)
		for k := 0; k < batch; k++ {
			var s string
			if i < nf {
				if i*batch+k >= len(fixed) {
					return
				}
				s = fixed[i*batch+k]
			} else {
				f := "box"[r.Intn(3)]
				al := meta[f]
				if r.Intn(2) == 0 {
					al = map[byte]string{'b': "01", 'o': "01234567", 'x': "0123456789abcdefABCDEF"}[f]
				}
				l := 1 + r.Intn(30)
				if r.Intn(6) == 0 {
					l = 1 + r.Intn(200)
				}
				b := make([]byte, l)
				for x := range b {
					b[x] = al[r.Intn(len(al))]
				}
				s = fmt.Sprintf(`%c"%s"`, f, b)
			}
			bw := int64(len(refBits(s[0], s[2:len(s)-1])))
			ws := []int64{bw, bw + 1, bw + 2, bw + 3, bw + 4, bw + 5, bw + int64(r.Intn(70)), bw + 4*int64(r.Intn(20)), bw - 1, bw - 1 - int64(r.Intn(int(bw)))}
			var a bsAns
			if !p.ask(ProbeReq{Op: "bitstr", S: s, Ws: ws}, &a) {
				c.violation(i, "bit string "+s+" ended the process: "+p.dead, nil, "")
				probes.drop(w.n)
				return
			}
			c.eval(1)
			if len(s) > 4 {
				c.nontrivial(s)
			}
			if e := checkBS(s, ws, &a); e != "" {
				c.violation(i, e, Files{"literal": s}, "")
				return
			}
			for _, x := range a.Ext {
				if p, ok := isPanic(x); ok {
					c.count("Extend panics: "+strings.SplitN(p, "0", 2)[0], 1)
				} else {
					c.count("Extend results", 1)
				}
			}
			if _, ok := isPanic(a.U64); ok {
				c.count("Uint64 impossible", 1)
			} else {
				c.count("Uint64 results", 1)
			}
		}
		if i < nf {
			c.sample(fixed[i*batch])
		}
	})
	probes.close()
}
