package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

func init() { register("C07", checkC07) }

type JPkgs map[string]struct{ Consts JConsts }

// lookup returns the dumped constant and how many containers hold it.
func (c *JConsts) lookup(n string) (RV, int) {
	var v RV
	k := 0
	if x, ok := c.Ints[n]; ok {
		v = rvInt(x)
		k++
	}
	if x, ok := c.Floats[n]; ok {
		v = RV{K: 'f', F: x}
		k++
	}
	if x, ok := c.Bools[n]; ok {
		v = RV{K: 'b', B: x}
		k++
	}
	if x, ok := c.Strings[n]; ok {
		v = RV{K: 's', S: x}
		k++
	}
	if x, ok := c.IntLists[n]; ok {
		v = RV{K: 'l'}
		for _, y := range x {
			v.List = append(v.List, rvInt(y))
		}
		k++
	}
	if x, ok := c.BoolLists[n]; ok {
		v = RV{K: 'l'}
		for _, y := range x {
			v.List = append(v.List, RV{K: 'b', B: y})
		}
		k++
	}
	return v, k
}

func (c *JConsts) names() []string {
	var l []string
	for k := range c.Ints {
		l = append(l, k)
	}
	for k := range c.Floats {
		l = append(l, k)
	}
	for k := range c.Bools {
		l = append(l, k)
	}
	for k := range c.Strings {
		l = append(l, k)
	}
	for k := range c.IntLists {
		l = append(l, k)
	}
	for k := range c.BoolLists {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func sameRV(a, b RV) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case 'i':
		return a.I.Cmp(b.I) == 0
	case 'f':
		return sameFloat(a.F, b.F)
	case 'b':
		return a.B == b.B
	case 's':
		return a.S == b.S
	case 'l':
		if len(a.List) != len(b.List) {
			return false
		}
		for i := range a.List {
			if !sameRV(a.List[i], b.List[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func exprOps(e *Expr, f func(string)) {
	switch e.K {
	case "bin", "un", "call":
		n := 0
		for _, a := range e.A {
			if len(a.A) > 0 {
				n++
			}
		}
		f(e.K + " " + e.S)
		if n > 0 && e.K == "bin" {
			for i, a := range e.A {
				if a.K == "bin" {
					f(fmt.Sprintf("nest %s arg%d %s", e.S, i, a.S))
				}
			}
		}
	}
	for _, a := range e.A {
		exprOps(a, f)
	}
}

func checkC07(c *Check) {
	c.rule = "random expressions (and systematic pairs of operators) compared with a big integer reference evaluator through dumped constants, widths, array sizes, ranges, delays and arguments; " +
		"error cases one per run; non-trivial: expression with at least one operator, distinct by text"
	c.assume = []string{"the rounding direction of remainders with negative operands and the reading of unary operators next to an exponentiation are left open; comparison and bit operators (declared not implemented) are not generated", "floating point results are compared with relative tolerance 1e-12"}
	nb := c.n(8000, 60000)
	ne := c.n(8000, 40000)
	pairs := opPairs()
	nt := c.n(60, 600)
	c.parallel(nb+ne+len(pairs)+nt, func(w *Worker, i int) {
		r := newRand(c.seed, "C07", i)
		switch {
		case i >= nb+ne+len(pairs):
			c.exprTimes(w, i, i-(nb+ne+len(pairs)))
		case i < nb:
			c.exprBatch(w, i)
		case i < nb+ne:
			c.exprError(w, i)
		default:
			p := pairs[i-nb-ne]
			t := "const A = " + p.text + "\nmain bus\n  c config\n"
			f := Files{"bus.fbd": t}
			res := w.compile(f, "-c", "c.json")
			c.eval(1)
			if c.unusable(i, res, f, "expression") {
				return
			}
			c.checkConst(i, res, f, map[string]RV{"A": p.want})
			c.nontrivial(p.text)
			_ = r
		}
	})
}

// exprTimes compares delays with their values, in particular around whole seconds and for values near the end of 64 bits.
func (c *Check) exprTimes(w *Worker, i, k int) {
	r := newRand(c.seed, "C07times", k)
	per := map[string]int64{"s": 1, "ms": 1000, "us": 1000000, "ns": 1000000000}
	var want []Value
	var b strings.Builder
	b.WriteString("main bus\n")
	for q := 0; q < 40; q++ {
		u := pick(r, "s", "ms", "us", "ns")
		var n int64
		switch r.Intn(5) {
		case 0:
			n = per[u]*(1+r.Int63n(5)) + r.Int63n(3) - 1
		case 1:
			n = per[u] * r.Int63n(math.MaxInt64/per[u])
		case 2:
			n = math.MaxInt64 >> r.Intn(63)
		case 3:
			n = r.Int63n(per[u]*3 + 1)
		default:
			n = r.Int63()
		}
		v := vt(n, u)
		want = append(want, v)
		base := pick(r, "proc", "stream")
		if r.Intn(2) == 0 {
			fmt.Fprintf(&b, "  e%d %s; delay = %s\n", q, base, wild(r).E(v.expr()))
		} else {
			fmt.Fprintf(&b, "  e%d %s\n    delay = %s\n    p param\n", q, base, wild(r).E(v.expr()))
		}
		c.seen("time literals", fmt.Sprintf("%s whole=%v carry=%v", u, v.Ns == 0, v.Sec > 0))
	}
	f := Files{"bus.fbd": b.String()}
	res := w.compile(f)
	c.eval(1)
	if c.unusable(i, res, f, "delays") {
		return
	}
	j := c.mustCompile(i, res, f, "delays")
	if j == nil {
		return
	}
	got := map[string]*JTime{}
	for _, p := range j.Procs {
		got[p.Name] = p.Delay
	}
	for _, p := range j.Streams {
		got[p.Name] = p.Delay
	}
	for q, v := range want {
		d := got[fmt.Sprintf("e%d", q)]
		if d == nil || d.S != v.Sec || d.Ns != v.Ns {
			c.violation(i, fmt.Sprintf("delay of e%d, %s, must be %d s %d ns, got %+v", q, exprString(v.expr()), v.Sec, v.Ns, d), f, "")
			return
		}
		c.count("values compared", 1)
	}
	c.nontrivial(b.String())
}

type opPair struct {
	text string
	want RV
}

// opPairs enumerates a op b op c over all operators without parentheses, with several operand triples.
func opPairs() []opPair {
	ops := []string{"+", "-", "*", "/", "%", "**", "<<", ">>"}
	var l []opPair
	for _, o1 := range ops {
		for _, o2 := range ops {
			for _, t := range [][3]int64{{7, 3, 2}, {100, 4, 3}, {2, 3, 1}, {64, 2, 2}, {5, 5, 5}, {90, 6, 0}} {
				a, b, d := eInt(t[0]), eInt(t[1]), eInt(t[2])
				var e *Expr
				if prec[o2] > prec[o1] {
					e = eBin(o1, a, eBin(o2, b, d))
				} else {
					e = eBin(o2, eBin(o1, a, b), d)
				}
				v := refEval(e, nil)
				// An operand that is a float is an error.
				if v.K != 0 && !okForExact(e, nil) {
					continue
				}
				l = append(l, opPair{fmt.Sprintf("%d %s %d %s %d", t[0], o1, t[1], o2, t[2]), v})
			}
		}
	}
	return append(append(append(l, unaryPairs()...), remPairs()...), literals()...)
}

// literals enumerates integer literals of all bases, with leading zeros and digits of either case.
func literals() (l []opPair) {
	add := func(t string, v int64) { l = append(l, opPair{t, rvInt(v)}) }
	for _, v := range []int64{0, 1, 2, 7, 8, 9, 10, 11, 15, 16, 64, 99, 100, 171, 255, 256, 511, 2748, 3567, 48879, 1 << 31, 3735928559, 1<<32 - 1, 1 << 32, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64} {
		for _, z := range []string{"", "0", "00", "0000000000000000000000"} {
			add(fmt.Sprintf("%s%d", z, v), v)
			add(fmt.Sprintf("0x%s%x", z, v), v)
			add(fmt.Sprintf("0x%s%X", z, v), v)
			add(fmt.Sprintf("0X%s%x", z, v), v)
			add(fmt.Sprintf("0X%s%X", z, v), v)
			add(fmt.Sprintf("0o%s%o", z, v), v)
			add(fmt.Sprintf("0O%s%o", z, v), v)
			add(fmt.Sprintf("0b%s%b", z, v), v)
			add(fmt.Sprintf("0B%s%b", z, v), v)
		}
	}
	return l
}

// unaryPairs enumerates a op -b op c and the like without parentheses. The unary operator binds stronger than every
// operator but the exponentiation, next to which it is not observed.
func unaryPairs() []opPair {
	ops := []string{"+", "-", "*", "/", "%", "<<", ">>"}
	var l []opPair
	for _, o1 := range ops {
		for _, o2 := range ops {
			for _, t := range [][3]int64{{8, 2, 2}, {7, 3, 2}, {100, 4, 3}, {64, 2, 2}, {90, 6, 4}} {
				for neg := 1; neg < 27; neg++ {
					var x [3]*Expr
					var s [3]string
					for k, m := 0, neg; k < 3; k, m = k+1, m/3 {
						x[k], s[k] = eInt(t[k]), fmt.Sprint(t[k])
						if u := []string{"", "-", "+"}[m%3]; u != "" {
							x[k], s[k] = eUn(u, x[k]), u+s[k]
						}
					}
					var e *Expr
					if prec[o2] > prec[o1] {
						e = eBin(o1, x[0], eBin(o2, x[1], x[2]))
					} else {
						e = eBin(o2, eBin(o1, x[0], x[1]), x[2])
					}
					v := refEval(e, nil)
					if v.K == 0 || !okForExact(e, nil) {
						continue
					}
					l = append(l, opPair{fmt.Sprintf("%s %s %s %s %s", s[0], o1, s[1], o2, s[2]), v})
				}
			}
		}
	}
	return l
}

// remPairs holds identities that hold for the remainder with operands of any sign, whichever way the quotient is rounded.
func remPairs() []opPair {
	var l []opPair
	for _, a := range []int64{0, 1, 2, 6, 7, 8, 100, 1 << 40} {
		for _, b := range []int64{1, 2, 3, 7, 10} {
			for _, s := range []string{"(-%[1]d) %% %[2]d", "%[1]d %% (-%[2]d)", "(-%[1]d) %% (-%[2]d)"} {
				rem := fmt.Sprintf(s, a, b)
				sa, sb := a, b
				if rem[1] == '-' {
					sa = -a
				}
				if strings.Contains(rem[2:], "-") {
					sb = -b
				}
				// The difference to the dividend is a multiple of the divisor,
				l = append(l, opPair{fmt.Sprintf("floor(((%d) - (%s)) / (%d)) * (%d) + (%s)", sa, rem, sb, sb, rem), rvInt(sa)})
				// and the absolute value is less than the one of the divisor.
				l = append(l, opPair{fmt.Sprintf("bool(floor((%s) ** 2 / %d))", rem, b*b), RV{K: 'b', B: false}})
			}
		}
	}
	return l
}

// checkConst compares the constants of package main with the expected values.
func (c *Check) checkConst(i int, res *Res, f Files, want map[string]RV) bool {
	fail := false
	for _, v := range want {
		if v.K == 0 {
			fail = true
		}
	}
	if fail {
		if res.Exit == 0 {
			c.violation(i, "an expression without a defined value is accepted", f, string(res.Const))
			return false
		}
		if len(res.Stderr) == 0 {
			c.violation(i, "evaluation error without any message", f, "")
			return false
		}
		c.count("evaluation errors observed", 1)
		return true
	}
	if res.Exit != 0 {
		c.violation(i, "valid expressions do not evaluate: "+res.brief(), f, "")
		return false
	}
	var p JPkgs
	if err := json.Unmarshal(res.Const, &p); err != nil {
		c.violation(i, "constants file is not valid JSON: "+err.Error(), f, string(res.Const))
		return false
	}
	m, ok := p["main"]
	if !ok {
		c.violation(i, "constants file has no package main", f, string(res.Const))
		return false
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		got, k := m.Consts.lookup(n)
		if k != 1 {
			c.violation(i, fmt.Sprintf("constant %s is dumped %d times", n, k), f, string(res.Const))
			return false
		}
		if !sameRV(got, want[n]) {
			c.violation(i, fmt.Sprintf("constant %s is %s, must be %s", n, rvString(got), rvString(want[n])), f, string(res.Const))
			return false
		}
		c.count("values compared", 1)
	}
	return true
}

func (c *Check) exprBatch(w *Worker, i int) {
	r := newRand(c.seed, "C07", i)
	g := &EGen{r: r, env: map[string]RV{}}
	want := map[string]RV{}
	var items []*Item
	n := 6 + r.Intn(14)
	used := map[string]bool{}
	gen := &Gen{r: r}
	intNames := map[string]int64{}
	for k := 0; k < n; k++ {
		name := gen.name(used)
		var e *Expr
		var v RV
		switch x := r.Intn(20); {
		case x < 12:
			ex, b := g.intExpr(1 + r.Intn(5))
			e, v = ex, RV{K: 'i', I: b}
		case x == 12:
			for {
				e = g.flt(2)
				v = refEval(e, g.env)
				if (v.K == 'f' || v.K == 'i') && okForExact(e, g.env) {
					break
				}
			}
		case x == 13:
			v = RV{K: 'f', F: float64(r.Intn(100000)) / 64}
			e = eText(floatText(v.F))
			if r.Intn(2) == 0 {
				v.F = -v.F
				e = eUn("-", e)
			}
		case x == 14:
			v = RV{K: 's', S: gen.constStr()}
			e = eText("\"" + v.S + "\"")
		case x == 15:
			b := r.Intn(2) == 0
			v, e = RV{K: 'b', B: b}, eText(fmt.Sprint(b))
			if r.Intn(2) == 0 {
				ex, iv := g.intExpr(2)
				e, v = eCall("bool", ex), RV{K: 'b', B: iv.Sign() != 0}
			}
		case x == 16:
			e = eList()
			v = RV{K: 'l'}
			for q := 0; q <= r.Intn(4); q++ {
				ex, b := g.intExpr(2)
				e.A = append(e.A, ex)
				v.List = append(v.List, RV{K: 'i', I: b})
			}
			if r.Intn(6) == 0 {
				c.count("long lists", 1)
				for q := 10 + r.Intn(90); q > 0; q-- {
					t := r.Int63n(1000)
					e.A = append(e.A, eInt(t))
					v.List = append(v.List, rvInt(t))
				}
			}
		case x == 17:
			e = eList()
			v = RV{K: 'l'}
			for q := 0; q <= r.Intn(4); q++ {
				ex, b := g.intExpr(1)
				e.A = append(e.A, eCall("bool", ex))
				v.List = append(v.List, RV{K: 'b', B: b.Sign() != 0})
			}
			if r.Intn(6) == 0 {
				c.count("long lists", 1)
				for q := 10 + r.Intn(90); q > 0; q-- {
					b := r.Intn(2) == 0
					e.A = append(e.A, eText(fmt.Sprint(b)))
					v.List = append(v.List, RV{K: 'b', B: b})
				}
			}
		default:
			t := r.Int63n(200) + 1
			e, v = g.intExprFor(t, 4), rvInt(t)
		}
		if v.K == 'i' {
			g.env[name] = v
			g.ids = append(g.ids, name)
			if v.I.IsInt64() {
				intNames[name] = v.I.Int64()
			}
		}
		if v.K == 'i' || v.K == 'f' || v.K == 'b' || v.K == 's' || v.K == 'l' {
			want[name] = v
		}
		items = append(items, &Item{K: "const", Name: name, E: e})
		exprOps(e, func(s string) { c.seen("operator contexts", s) })
		c.nontrivial(exprString(e))
	}
	// Order of definitions must not matter.
	r.Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })

	// Uses of expressions outside of constants.
	bus := &Item{K: "inst", Name: "main", Base: "bus"}
	type exp struct {
		name       string
		width, cnt int64
	}
	var exps []exp
	for k := 0; k < 4; k++ {
		wd, cn := 1+r.Int63n(64), 1+r.Int63n(9)
		nm := fmt.Sprintf("u%d", k)
		it := &Item{K: "inst", Name: nm, Base: "status", Arr: g.intExprFor(cn, 3)}
		it.Body = append(it.Body, &Item{K: "prop", Name: "width", E: g.intExprFor(wd, 4)})
		bus.Body = append(bus.Body, it)
		exps = append(exps, exp{nm, wd, cn})
	}
	lo := r.Int63n(1000)
	hi := lo + r.Int63n(1<<20)
	bus.Body = append(bus.Body, &Item{K: "inst", Name: "rng", Base: "config", Body: []*Item{{K: "prop", Name: "range", E: eBin(":", g.intExprFor(lo, 3), g.intExprFor(hi, 3))}}})
	tn, tu := int64(1+r.Intn(100000)), pick(r, "s", "ms", "us", "ns")
	tv := vt(tn, tu)
	items = append(items, &Item{K: "const", Name: "Tdelay", E: tv.expr()})
	bus.Body = append(bus.Body, &Item{K: "inst", Name: "pr", Base: "proc", Body: []*Item{{K: "prop", Name: "delay", E: eID("Tdelay")}}})
	iv := r.Int63n(1 << 31)
	items = append(items, &Item{K: "type", Name: "Twith", Base: "config", Params: []Param{{"pa", nil}, {"pb", g.intExprFor(3, 2)}},
		Body: []*Item{{K: "prop", Name: "init-value", E: eBin("+", eID("pa"), eID("pb"))}}})
	bus.Body = append(bus.Body, &Item{K: "inst", Name: "arg", Base: "Twith", HasArgs: true, Args: []Arg{{"", g.intExprFor(iv-3, 3)}}})
	items = append(items, bus)
	st := canonical()
	if r.Intn(2) == 0 {
		st = &Style{r: r, Space: 30, Paren: 15, Radix: 30, Group: 30, Bare: 60}
	}
	t := printItems(items, st)
	f := Files{"bus.fbd": t}
	res := w.compile(f, "-c", "c.json")
	c.eval(1)
	if i < 2 {
		c.sample(t)
	}
	if c.unusable(i, res, f, "expressions") {
		return
	}
	if !c.checkConst(i, res, f, want) {
		return
	}
	j := c.mustCompile(i, res, f, "expressions")
	if j == nil {
		return
	}
	sts := map[string]*JElem{}
	for _, s := range j.Statuses {
		sts[s.Name] = s
	}
	for _, e := range exps {
		s := sts[e.name]
		if s == nil || s.Width != e.width || s.Count != e.cnt {
			c.violation(i, fmt.Sprintf("status %s must have width %d and count %d, got %+v", e.name, e.width, e.cnt, s), f, "")
			return
		}
	}
	for _, s := range j.Configs {
		switch s.Name {
		case "rng":
			rg := decodeRange(s.Range)
			if len(rg) != 1 || rg[0].Start != lo || rg[0].End != hi {
				c.violation(i, fmt.Sprintf("range must be %d:%d, got %s", lo, hi, s.Range), f, "")
				return
			}
		case "arg":
			v, err := bitStrValue(s.InitValue)
			if err != nil || v.Cmp(big.NewInt(iv)) != 0 {
				c.violation(i, fmt.Sprintf("argument sum must be %d, got %s", iv, s.InitValue), f, "")
				return
			}
		}
	}
	d := j.Procs[0].Delay
	if d == nil || d.S != tv.Sec || d.Ns != tv.Ns {
		c.violation(i, fmt.Sprintf("delay %d %s must be %d s %d ns, got %+v", tn, tu, tv.Sec, tv.Ns, d), f, "")
	}
	c.count("uses outside constants compared", int64(len(exps)+3))
}

func (g *Gen) constStr() string {
	r := g.r
	n := r.Intn(12)
	var b strings.Builder
	pool := []rune("abcXYZ 0123#;,.:=()[]'\\|-+*/ęñ°\t")
	for i := 0; i < n; i++ {
		ch := pool[r.Intn(len(pool))]
		if ch == '\t' {
			ch = '_'
		}
		b.WriteRune(ch)
	}
	return b.String()
}

// bitStrValue returns the value of a bit string without metavalues.
func bitStrValue(s string) (*big.Int, error) {
	if len(s) < 3 || s[1] != '"' || s[len(s)-1] != '"' {
		return nil, fmt.Errorf("malformed bit string %s", s)
	}
	base := map[byte]int{'b': 2, 'o': 8, 'x': 16}[s[0]]
	if base == 0 {
		return nil, fmt.Errorf("malformed bit string %s", s)
	}
	v, ok := new(big.Int).SetString(s[2:len(s)-1], base)
	if !ok {
		return nil, fmt.Errorf("malformed bit string %s", s)
	}
	return v, nil
}

// exprError embeds one failing subexpression.
func (c *Check) exprError(w *Worker, i int) {
	r := newRand(c.seed, "C07", i)
	g := &EGen{r: r, env: map[string]RV{}}
	num := func() *Expr { e, _ := g.intExpr(1 + r.Intn(2)); return e }
	zero := func() *Expr { return g.intExprFor(0, 2) }
	neg := func() *Expr { return g.intExprFor(-1-r.Int63n(20), 2) }
	fl := func() *Expr { return eText(pick(r, "1.5", "0.25", "100.75")) }
	other := func() *Expr {
		return pick(r, eText("true"), eText("\"abc\""), eText("3 us"), eText("b\"101\""), eList(eInt(1), eInt(2)), fl())
	}
	var e *Expr
	kind := ""
	switch k := r.Intn(13); k {
	case 0:
		e, kind = eBin("/", num(), zero()), "division by zero"
	case 1:
		e, kind = eBin("%", num(), zero()), "remainder by zero"
	case 2:
		e, kind = eBin(pick(r, "<<", ">>"), num(), neg()), "negative shift"
	case 3:
		e, kind = eBin(pick(r, "+", "-", "*", "/", "%", "**", "<<", ">>"), num(), other()), "ill typed right operand"
	case 4:
		e, kind = eBin(pick(r, "+", "-", "*", "/", "%", "**", "<<", ">>"), other(), num()), "ill typed left operand"
	case 5:
		e, kind = eCall(pick(r, "log2", "log10"), pick(r, zero(), neg())), "log of non-positive"
	case 6:
		e, kind = eCall(pick(r, "bool", "ceil", "floor", "log2", "log10"), pick(r, eText("true"), eText("\"x\""), eText("1 ns"), eList(eInt(1)))), "ill typed function argument"
		if e.S == "bool" {
			e.A[0] = other()
		}
	case 7:
		a, b := eInt(math63(r.Intn(3))), eInt(math63(r.Intn(3)))
		e, kind = pick(r, eBin("+", a, b), eBin("*", a, b), eBin("-", eInt(-math63(0)), b), eBin("<<", a, eInt(1+r.Int63n(80)))), "overflow"
	case 8:
		e, kind = eBin("**", eInt(2+r.Int63n(50)), eInt(64+r.Int63n(1000000))), "exponentiation overflow"
	case 9:
		e, kind = eUn(pick(r, "-", "+"), pick(r, eText("true"), eText("\"x\""), eText("3 us"), eText("b\"1\""), eList(eInt(1)))), "ill typed unary operand"
	case 10:
		e, kind = eBin("+", num(), eID("Undefined")), "undefined name"
	case 11:
		e, kind = eBin(":", num(), pick(r, eText("true"), eText("\"x\""), fl())), "ill typed range bound"
	case 12:
		e, kind = eCall(pick(r, "abs", "Log2", "max", "ceil2", "boolean")), "unknown function"
		e.A = append(e.A, num())
		if r.Intn(2) == 0 {
			e, kind = eCall(pick(r, "bool", "ceil", "floor", "log2", "log10"), num(), num()), "too many function arguments"
		}
	}
	// surround
	if e.S != ":" {
		for k := r.Intn(3); k > 0; k-- {
			switch r.Intn(4) {
			case 0:
				e = eBin(pick(r, "+", "-", "*"), e, num())
			case 1:
				e = eBin(pick(r, "+", "-", "*"), num(), e)
			case 2:
				e = eCall(pick(r, "ceil", "floor"), e)
			case 3:
				e = eBin("+", e, eInt(1))
			}
		}
	}
	site := r.Intn(4)
	var t string
	es := exprString(e)
	switch site {
	case 0:
		t = "const A = " + es + "\nmain bus\n  c config\n"
	case 1:
		t = "main bus\n  c config; width = " + es + "\n"
	case 2:
		t = "main bus\n  c [" + es + "]config\n"
	case 3:
		t = "main bus\n  const A = " + es + "\n  c config\n"
	}
	f := Files{"bus.fbd": t}
	res := w.compile(f)
	c.eval(1)
	if c.unusable(i, res, f, "ill formed expression ("+kind+")") {
		return
	}
	if res.Exit == 0 {
		c.violation(i, "expression without a defined value is accepted ("+kind+"): "+es, f, string(res.Stdout))
		return
	}
	if len(strings.TrimSpace(res.err())) == 0 {
		c.violation(i, "evaluation error without any message ("+kind+"): "+es, f, "")
		return
	}
	c.count("error: "+kind, 1)
	c.nontrivial(t)
}

func math63(k int) int64 { return 9223372036854775807 - int64(k) }
