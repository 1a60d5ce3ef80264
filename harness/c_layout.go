package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func init() {
	register("C01", func(c *Check) { layoutCheck(c, "C01") })
	register("C02", func(c *Check) { layoutCheck(c, "C02") })
	register("C03", func(c *Check) { layoutCheck(c, "C03") })
	register("C04", func(c *Check) { layoutCheck(c, "C04") })
	register("C22", func(c *Check) { layoutCheck(c, "C22") })
}

// layoutOpt varies the generator profile with the case index.
func layoutOpt(id string, i int) GenOpt {
	o := defOpt()
	switch i % 6 {
	case 0:
		o.MaxElems, o.MaxDepth = 14, 0
	case 1:
		o.MaxElems, o.MaxDepth, o.BlockBias = 5, 3, 35
		o.Aligns = i / 6 % 3
	case 2: // gap stress: narrow statuses, irqs, statics, configs
		o.Kinds = map[string]int{"config": 20, "static": 20, "status": 40, "irq": 20}
		o.MaxElems, o.MaxDepth = 16, 0
		o.FillReg = true
	case 3:
		o.Aligns = i / 6 % 3
	case 4:
		o.Kinds = map[string]int{"proc": 40, "stream": 30, "status": 10, "config": 10, "irq": 10}
		o.MaxElems, o.MaxDepth = 8, 1
	case 5:
		o.MaxElems, o.MaxDepth, o.BlockBias = 3, 4, 50
		o.Aligns = i / 6 % 3
	}
	if id == "C22" && i%2 == 0 {
		o.Kinds = map[string]int{"proc": 55, "stream": 30, "status": 5, "config": 5, "irq": 5}
		o.MaxElems, o.MaxDepth = 6, 1
	}
	if id == "C02" && i%2 == 0 {
		o.MaxElems, o.MaxDepth, o.BlockBias = 4, 4, 45
		o.Aligns = i / 4 % 3
	}
	return o
}

func layoutCheck(c *Check, id string) {
	c.rule = "random valid designs (all functionality kinds, boundary biased widths and counts, bus widths 1..128, nesting, aligns) compiled by the real command; " +
		"the register map oracle observes the printed map; non-trivial: at least 2 functionalities placed, distinct by source text"
	c.assume = []string{"mask arrays, irq arrays, config arrays wider than the bus, static arrays wider than the bus are declared not implemented by the compiler; they are generated rarely and either refused with this declaration or judged", "widths and counts are at least 1"}
	n := c.n(24000, 200000)
	small := c.n(8000, 40000)
	c.parallel(n+small, func(w *Worker, i int) {
		r := newRand(c.seed, id, i)
		var d *Elem
		if i < n {
			d = genDesign(r, layoutOpt(id, i))
		} else {
			d = sweepDesign(id, i-n)
		}
		limit := ""
		if i%24 == 7 && i < n {
			limit = addLimit(r, d)
		}
		t := d.flat()
		f := Files{"bus.fbd": t}
		args := []string{}
		if i%11 == 3 && id != "C22" {
			args = append(args, "-add-timestamp")
		}
		res := w.compile(f, args...)
		c.eval(1)
		if limit != "" && declaredPanic.Match(res.Stderr) && len(res.Stdout) == 0 {
			c.count("declared as not implemented: "+limit, 1)
			return
		}
		j := c.mustCompile(i, res, f, "layout")
		if j == nil {
			return
		}
		var errs []string
		switch id {
		case "C01":
			var bits int64
			errs, bits = oracleC01(j, d)
			c.count("register bits observed", bits)
		case "C02":
			var bl int64
			errs, bl = oracleC02(j, d, len(args) > 0)
			c.count("blocks observed", bl)
		case "C03":
			var acs int64
			var ty map[string]int64
			errs, acs, ty = oracleC03(j, d)
			c.count("accesses observed", acs)
			for k, v := range ty {
				c.count("access "+k, v)
			}
		case "C04":
			var sh int64
			var pa map[string]int64
			errs, sh, pa = oracleC04(j, d)
			c.count("shared registers observed", sh)
			for k, v := range pa {
				c.count("sharing "+k, v)
			}
		case "C22":
			var np int64
			var sh map[string]int64
			errs, np, sh = oracleC22(j, d)
			c.count("procs and streams observed", np)
			for k, v := range sh {
				c.count(k, v)
			}
		}
		// every declared leaf must be present, otherwise the oracles look at nothing
		if e := presence(j, d); e != "" {
			errs = append(errs, e)
		}
		if len(errs) > 0 {
			sort.Strings(errs)
			c.violation(i, strings.Join(firstN(errs, 6), "\n"), f, "args: "+fmt.Sprint(args)+"\n"+t+"\n"+string(res.Stdout))
			return
		}
		if d.size() > 2 {
			c.nontrivial(t)
		}
		if i < 3 {
			c.sample(t)
		}
	})
	if id == "C02" || id == "C03" {
		checkHuge(c)
	}
}

// addLimit adds a functionality the compiler may declare as not implemented.
func addLimit(r *rand.Rand, d *Elem) string {
	bw := d.busWidth()
	if bw > 64 {
		return ""
	}
	e := &Elem{Name: "limit_", Count: 1 + r.Int63n(5)}
	wide := bw + 1 + r.Int63n(3*bw)
	what := ""
	switch r.Intn(5) {
	case 0:
		e.Kind, what = "config", "array of wide configs"
		e.set("width", vi(wide))
	case 1:
		e.Kind, what = "static", "array of wide statics"
		e.set("width", vi(wide))
		e.set("init-value", vi(1))
	case 2:
		e.Kind, what = "mask", "array of masks"
		e.set("width", vi(1+r.Int63n(2*bw)))
	case 3:
		e.Kind, what = "irq", "array of irqs"
		if r.Intn(2) == 0 {
			e.set("add-enable", vb(true))
		}
	case 4:
		e.Kind, what = "config", "array of non-atomic configs"
		e.set("width", vi(1+r.Int63n(3*bw)))
		e.set("atomic", vb(false))
	}
	k := r.Intn(len(d.Subs) + 1)
	d.Subs = append(d.Subs[:k:k], append([]*Elem{e}, d.Subs[k:]...)...)
	return what
}

func firstN(l []string, n int) []string {
	if len(l) > n {
		return l[:n]
	}
	return l
}

// presence checks that every declared functionality with an access appears in the output.
func presence(j *JBlock, d *Elem) string {
	e := ""
	matchBlocks(j, d, func(b *JBlock, de *Elem, path string) {
		if de == nil {
			e = path + " is not declared"
			return
		}
		got := map[string]int{}
		for _, x := range b.leaves() {
			got[x.Kind+" "+x.Name]++
		}
		for _, x := range b.Procs {
			got["proc "+x.Name]++
		}
		for _, x := range b.Streams {
			got["stream "+x.Name]++
		}
		for _, x := range b.Subblocks {
			got["block "+x.Name]++
		}
		for _, s := range de.Subs {
			if s.Kind == "group" || s.Kind == "blackbox" {
				continue
			}
			if got[s.Kind+" "+s.Name] != 1 {
				e = fmt.Sprintf("%s: %s %s appears %d times in the output", path, s.Kind, s.Name, got[s.Kind+" "+s.Name])
			}
		}
	})
	return e
}

// sweepDesign is a systematic family: pairs and triples of small elements on narrow buses.
func sweepDesign(id string, k int) *Elem {
	kinds := []string{"config", "status", "static", "irq", "mask", "proc", "stream", "statusA", "configA", "staticA", "irqE", "irqR", "block", "procR"}
	bw := []int64{2, 3, 4, 5, 8}[k%5]
	k /= 5
	d := &Elem{Kind: "bus", Name: "main", Count: -1}
	d.set("width", vi(bw))
	n := 2 + k%3
	k /= 3
	// mixed radix walk scrambled by a multiplicative step, so that any prefix is diverse
	x := uint64(k)*2654435761 + 12345
	next := func(m int) int {
		x ^= x >> 13
		x *= 0x9E3779B97F4A7C15
		x ^= x >> 29
		return int(x % uint64(m))
	}
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("e%d", i)
		w := 1 + int64(next(int(2*bw+1)))
		kd := kinds[next(len(kinds))]
		e := &Elem{Name: nm, Count: -1}
		switch kd {
		case "config", "status", "mask":
			e.Kind = kd
			e.set("width", vi(w))
			if next(3) == 0 {
				e.set("atomic", vb(false))
			}
		case "static":
			e.Kind = kd
			e.set("width", vi(w))
			e.set("init-value", vi(0))
		case "irq":
			e.Kind = kd
		case "irqE":
			e.Kind = "irq"
			e.set("add-enable", vb(true))
			if next(2) == 0 {
				e.set("clear", vs("On Read"))
			}
		case "irqR":
			e.Kind = "irq"
			e.set("clear", vs("On Read"))
		case "statusA", "configA", "staticA":
			e.Kind = strings.TrimSuffix(kd, "A")
			e.Count = 1 + int64(next(9))
			if kd != "statusA" {
				w = 1 + (w-1)%bw
			}
			e.set("width", vi(w))
			if kd == "staticA" {
				e.set("init-value", vi(0))
			}
		case "proc", "procR", "stream":
			e.Kind = strings.TrimSuffix(kd, "R")
			m := next(4)
			for q := 0; q < m; q++ {
				s := &Elem{Kind: "param", Name: fmt.Sprintf("p%d", q), Count: -1}
				if kd == "procR" || (kd == "proc" && next(2) == 0) {
					s.Kind = "return"
				}
				s.set("width", vi(1+int64(next(int(2*bw+1)))))
				if next(3) == 0 {
					s.Count = 1 + int64(next(5))
				}
				e.Subs = append(e.Subs, s)
			}
			if next(3) == 0 {
				e.set("delay", vt(3, "us"))
			}
		case "block":
			e.Kind = "block"
			if next(2) == 0 {
				e.Count = 1 + int64(next(3))
			}
			for q := 0; q <= next(3); q++ {
				s := &Elem{Kind: "status", Name: fmt.Sprintf("s%d", q), Count: -1}
				s.set("width", vi(1+int64(next(int(3*bw)))))
				e.Subs = append(e.Subs, s)
			}
		}
		d.Subs = append(d.Subs, e)
	}
	return d
}
