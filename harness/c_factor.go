package main

import (
	"bytes"
	"strings"
)

func init() { register("C09", checkC09) }

func firstDiff(a, b []byte) string {
	la, lb := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			lo := i - 3
			if lo < 0 {
				lo = 0
			}
			ctx := ""
			if lo < len(la) && i <= len(la) {
				ctx = strings.Join(la[lo:i], "\n")
			}
			return "first difference after\n" + ctx + "\n  - " + x + "\n  + " + y
		}
	}
	return "no difference"
}

func factorProfile(f *Factorer, i int) {
	switch i % 5 {
	case 1:
		f.PType, f.PParam, f.PConst = 80, 70, 10
	case 2:
		f.PConst, f.PExpr, f.PDecoy = 60, 60, 60
	case 3:
		f.PLocal, f.PDecoy = 70, 60
	case 4:
		f.PType, f.PReuse, f.PParam = 70, 95, 60
	}
	if i%11 == 10 {
		f.Chain, f.PType, f.MaxType = 14, 100, 120
	}
}

func checkC09(c *Check) {
	c.rule = "random designs rewritten into types with parameters, type chains, constants, expressions, nested definitions and packages (with shadowing decoys), both descriptions compiled by the real command and the outputs compared byte by byte; " +
		"non-trivial: the rewritten description has a type or a constant, distinct by source text"
	c.assume = []string{"default values of parameters do not refer to other parameters", "constants of bit string type at package or block level are declared not implemented and not generated"}
	n := c.n(11000, 90000)
	c.parallel(n+n/2, func(w *Worker, i int) {
		if i >= n {
			nestedCase(c, w, i)
			return
		}
		r := newRand(c.seed, "C09", i)
		o := fullOpt(i)
		o.Clones = 40
		o.MaxElems = 6
		d := genDesign(r, o)
		if i%4 == 2 {
			withDocs(r, d)
		}
		nu := i % 4
		if i%13 == 12 {
			nu = 4 + r.Intn(7)
		}
		f := newFactorer(r, nu)
		factorProfile(f, i)
		st := canonical
		if i%6 == 5 {
			st = func() *Style { return wild(r) }
		}
		files := f.factor(d, st)
		flat := d.flat()
		a := w.compile(files)
		b := w.compileText(flat)
		c.eval(1)
		all := Files{}
		for k, v := range files {
			all["factored/"+k] = v
		}
		all["inlined/bus.fbd"] = flat
		if c.unusable(i, a, all, "factored description") || c.unusable(i, b, all, "inlined description") {
			return
		}
		if b.Exit != 0 {
			c.violation(i, "the inlined description does not compile: "+b.brief(), all, all.text())
			return
		}
		if a.Exit != 0 {
			c.violation(i, "the inlined description compiles, the factored one does not: "+a.brief(), all, all.text())
			return
		}
		if !bytes.Equal(a.Stdout, b.Stdout) {
			c.violation(i, "factored and inlined descriptions differ: "+firstDiff(b.Stdout, a.Stdout), all, all.text())
			return
		}
		t := files.text()
		if f.stat["types created"]+f.stat["constants"] > 0 {
			c.nontrivial(t)
		}
		for k, v := range f.stat {
			c.count(k, v)
		}
		if i < 3 {
			c.sample(t)
		}
	})
}
