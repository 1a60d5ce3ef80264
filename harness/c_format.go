package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
)

func init() { register("C14", checkC14) }

// wilder is a style with random probabilities.
func wilder(r *rand.Rand) *Style {
	p := func() int { return pick(r, 0, 5, 20, 50, 85) }
	return &Style{r: r, Blank: p() * 4 / 5, Comment: p() * 4 / 5, EOL: p(), Inline: p(), Group: p(), Space: p(), Paren: p() / 2, Radix: p()}
}

// reorder permutes what has no order: constants, types and properties everywhere, imports and all package level
// items; instantiations within a body keep their order.
func reorder(r *rand.Rand, l []*Item, top bool) []*Item {
	for _, it := range l {
		it.Body = reorder(r, it.Body, false)
	}
	free := func(it *Item) bool { return it.K != "raw" && (top || it.K != "inst") }
	var idx []int
	for k, it := range l {
		if free(it) {
			idx = append(idx, k)
		}
	}
	out := append([]*Item(nil), l...)
	switch {
	case top || r.Intn(3) == 0:
		// in place
		p := r.Perm(len(idx))
		for k := range idx {
			out[idx[k]] = l[idx[p[k]]]
		}
	default:
		// merged at random with the instantiations
		var a, b []*Item
		for _, it := range l {
			if free(it) {
				a = append(a, it)
			} else {
				b = append(b, it)
			}
		}
		r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
		out = out[:0]
		for len(a)+len(b) > 0 {
			if len(b) == 0 || len(a) > 0 && r.Intn(len(a)+len(b)) < len(a) {
				out, a = append(out, a[0]), a[1:]
			} else {
				out, b = append(out, b[0]), b[1:]
			}
		}
	}
	return out
}

const noiseMark = "zq9z"

var instLine = regexp.MustCompile(`^ *(\w+) +[\[A-Za-z_]`)

// isInst tells if a line starts an instantiation.
func isInst(l string) bool {
	m := instLine.FindStringSubmatch(l)
	return m != nil && m[1] != "const" && m[1] != "type" && m[1] != "import"
}

// docsOf lists the documentation of a design.
func docsOf(d *Elem) []string {
	var l []string
	var walk func(e *Elem, p string)
	walk = func(e *Elem, p string) {
		p += "/" + e.Name
		if t := docText(e.Doc); t != "" {
			l = append(l, p+": "+t)
		}
		for _, s := range e.Subs {
			walk(s, p)
		}
	}
	walk(d, "")
	sort.Strings(l)
	return l
}

// docsOut lists the documentation in an output.
func docsOut(b []byte) ([]string, error) {
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	var l []string
	var walk func(v any, p string)
	walk = func(v any, p string) {
		switch x := v.(type) {
		case []any:
			for _, y := range x {
				walk(y, p)
			}
		case map[string]any:
			if n, ok := x["Name"].(string); ok {
				p += "/" + n
				if d, _ := x["Doc"].(string); d != "" && !(n == "ID" && d == "Bus identifier.") {
					l = append(l, p+": "+d)
				}
			}
			for _, y := range x {
				walk(y, p)
			}
		}
	}
	walk(v, "")
	sort.Strings(l)
	return l, nil
}

// noisy inserts blank lines and comments at the text level.
func noisy(r *rand.Rand, t string) string {
	l := strings.Split(strings.TrimSuffix(t, "\n"), "\n")
	in := inString(t)
	com := func() string {
		return "#" + pick(r, "", " ", "  ") + noiseMark + pick(r, "", " const A = 1", " \"", " ;", " (", "\t", " # x", " type T config", " "+strings.Repeat("x", 300), " żółw 🐢")
	}
	isCom := func(k int) bool { return strings.HasPrefix(strings.TrimLeft(l[k], " "), "#") && !in[k] }
	// documented tells if a comment directly above line k belongs to the documentation of an item
	documented := func(k int) bool {
		for k < len(l) && isCom(k) {
			k++
		}
		return k < len(l) && (l[k] != "" && l[k][0] != ' ' || isInst(l[k]))
	}
	den := pick(r, 2, 5, 20)
	var b strings.Builder
	for k := range l {
		// before line k
		if !in[k] {
			top := documented(k)
			docAbove := k > 0 && isCom(k-1)
			switch {
			case docAbove && top:
				// inside or directly behind a documentation
			case r.Intn(den) == 0 && l[k] != "":
				n := 1 + r.Intn(3)
				for ; n > 0; n-- {
					if r.Intn(2) == 0 {
						b.WriteString("\n")
						continue
					}
					// the comment has the indent of the following line
					b.WriteString(strings.Repeat(" ", ind(l[k])) + com() + "\n")
				}
				if top {
					b.WriteString("\n")
				}
			case r.Intn(den) == 0 && l[k] == "":
				b.WriteString("\n")
			case r.Intn(den) == 0 && k > 0 && l[k-1] != "" && !isCom(k-1):
				// the comment has the indent of the previous line, which is deeper
				if ind(l[k-1]) > ind(l[k]) && l[k] != "" && !in[k-1] {
					b.WriteString(strings.Repeat(" ", ind(l[k-1])) + com() + "\n")
					if top {
						b.WriteString("\n")
					}
				}
			}
		}
		b.WriteString(l[k])
		if r.Intn(den) == 0 && l[k] != "" && !isCom(k) && !in[k+1] && !strings.Contains(l[k], "#") {
			b.WriteString(strings.Repeat(" ", r.Intn(4)) + " " + com())
		}
		b.WriteString("\n")
	}
	s := b.String()
	// ends of the file
	switch r.Intn(6) {
	case 0:
		s = strings.TrimSuffix(s, "\n")
	case 1:
		s += strings.Repeat("\n", 1+r.Intn(4))
	case 2:
		s += "\n" + com()
	case 3:
		s += com() + "\n\n" + com() + "\n"
	}
	switch r.Intn(5) {
	case 0:
		s = strings.Repeat("\n", 1+r.Intn(4)) + s
	case 1:
		s = com() + "\n\n" + s
	case 2:
		s = strings.Repeat(com()+"\n", 1+r.Intn(200)) + "\n" + s
	}
	return s
}

func checkC14(c *Check) {
	c.rule = "random valid projects (plain designs with documentation, factored designs, scoping projects) printed in a canonical text and in texts with other layouts: comments, blank lines, one-line and body properties, grouped constants and imports, parentheses, spacing, numeral notation, permuted constants, types, properties and imports, file ends; " +
		"printed models and constants files are compared byte by byte; non-trivial: distinct variant texts differing from the canonical text"
	c.assume = []string{"comments are indented like one of the neighbouring lines, a comment with another indent is not a valid text", "the spacing around the minus operator is never empty, as a hyphen belongs to words"}
	n := c.n(4500, 40000)
	c.parallel(n, func(w *Worker, i int) {
		seed := r64(c.seed, i)
		var doc *Elem
		build := func(st func() *Style) Files {
			r := rand.New(rand.NewSource(seed))
			switch i % 3 {
			case 0:
				d := genDesign(r, fullOpt(i/3))
				withDocs(r, d)
				doc = d
				return Files{"bus.fbd": printItems([]*Item{d.item()}, st())}
			case 1:
				o := fullOpt(i / 3)
				o.Clones = 40
				o.MaxElems = 6
				d := genDesign(r, o)
				withDocs(r, d)
				doc = d
				fa := newFactorer(r, 1+i%3)
				factorProfile(fa, i/3)
				return fa.factor(d, st)
			default:
				g := &SGen{r: r}
				g.project()
				return g.files(st)
			}
		}
		canon := build(canonical)
		dir := w.project(canon)
		base := w.runIn(dir, nil, "-c", "consts.json")
		if c.unusable(i, base, canon, "canonical text") {
			return
		}
		if base.Exit != 0 {
			if i%3 != 2 {
				c.violation(i, "a valid description does not compile: "+base.brief(), canon, "")
			} else {
				c.count("projects rejected (static errors of the scoping generator)", 1)
			}
			if i%3 != 2 {
				return
			}
		}
		if i%3 != 2 && base.Exit == 0 {
			got, err := docsOut(base.Stdout)
			if err != nil {
				c.violation(i, "output: "+err.Error(), canon, string(base.Stdout))
				return
			}
			want := docsOf(doc)
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				c.violation(i, fmt.Sprintf("documentation is %q instead of %q", got, want), canon, "")
			}
			c.count("documentation comments observed", int64(len(want)))
		}
		ct := canon.text()
		for v := 0; v < 6; v++ {
			r := newRand(c.seed, "C14v", i*8+v)
			var f Files
			kind := ""
			switch v {
			case 0:
				kind = "layout style"
				f = build(func() *Style { return wild(r) })
			case 1:
				kind = "random layout style"
				f = build(func() *Style { return wilder(r) })
			case 2:
				kind = "order"
				f = build(func() *Style {
					return &Style{Mutate: func(l []*Item) []*Item { return reorder(r, l, true) }}
				})
			case 3:
				kind = "comments and blank lines"
				f = build(canonical)
			case 4:
				kind = "order, layout style, comments and blank lines"
				f = build(func() *Style {
					s := wilder(r)
					s.Mutate = func(l []*Item) []*Item { return reorder(r, l, true) }
					return s
				})
			case 5:
				// exactly one aspect
				s := &Style{r: r}
				a := r.Intn(7)
				kind = "only " + []string{"blank lines", "comments", "comments at line ends", "properties in bodies", "groups of definitions", "parentheses and spacing", "numerals"}[a]
				switch a {
				case 0:
					s.Blank = 50
				case 1:
					s.Comment = 50
				case 2:
					s.EOL = 60
				case 3:
					s.Inline = 0
				case 4:
					s.Group = 90
				case 5:
					s.Paren, s.Space = 40, 60
				case 6:
					s.Radix = 80
				}
				f = build(func() *Style { return s })
			}
			if v == 3 || v == 4 {
				var ks []string
				for k := range f {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if r.Intn(5) > 0 {
						f[k] = noisy(r, f[k])
					}
				}
			}
			d := w.project(f)
			res := w.runIn(d, nil, "-c", "consts.json")
			c.eval(1)
			if c.unusable(i, res, f, kind) {
				return
			}
			ft := f.text()
			diff := ""
			switch {
			case res.Exit != base.Exit:
				diff = fmt.Sprintf("exit status %d instead of %d: %s", res.Exit, base.Exit, res.err())
			case !bytes.Equal(res.Stdout, base.Stdout):
				diff = "the register map differs: " + firstDiff(base.Stdout, res.Stdout)
			case !bytes.Equal(res.Const, base.Const):
				diff = "the constants differ: " + firstDiff(base.Const, res.Const)
			case bytes.Contains(res.Stdout, []byte(noiseMark)) || bytes.Contains(res.Const, []byte(noiseMark)):
				diff = "a comment appears in the output"
			}
			if diff != "" {
				c.violation(i, kind+": "+diff, f, "canonical text:\n"+ct)
				return
			}
			c.count("variants: "+kind, 1)
			if base.Exit == 0 && ft != ct {
				c.nontrivial(ft)
			}
			if i < 3 && v == 4 {
				c.sample(ft)
			}
		}
	})
}

func r64(seed int64, i int) int64 { return newRand(seed, "C14", i).Int63() }
