package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Source level abstract syntax and printer.
// ---------------------------------------------------------------------------

// Expr is a source level expression.
type Expr struct {
	K string // int, text, id, bin, un, call, list
	I int64  // int
	S string // text: literal text, id: name, bin/un: operator, call: function
	A []*Expr
}

func eInt(i int64) *Expr               { return &Expr{K: "int", I: i} }
func eText(s string) *Expr             { return &Expr{K: "text", S: s} }
func eID(s string) *Expr               { return &Expr{K: "id", S: s} }
func eBin(op string, a, b *Expr) *Expr { return &Expr{K: "bin", S: op, A: []*Expr{a, b}} }
func eUn(op string, a *Expr) *Expr     { return &Expr{K: "un", S: op, A: []*Expr{a}} }
func eCall(f string, a ...*Expr) *Expr { return &Expr{K: "call", S: f, A: a} }
func eList(a ...*Expr) *Expr           { return &Expr{K: "list", A: a} }

func (e *Expr) clone() *Expr {
	if e == nil {
		return nil
	}
	c := *e
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, a.clone())
	}
	return &c
}

// binary operator precedence, as documented by the language.
var prec = map[string]int{
	"||": 1, "&&": 2,
	"==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3,
	"|": 4, "+": 4, "-": 4,
	"*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5,
	"**": 6,
	":":  7,
}

// Param of a type definition.
type Param struct {
	Name string
	Def  *Expr
}

// Arg of an instantiation or type.
type Arg struct {
	Name string // empty for positional
	E    *Expr
}

// Item is one source level statement.
type Item struct {
	K       string // const, type, inst, prop, import
	Name    string
	Path    string // import
	Arr     *Expr  // array size
	Base    string // type name
	Params  []Param
	Args    []Arg
	HasArgs bool
	E       *Expr // const, prop
	Body    []*Item
	Doc     []string // doc lines, for package level items
}

func (it *Item) clone() *Item {
	c := *it
	c.Arr = it.Arr.clone()
	c.E = it.E.clone()
	c.Params = nil
	for _, p := range it.Params {
		c.Params = append(c.Params, Param{p.Name, p.Def.clone()})
	}
	c.Args = nil
	for _, a := range it.Args {
		c.Args = append(c.Args, Arg{a.Name, a.E.clone()})
	}
	c.Body = cloneItems(it.Body)
	return &c
}

func cloneItems(l []*Item) []*Item {
	var r []*Item
	for _, i := range l {
		r = append(r, i.clone())
	}
	return r
}

// Style controls how text is laid out. A nil rng prints canonical text.
type Style struct {
	r *rand.Rand
	// probabilities in percent
	Blank, Comment, EOL, Inline, Group, Space, Paren, Radix, Bare int
	Mutate                                                        func([]*Item) []*Item // applied to the items of a file
}

func canonical() *Style { return &Style{} }

func wild(r *rand.Rand) *Style {
	return &Style{r: r, Blank: 15, Comment: 15, EOL: 15, Inline: 50, Group: 50, Space: 30, Paren: 12, Radix: 30, Bare: 50}
}

func (s *Style) chance(p int) bool { return s.r != nil && s.r.Intn(100) < p }

func (s *Style) intText(i int64) string {
	if s.chance(s.Radix) {
		z := strings.Repeat("0", 1+s.r.Intn(3)) // leading zeros have no meaning
		switch s.r.Intn(10) {
		case 6:
			return z + strconv.FormatInt(i, 10)
		case 7:
			return fmt.Sprintf("0x%s%X", z, i)
		case 8:
			return fmt.Sprintf("0b%s%b", z, i)
		case 9:
			return fmt.Sprintf("0o%s%o", z, i)
		case 0:
			return fmt.Sprintf("0x%x", i)
		case 1:
			return fmt.Sprintf("0X%X", i)
		case 2:
			return fmt.Sprintf("0b%b", i)
		case 3:
			return fmt.Sprintf("0B%b", i)
		case 4:
			return fmt.Sprintf("0o%o", i)
		case 5:
			return fmt.Sprintf("0O%o", i)
		}
	}
	return strconv.FormatInt(i, 10)
}

func (s *Style) sp() string {
	if s.chance(s.Space) {
		return strings.Repeat(" ", s.r.Intn(3))
	}
	return " "
}

func (s *Style) osp() string {
	if s.chance(s.Space) {
		return strings.Repeat(" ", s.r.Intn(2))
	}
	return ""
}

// bare decides whether a unary expression, as an operand of an operator with precedence p, is printed without parentheses.
// It binds stronger than every binary operator, with the exception of the exponentiation, where the reading is left open.
func (s *Style) bare(p int) bool {
	return p != 100 && p != prec["**"] && s.chance(s.Bare)
}

// expr prints e so that it can be an operand of an operator with precedence p.
func (s *Style) expr(e *Expr, p int, right bool) string {
	t := ""
	need := false
	switch e.K {
	case "int":
		if e.I < 0 {
			t = "-" + strconv.FormatInt(-e.I, 10)
			if e.I == -9223372036854775808 {
				t = "-9223372036854775807 - 1"
			}
			need = p > 0 && (e.I == -9223372036854775808 || !s.bare(p))
		} else {
			t = s.intText(e.I)
		}
	case "text", "id":
		t = e.S
	case "time":
		t = s.intText(e.I) + " " + e.S
	case "un":
		t = e.S + s.osp() + s.expr(e.A[0], 100, false)
		need = p > 0 && !s.bare(p)
	case "bin":
		q := prec[e.S]
		if e.S == ":" && e.A[0].S != ":" && e.A[1].S != ":" && s.chance(s.Bare) {
			q = 0 // the colon binds weaker than everything else
		}
		l := s.expr(e.A[0], q, false)
		r := s.expr(e.A[1], q, true)
		sp := s.sp()
		if e.S == "-" && sp == "" {
			sp = " " // a hyphen glued to words is lexed differently
		}
		t = l + sp + e.S + sp + r
		need = q < p || (q == p && right)
		if e.S == ":" {
			need = p > 0
		}
	case "call":
		var a []string
		for _, x := range e.A {
			a = append(a, s.expr(x, 0, false))
		}
		t = e.S + "(" + s.osp() + strings.Join(a, ","+s.sp()) + s.osp() + ")"
	case "list":
		var a []string
		for _, x := range e.A {
			a = append(a, s.expr(x, 0, false))
		}
		t = "[" + s.osp() + strings.Join(a, ","+s.sp()) + s.osp() + "]"
	}
	if need || s.chance(s.Paren) {
		t = "(" + s.osp() + t + s.osp() + ")"
		if !need && s.chance(s.Paren) {
			t = "(" + t + ")"
		}
	}
	return t
}

// E prints a standalone expression.
func (s *Style) E(e *Expr) string { return s.expr(e, 0, false) }

func (s *Style) args(as []Arg) string {
	var l []string
	for _, a := range as {
		if a.Name != "" {
			sp := s.sp()
			l = append(l, a.Name+sp+"="+sp+s.E(a.E))
		} else {
			l = append(l, s.E(a.E))
		}
	}
	return "(" + s.osp() + strings.Join(l, ","+s.sp()) + s.osp() + ")"
}

var commentPool = []string{
	"# comment", "#", "# main bus", "#   const A = 1", "# ; = ( [ { \" ' |", "## x", "#\tfoo", "# type T config; width = 3", "# żółć", "# b\"01", "#no space",
}

func (s *Style) comment() string { return commentPool[s.r.Intn(len(commentPool))] }

func (s *Style) eol() string {
	if s.chance(s.EOL) {
		return " " + s.comment()
	}
	return ""
}

type printer struct {
	s *Style
	b strings.Builder
}

func (p *printer) line(ind int, t string) {
	p.b.WriteString(strings.Repeat("  ", ind))
	p.b.WriteString(t)
	p.b.WriteByte('\n')
}

func (p *printer) noise(ind int, detach bool) {
	s := p.s
	if s.r == nil {
		return
	}
	for s.chance(s.Blank) {
		p.b.WriteByte('\n')
	}
	for s.chance(s.Comment) {
		p.line(ind, s.comment())
	}
	for s.chance(s.Blank) {
		p.b.WriteByte('\n')
	}
	if detach {
		// A blank line detaches the comments from the following item.
		p.b.WriteByte('\n')
	}
}

func (p *printer) items(l []*Item, ind int) {
	s := p.s
	for i := 0; i < len(l); i++ {
		it := l[i]
		p.noise(ind, ind == 0 || it.K == "inst")
		if it.K == "const" || it.K == "import" {
			// Group consecutive ones into a block.
			n := 1
			for i+n < len(l) && l[i+n].K == it.K && len(l[i+n].Doc) == 0 && !propWords[l[i+n].Name] {
				n++
			}
			if len(it.Doc) == 0 && !propWords[it.Name] && s.chance(s.Group) {
				k := 1 + s.r.Intn(n)
				p.line(ind, it.K+s.eol())
				for j := 0; j < k; j++ {
					if s.r != nil && s.chance(s.Comment) {
						p.line(ind+1, s.comment())
					}
					if s.r != nil && s.chance(s.Blank) {
						p.b.WriteByte('\n')
					}
					p.line(ind+1, p.defn(l[i+j])+s.eol())
				}
				i += k - 1
				continue
			}
		}
		p.item(it, ind, l, &i)
	}
}

func (p *printer) defn(it *Item) string {
	s := p.s
	if it.K == "import" {
		t := "\"" + it.Path + "\""
		if it.Name != "" {
			t = it.Name + " " + t
		}
		return t
	}
	return it.Name + s.sp() + "=" + s.sp() + s.E(it.E)
}

func (p *printer) item(it *Item, ind int, l []*Item, idx *int) {
	s := p.s
	for _, d := range it.Doc {
		p.line(ind, "#"+d)
	}
	switch it.K {
	case "raw": // lines of text with their own relative indent
		for _, l := range strings.Split(it.Name, "\n") {
			p.line(ind, l)
		}
	case "import":
		p.line(ind, "import "+p.defn(it)+s.eol())
	case "const":
		p.line(ind, "const "+p.defn(it)+s.eol())
	case "prop":
		t := p.defn(it)
		for s.chance(s.Inline) && *idx+1 < len(l) && l[*idx+1].K == "prop" {
			*idx++
			t += s.osp() + ";" + s.sp() + p.defn(l[*idx])
		}
		p.line(ind, t+s.eol())
	case "type", "inst":
		t := it.Name
		if it.K == "type" {
			t = "type " + t
			if len(it.Params) > 0 {
				var ps []string
				for _, x := range it.Params {
					q := x.Name
					if x.Def != nil {
						sp := s.sp()
						q += sp + "=" + sp + s.E(x.Def)
					}
					ps = append(ps, q)
				}
				t += "(" + s.osp() + strings.Join(ps, ","+s.sp()) + s.osp() + ")"
			}
		}
		t += " "
		if s.chance(s.Space) {
			t += strings.Repeat(" ", s.r.Intn(3))
		}
		if it.Arr != nil {
			t += "[" + s.osp() + s.E(it.Arr) + s.osp() + "]"
			t += s.osp()
		}
		t += it.Base
		if it.HasArgs {
			t += s.args(it.Args)
		}
		onlyProps := len(it.Body) > 0
		for _, b := range it.Body {
			if b.K != "prop" {
				onlyProps = false
			}
		}
		if onlyProps && (s.r == nil || s.chance(s.Inline)) {
			for _, b := range it.Body {
				t += s.osp() + ";" + s.sp() + p.defn(b)
			}
			p.line(ind, t+s.eol())
			return
		}
		p.line(ind, t+s.eol())
		p.items(it.Body, ind+1)
	default:
		panic(it.K)
	}
}

func printItems(l []*Item, s *Style) string {
	p := &printer{s: s}
	if s.Mutate != nil {
		l = s.Mutate(cloneItems(l))
	}
	p.items(l, 0)
	if s.r != nil {
		for s.chance(s.Blank) {
			p.b.WriteByte('\n')
		}
	}
	return p.b.String()
}
