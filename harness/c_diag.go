package main

import (
	_ "embed"
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func init() { register("C15", checkC15) }

// diagTable lists ill-formed snippets with the offending token between « and »,
// further tokens the diagnostic shows between ‹ and ›. An empty «» marks a place only.
//
//go:embed diag.tbl
var diagTable string

type diagEntry struct {
	top  bool // package level
	rule string
	text string
}

func diagEntries() []diagEntry {
	var l []diagEntry
	for _, e := range strings.Split("\n"+diagTable, "\n---- ")[1:] {
		h, b, _ := strings.Cut(e, "\n")
		l = append(l, diagEntry{h[0] == 'T', h[2:], strings.TrimSuffix(b, "\n")})
	}
	return l
}

// place of a token in the sources
type spot struct {
	path string
	line int
	col  int
	text string
}

// located is one position shown by a diagnostic.
type located struct {
	path string
	line int
	col  int
	n    int    // length of the marker, 0 when only the position is printed
	code string // printed source line
	pad  int    // columns in front of the marker
	num  int    // printed line number
	full bool
}

var (
	locToken = regexp.MustCompile(`(?m)^(.+) \+(\d+):(\d+)$`)
	locPlain = regexp.MustCompile(`(?m)(?:^|[ :(])(\S+\.fbd):(\d+):(\d+): `)
	locFirst = regexp.MustCompile(`first (?:definition|instantiation) line (\d+) column (\d+)`)
	codeLine = regexp.MustCompile(`^ +(\d+) \| (.*)$`)
	markLine = regexp.MustCompile(`^ +\| ( *)(\^*)$`)
)

// parseDiag lists the positions of a diagnostic, in order.
func parseDiag(e string) (l []located, problem string) {
	lines := strings.Split(e, "\n")
	for i := 0; i < len(lines); i++ {
		m := locToken.FindStringSubmatch(lines[i])
		if m == nil || i+3 >= len(lines) || strings.TrimSpace(lines[i+1]) != "|" {
			continue
		}
		ln, _ := strconv.Atoi(m[2])
		col, _ := strconv.Atoi(m[3])
		c := codeLine.FindStringSubmatch(lines[i+2])
		if c == nil {
			return l, "no source line behind " + lines[i]
		}
		x := located{path: m[1], line: ln, col: col, code: c[2], full: true}
		x.num, _ = strconv.Atoi(c[1])
		// a token spanning lines is shown with all of them
		for i += 3; i < len(lines); i++ {
			if k := markLine.FindStringSubmatch(lines[i]); k != nil {
				x.pad, x.n = len(k[1]), len(k[2])
				break
			}
			x.code += "\n" + lines[i]
		}
		if i == len(lines) {
			return l, "no marker in the diagnostic"
		}
		l = append(l, x)
	}
	if len(l) == 0 {
		for _, m := range locPlain.FindAllStringSubmatch(e, -1) {
			ln, _ := strconv.Atoi(m[2])
			col, _ := strconv.Atoi(m[3])
			l = append(l, located{path: m[1], line: ln, col: col})
		}
	}
	return l, ""
}

// judgeLocated checks one shown position against the sources.
func judgeLocated(x located, dir string, f Files) string {
	p := x.path
	if filepath.IsAbs(p) {
		if r, err := filepath.Rel(dir, p); err == nil {
			p = r
		}
	}
	t, ok := f[filepath.Clean(p)]
	if !ok {
		return fmt.Sprintf("the diagnostic names the file %q, which is not a file of the project", x.path)
	}
	lines := strings.Split(t, "\n")
	at := fmt.Sprintf("%s:%d:%d", x.path, x.line, x.col)
	if x.line < 1 || x.line > len(lines) {
		return fmt.Sprintf("%s: the file has %d lines", at, len(lines))
	}
	src := lines[x.line-1]
	if x.col < 1 || x.col > len(src)+1 {
		return fmt.Sprintf("%s: the line has %d columns: %q", at, len(src), src)
	}
	if !x.full {
		if x.col == len(src)+1 || src[x.col-1] == ' ' {
			return fmt.Sprintf("%s: nothing starts at this position: %q", at, src)
		}
		return ""
	}
	if x.num != x.line {
		return fmt.Sprintf("%s: printed line number %d", at, x.num)
	}
	if code := strings.Split(x.code, "\n"); len(code) > 1 {
		// token spanning several lines
		for k, c := range code {
			if x.line-1+k >= len(lines) || lines[x.line-1+k] != c {
				return fmt.Sprintf("%s: printed source %q is not the source from line %d", at, x.code, x.line)
			}
		}
		return ""
	}
	if x.code != src {
		return fmt.Sprintf("%s: printed line %q, source line %q", at, x.code, src)
	}
	if x.pad != x.col-1 {
		return fmt.Sprintf("%s: marker at column %d", at, x.pad+1)
	}
	if x.n < 1 {
		return fmt.Sprintf("%s: no marker", at)
	}
	if x.pad+x.n > len(src)+1 {
		return fmt.Sprintf("%s: the marker of %d columns ends behind the line %q", at, x.n, src)
	}
	if x.n > 1 && x.pad+x.n > len(src) {
		return fmt.Sprintf("%s: the marker of %d columns covers more than the text of the line %q", at, x.n, src)
	}
	return ""
}

// unmark removes the markers of a text and returns the marked places.
func unmark(path, t string) (string, *spot, *spot) {
	var b strings.Builder
	var first, second *spot
	line, col := 1, 1
	var open *spot
	for _, r := range t {
		switch r {
		case '«', '‹':
			open = &spot{path: path, line: line, col: col}
			if r == '«' {
				first = open
			} else {
				second = open
			}
			continue
		case '»', '›':
			open = nil
			continue
		}
		if open != nil {
			open.text += string(r)
		}
		s := string(r)
		b.WriteString(s)
		if r == '\n' {
			line++
			col = 1
		} else {
			col += len(s)
		}
	}
	return b.String(), first, second
}

var (
	longString = regexp.MustCompile(`«"([^"»]+)"»`)
	longSpace  = regexp.MustCompile(`(?m)(\S)« +»$`)
	longName   = regexp.MustCompile(`«(nosuch|foo)»`)
)

// rename gives the names of a snippet random lengths.
func renameIll(r *rand.Rand, t string) string {
	suffix := func() string {
		n := r.Intn(9)
		if r.Intn(12) == 0 {
			n = r.Intn(pick(r, 70, 300, 3000))
		}
		return strings.Repeat("x", n) + pick(r, "", "_1", "0", "Q_z")
	}
	// longer offending tokens
	if r.Intn(4) == 0 {
		t = longString.ReplaceAllString(t, "«\"${1}"+strings.Repeat("z", r.Intn(pick(r, 40, 150, 1000)))+"\"»")
		t = longName.ReplaceAllString(t, "«${1}"+strings.Repeat("z", r.Intn(pick(r, 40, 150, 1000)))+"»")
	}
	if r.Intn(2) == 0 {
		t = longSpace.ReplaceAllString(t, "${1}«"+strings.Repeat(" ", 1+r.Intn(pick(r, 4, 20, 70)))+"»")
	}
	t = strings.ReplaceAll(t, "ill_", "ill_"+suffix())
	return strings.ReplaceAll(t, "Ill_", "Ill_"+suffix())
}

// place puts text in the body of a block or a type of the main file or of another package.
func placeBody(r *rand.Rand, d *Elem, text string, st func() *Style) (f Files, mode string) {
	raw := &Item{K: "raw", Name: text}
	holderItem := &Item{K: "inst", Name: "Ill_holder", Base: "block", Body: []*Item{{K: "raw", Name: "# ill"}, {K: "inst", Name: "c_", Base: "config"}}}
	it := d.item()
	var bodies []*Item
	var walk func(t *Item)
	walk = func(t *Item) {
		if t.Base == "block" || t.Base == "bus" {
			bodies = append(bodies, t)
		}
		for _, s := range t.Body {
			walk(s)
		}
	}
	walk(it)
	h := bodies[r.Intn(len(bodies))]
	put := func(b *Item, x *Item) {
		k := r.Intn(len(b.Body) + 1)
		b.Body = append(b.Body[:k:k], append([]*Item{x}, b.Body[k:]...)...)
	}
	f = Files{}
	switch r.Intn(4) {
	case 0, 1:
		mode = "flat"
		put(h, raw)
		f["bus.fbd"] = printItems([]*Item{it}, st())
	case 2:
		mode = "type"
		put(h, &Item{K: "inst", Name: "Ill_holder", Base: "Ill_T"})
		ty := &Item{K: "type", Name: "Ill_T", Base: "block", Body: holderItem.Body}
		items := []*Item{it, ty}
		if r.Intn(2) == 0 {
			items = []*Item{ty, it}
		}
		put(ty, raw)
		f["bus.fbd"] = printItems(items, st())
	case 3:
		mode = "package"
		put(h, &Item{K: "inst", Name: "Ill_holder", Base: "illp.Ill_T"})
		ty := &Item{K: "type", Name: "Ill_T", Base: "block", Body: holderItem.Body}
		f["bus.fbd"] = printItems([]*Item{{K: "import", Path: "illp"}, it}, st())
		f["lib/fbd-illp/a.fbd"] = "const Ill_zz = 1\n"
		put(ty, raw)
		f["lib/fbd-illp/t.fbd"] = printItems([]*Item{ty}, st())
	}
	return f, mode
}

// diagStyle is a style that never joins properties to the line of their element.
func diagStyle(r *rand.Rand) *Style {
	return &Style{r: r, Blank: 15, Comment: 15, EOL: 15, Group: 40, Space: 30, Paren: 10, Radix: 20}
}

// garble breaks the text of a description.
func garble(r *rand.Rand, t string) string {
	if len(t) == 0 {
		return "x"
	}
	toks := []string{" ", "  ", "\n", "\t", "#", ";", ",", "(", ")", "[", "]", "=", ":", "\"", "'", "@", "x", "1", "0x", "b\"", "x\"", "o\"1", "\"a", "type ", "const ", "import ", "config", "width", "true", " ns", "ns", ".", "..", "-", "+", "**", "<", "<<", "&&", "|", "!", "1.5", "1e", "\r", "ż", "width = 3", "init-value", "e ", "a.b", "A.B", "\\", "\x00"}
	for k := 1 + r.Intn(3); k > 0; k-- {
		if len(t) == 0 {
			break
		}
		i := r.Intn(len(t))
		switch r.Intn(7) {
		case 0: // delete a few bytes
			j := i + 1 + r.Intn(3)
			if j > len(t) {
				j = len(t)
			}
			t = t[:i] + t[j:]
		case 1, 2: // insert a token
			t = t[:i] + toks[r.Intn(len(toks))] + t[i:]
		case 3: // replace a byte by a token
			t = t[:i] + toks[r.Intn(len(toks))] + t[i+1:]
		case 4: // cut
			if r.Intn(4) == 0 {
				t = t[:i]
			}
		case 5: // copy
			j := i + r.Intn(20)
			if j > len(t) {
				j = len(t)
			}
			k := r.Intn(len(t))
			t = t[:k] + t[i:j] + t[k:]
		case 6: // drop or repeat a line
			ls := strings.Split(t, "\n")
			k := r.Intn(len(ls))
			switch r.Intn(3) {
			case 0:
				ls = append(ls[:k:k], ls[k+1:]...)
			case 1:
				ls = append(ls[:k:k], ls[r.Intn(len(ls)):]...)
			case 2:
				ls[k] = strings.Repeat(" ", r.Intn(4)) + ls[k]
			}
			t = strings.Join(ls, "\n")
		}
	}
	return t
}

func ascii(t string) bool {
	for i := 0; i < len(t); i++ {
		if t[i] >= 0x80 {
			return false
		}
	}
	return true
}

// positionFree removes positions from a diagnostic, and reports the positions.
func sameShifted(a, b []located, path string, n int) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d positions became %d", len(a), len(b))
	}
	for k := range a {
		x := a[k]
		if filepath.Clean(x.path) == path {
			x.line += n
			if x.full {
				x.num += n
			}
		}
		if x != b[k] {
			return fmt.Sprintf("position %d: %+v became %+v", k, a[k], b[k])
		}
	}
	return ""
}

func checkC15(c *Check) {
	c.rule = "(a) snippets with a marked offending token put at a random place of a random project (main bus, nested blocks, types, files of other packages, package level), behind comments, strings, blank lines and other items: the diagnostic must name that file, line and column and mark that token; " +
		"(b) every positioned diagnostic of ill-formed and garbled projects, checked against the sources: existing file, line, column, the printed line and its number, marker below the column and within the line; " +
		"(c) the same projects with lines put in front of the file: the same positions, shifted; non-trivial: distinct projects with a positioned diagnostic"
	c.assume = []string{"diagnostics without a position are not judged", "columns count bytes; marker columns behind non-ASCII characters follow the byte column", "the offending token of each snippet is the one reviewed in diag.tbl"}
	ents := diagEntries()
	per := c.n(12, 80)
	c.parallel(len(ents)*per, func(w *Worker, i int) {
		x := ents[i%len(ents)]
		r := newRand(c.seed, "C15a", i)
		o := fullOpt(i)
		o.MaxElems, o.MaxDepth, o.BlockBias = 3, 1+r.Intn(4), 40
		d := genDesign(r, o)
		text := renameIll(r, x.text)
		st := func() *Style { return diagStyle(r) }
		if r.Intn(3) == 0 {
			st = bodyStyle
		}
		var f Files
		mode := "top"
		if x.top {
			f = Files{"bus.fbd": printItems([]*Item{{K: "type", Name: "Ill_zt", Base: "config"}, d.item()}, st())}
			target := "bus.fbd"
			if r.Intn(2) == 0 && !strings.Contains(text, "ill_") {
				mode = "top of a package"
				target = pick(r, "lib/fbd-illp/a.fbd", "lib/fbd-illp/z.fbd")
				f["lib/fbd-illp/k.fbd"] = "const Ill_zz = 1\n"
				f[target] = printItems([]*Item{{K: "const", Name: "Ill_zy", E: eText("\"a\"")}, {K: "type", Name: "Ill_zt", Base: "config"}}, st())
			}
			if r.Intn(2) == 0 || strings.HasPrefix(text, "import") {
				t := text + "\n"
				if r.Intn(2) == 0 {
					t = "# comment\n\n" + t
				}
				f[target] = t + "\n" + f[target]
				if strings.HasSuffix(text, "import") {
					return
				}
			} else {
				f[target] += text + "\n"
			}
		} else {
			f, mode = placeBody(r, d, text, st)
		}
		var first, second *spot
		for k, t := range f {
			if !strings.Contains(t, "«") {
				continue
			}
			t, a, b := unmark(k, t)
			f[k], first, second = t, a, b
		}
		if r.Intn(6) == 0 {
			// far down in the file
			n := r.Intn(pick(r, 12, 120, 1200, 12000))
			pre := strings.Repeat(pick(r, "\n", "# comment\n", "#\n\n", "#   ż\n"), n) + "\n"
			n = strings.Count(pre, "\n")
			f[first.path] = pre + f[first.path]
			first.line += n
			if second != nil && second.path == first.path {
				second.line += n
			}
		}
		dir := w.project(f)
		var res *Res
		if r.Intn(4) == 0 {
			// from another directory
			cwd := w.fresh()
			main := filepath.Join(dir, "bus.fbd")
			if r.Intn(2) == 0 {
				main = filepath.Join("..", filepath.Base(dir), "bus.fbd")
			}
			res = Cmd{Bin: c.bin, Dir: cwd, Args: []string{main}, Env: []string{"FBDPATH=" + dir}}.run()
			mode += ", from another directory"
			abs := regexp.MustCompile(`(?m)(^|[ (:])(\.\./` + filepath.Base(dir) + "|" + regexp.QuoteMeta(dir) + `)/`)
			res.Stderr = abs.ReplaceAll(res.Stderr, []byte("$1"))
		} else {
			res = w.runIn(dir, nil)
		}
		c.eval(1)
		what := "diagnostic of " + x.rule + ", " + mode
		if c.unusable(i, res, f, what) {
			return
		}
		if res.Exit == 0 {
			c.violation(i, what+": accepted although ill-formed", f, "")
			return
		}
		l, problem := parseDiag(res.err())
		if problem != "" || len(l) == 0 {
			c.violation(i, fmt.Sprintf("%s: no position shown: %s\n%s", what, problem, res.err()), f, "")
			return
		}
		for _, x := range l {
			if p := judgeLocated(x, dir, f); p != "" {
				c.violation(i, what+": "+p+"\n"+res.err(), f, "")
				return
			}
		}
		if i%12 == 5 && !strings.Contains(mode, "another directory") {
			if p := c.onTty(r, Cmd{Bin: c.bin, Dir: dir, Args: []string{"bus.fbd"}}, res); p != "" {
				c.violation(i, what+": "+p, f, "")
				return
			}
		}
		match := func(x located, s *spot) bool {
			return filepath.Clean(x.path) == s.path && x.line == s.line && x.col == s.col && (!x.full || s.text == "" || x.n == len(s.text))
		}
		if !match(l[0], first) {
			c.violation(i, fmt.Sprintf("%s: the offending text %q is at %s:%d:%d, the diagnostic shows:\n%s", what, first.text, first.path, first.line, first.col, res.err()), f, "")
			return
		}
		if second != nil {
			if len(l) != 2 || !match(l[1], second) {
				c.violation(i, fmt.Sprintf("%s: the other text %q is at %s:%d:%d, the diagnostic shows:\n%s", what, second.text, second.path, second.line, second.col, res.err()), f, "")
				return
			}
			if m := locFirst.FindStringSubmatch(res.err()); m != nil && (m[1] != strconv.Itoa(second.line) || m[2] != strconv.Itoa(second.col)) {
				c.violation(i, fmt.Sprintf("%s: the other text %q is at %d:%d, the message tells %s:%s:\n%s", what, second.text, second.line, second.col, m[1], m[2], res.err()), f, "")
				return
			}
		} else if len(l) > 1 && l[0].full {
			c.violation(i, what+": more positions than expected\n"+res.err(), f, "")
			return
		}
		c.count("marked token found, "+mode, 1)
		c.seen("lines", strconv.Itoa(first.line))
		c.seen("columns", strconv.Itoa(first.col))
		c.nontrivial(f.text())
		if i%997 == 0 {
			c.sample(f.text() + res.err())
		}
	})
	// ill-formed and garbled projects
	cat := illCatalogue()
	n := c.n(24000, 120000)
	c.parallel(n, func(w *Worker, i int) {
		r := newRand(c.seed, "C15b", i)
		var f Files
		kind := "garbled"
		if i%2 == 0 {
			x := cat[(i/2)%len(cat)]
			o := fullOpt(i)
			o.MaxElems, o.MaxDepth = 3, 2
			d := genDesign(r, o)
			st := func() *Style { return diagStyle(r) }
			kind = "catalogue"
			switch {
			case x.body != "":
				f, _ = placeBody(r, d, x.body, st)
			case x.top != "":
				f = Files{"bus.fbd": printItems([]*Item{d.item()}, st()) + x.top}
			case x.design != nil:
				g := &Gen{r: r, o: o, bw: d.busWidth()}
				if !x.design(g, d) {
					return
				}
				f = Files{"bus.fbd": printItems([]*Item{d.item()}, st())}
				if !x.plain && r.Intn(2) == 0 {
					fc := newFactorer(r, r.Intn(3))
					factorProfile(fc, r.Intn(5))
					f = fc.factor(d, st)
				}
			default:
				f = Files{"bus.fbd": printItems([]*Item{d.item()}, st())}
				ks := []string{"bus.fbd"}
				if x.text != nil {
					t, ok := x.text(r, f[ks[0]])
					if !ok {
						return
					}
					f[ks[0]] = t
				} else if !x.proj(r, f) {
					return
				}
			}
		} else {
			o := fullOpt(i)
			o.MaxElems, o.MaxDepth = 2+r.Intn(4), 2
			d := genDesign(r, o)
			fc := newFactorer(r, r.Intn(3))
			factorProfile(fc, r.Intn(5))
			f = fc.factor(d, func() *Style { return wild(r) })
			var ks []string
			for k := range f {
				if strings.HasSuffix(k, ".fbd") {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			k := ks[r.Intn(len(ks))]
			f[k] = garble(r, f[k])
		}
		dir := w.project(f)
		res := w.runIn(dir, nil)
		c.eval(1)
		if declared(res) {
			// the change made something the compiler does not implement
			c.count(kind+" not implemented", 1)
			return
		}
		if c.unusable(i, res, f, kind) || res.Exit == 0 {
			c.count(kind+" accepted", 1)
			return
		}
		l, problem := parseDiag(res.err())
		if problem != "" {
			c.violation(i, kind+": "+problem+"\n"+res.err(), f, "")
			return
		}
		if len(l) == 0 {
			c.count(kind+" without position", 1)
			return
		}
		for _, x := range l {
			if p := judgeLocated(x, dir, f); p != "" {
				c.violation(i, kind+": "+p+"\n"+res.err(), f, "")
				return
			}
		}
		c.count(kind+" with position", 1)
		if i%20 == 7 {
			if p := c.onTty(r, Cmd{Bin: c.bin, Dir: dir, Args: []string{"bus.fbd"}}, res); p != "" {
				c.violation(i, kind+": "+p, f, "")
				return
			}
		}
		c.nontrivial(f.text())
		h := strings.SplitN(res.err(), "\n", 2)[0]
		c.seen("messages", regexp.MustCompile(`'[^']*'|[0-9]+`).ReplaceAllString(h, "X"))
		// lines in front
		path := filepath.Clean(l[0].path)
		if filepath.IsAbs(path) || strings.HasPrefix(f[path], " ") {
			return // an indent in the first line has its own diagnostic
		}
		k := 1 + r.Intn(4)
		pre := ""
		for j := 0; j < k; j++ {
			pre += pick(r, "\n", "# comment\n", "const Ill_pre"+strconv.Itoa(j)+" = \"a b # c\"\n", "\n")
		}
		k++
		pre += "\n"
		if strings.Contains(pre, "const") && strings.Contains(f[path], "import") {
			return
		}
		g := Files{}
		for a, b := range f {
			g[a] = b
		}
		g[path] = pre + f[path]
		res2 := w.compile(g)
		c.eval(1)
		if c.unusable(i, res2, g, kind) {
			return
		}
		l2, _ := parseDiag(res2.err())
		if p := sameShifted(l, l2, path, k); p != "" {
			c.violation(i, fmt.Sprintf("%s: %d lines in front of %s: %s\n%s\nbefore:\n%s", kind, k, path, p, res2.err(), res.err()), g, "")
			return
		}
		c.count("shifted positions", 1)
	})
}
