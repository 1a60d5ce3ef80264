package main

import (
	"fmt"
	"strings"
)

// fans lists descriptions in which every definition refers several times to the previous one.
// They are small, but the number of paths from the first definition to the last one is exponential.
func fans(c *Check) []Files {
	var l []Files
	add := func(t string) { l = append(l, Files{"bus.fbd": t}) }
	// links in one scope, %[1]s is the previous name
	links := []string{"(%[1]s + %[1]s) %% 7 + 1", "%[1]s - %[1]s + %[1]s", "%[1]s * %[1]s %% 5 + 1", "(%[1]s + %[1]s + %[1]s) %% 11 + 1", "3 + %[1]s - %[1]s", "(%[1]s << 1) %% 9 + %[1]s %% 2 + 1"}
	for _, n := range []int{30, 45, 62} {
		for v, link := range links {
			chain := func(first, pre, indent string, reverse bool) string {
				var cs []string
				cs = append(cs, indent+"const "+pre+"0 = "+first+"\n")
				for k := 1; k <= n; k++ {
					cs = append(cs, indent+"const "+fmt.Sprintf("%s%d = ", pre, k)+fmt.Sprintf(link, fmt.Sprintf("%s%d", pre, k-1))+"\n")
				}
				if reverse {
					for a, b := 0, len(cs)-1; a < b; a, b = a+1, b-1 {
						cs[a], cs[b] = cs[b], cs[a]
					}
				}
				return strings.Join(cs, "")
			}
			params := func(first string) string {
				p := []string{"a0 = " + first}
				for k := 1; k <= n; k++ {
					p = append(p, fmt.Sprintf("a%d = ", k)+fmt.Sprintf(link, fmt.Sprintf("a%d", k-1)))
				}
				return strings.Join(p, ", ")
			}
			last := fmt.Sprint(n)
			for _, rev := range []bool{false, true} {
				add(chain("1", "A", "", rev) + "main bus\n  c config; width = A" + last + " % 50 + 1\n")
				add("main bus\n" + chain("1", "A", "  ", rev) + "  c config; width = A" + last + " % 50 + 1\n")
				add("main bus\n  g group\n" + chain("1", "A", "    ", rev) + "    c config; width = A" + last + " % 20 + 1\n    d config; width = 2\n")
				add("type T(p) block\n" + chain("p", "A", "  ", rev) + "  c config; width = A" + last + " % 50 + 1\nmain bus\n  x T(1)\n  y T(2)\n  z [3]T(p = 3)\n")
				add("type T(p = 2) proc\n" + chain("p", "A", "  ", rev) + "  c param; width = A" + last + " % 50 + 1\nmain bus\n  x T\n  y T(1)\n")
				add("type T(p) config\n" + chain("p", "A", "  ", rev) + "  width = A" + last + " % 50 + 1\nmain bus\n  x T(1)\n  y [A0]T(2)\n  const A0 = 3\n")
				// undefined, cyclic or failing first link
				for _, f := range []string{"NOSUCH", "A" + last, "1 / 0", "\"text\"", "true", "p.X"} {
					add(chain(f, "A", "", rev) + "main bus\n  c config; width = A" + last + " % 50 + 1\n")
				}
			}
			add("type T(" + params("1") + ") config; width = a" + last + " % 50 + 1\nmain bus\n  x T\n  y T(2)\n  z T(a0 = 3, a7 = 2)\n")
			add("type T(" + params("a"+last) + ") config; width = a" + last + " % 50 + 1\nmain bus\n  x T\n")
			add("type T(" + params("p") + ") config; width = a" + last + " % 50 + 1\ntype U(p) T\nmain bus\n  x U(1)\n")
			// constants of nested bodies
			if v == 0 {
				m, b := min(n, 40), "const A0 = 1\nmain bus\n"
				for k := 1; k <= m; k++ {
					in := strings.Repeat("  ", k)
					b += fmt.Sprintf("%sconst A%d = (A%d + A%d) %% 7 + 1\n%sb%d block\n", in, k, k-1, k-1, in, k)
				}
				add(b + strings.Repeat("  ", m+1) + fmt.Sprintf("c config; width = A%d\n", m))
			}
			// constants of packages, each refers to the next one
			f, per := Files{}, 5
			for k := 0; k*per < n; k++ {
				p, prev := fmt.Sprintf("fbd-p%d/a.fbd", k), "1"
				if k > 0 {
					f[p], prev = fmt.Sprintf("import q \"p%d\"\n", k-1), fmt.Sprintf("q.A%d", per-1)
				}
				for a := 0; a < per; a++ {
					f[p] += fmt.Sprintf("const A%d = ", a) + fmt.Sprintf(link, prev) + "\n"
					prev = fmt.Sprintf("A%d", a)
				}
				f["bus.fbd"] = fmt.Sprintf("import q \"p%d\"\nmain bus\n  c config; width = q.A%d %% 50 + 1\n", k, per-1)
			}
			l = append(l, f)
			// chain of types with parameters, arguments refer several times to the parameters
			t := ""
			for k := 0; k < n; k++ {
				e := fmt.Sprintf(link, "p")
				t += fmt.Sprintf("type T%d(p, q = %s) T%d(q, %s)\n", k, e, k+1, fmt.Sprintf(link, "q"))
			}
			add(t + fmt.Sprintf("type T%d(p, q = 1) config; width = (p + q) %% 50 + 1\nmain bus\n  x T0(1)\n  y T0(2, 3)\n", n))
			t = ""
			for k := 0; k < n; k++ {
				t += fmt.Sprintf("type T%d(p) T%d(a%d)\n  const a%d = %s\n", k, k+1, k, k, fmt.Sprintf(link, "p"))
			}
			add(t + fmt.Sprintf("type T%d(p) block\n  c config; width = p %% 50 + 1\nmain bus\n  x T0(1)\n", n))
		}
		// other values
		for _, x := range [][2]string{{"true", "%[1]s && %[1]s || %[1]s"}, {"1.5", "(%[1]s + %[1]s) / 2.0"}, {"false", "(%[1]s || %[1]s) && %[1]s"}, {"2.5", "(ceil(%[1]s) + floor(%[1]s)) / 2.0"}} {
			t := "const A0 = " + x[0] + "\n"
			for k := 1; k <= n; k++ {
				t += fmt.Sprintf("const A%d = ", k) + fmt.Sprintf(x[1], fmt.Sprintf("A%d", k-1)) + "\n"
			}
			add(t + fmt.Sprintf("main bus\n  const B = A%d\n  const C = [A%d, A%d]\n  c config\n", n, n, n))
		}
	}
	c.count("descriptions with an exponential number of paths between definitions", int64(len(l)))
	return l
}
