package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() { register("C18", checkC18) }

// clockBin builds the command with a clock that can be set through the environment: the standard library is
// overlaid so that time.Now returns the time of the VERIF_FAKE_UNIX variable when it is set.
func (c *Check) clockBin() string {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv("0", c.verif)
	b, err := cmd.Output()
	if err != nil {
		return ""
	}
	src := filepath.Join(strings.TrimSpace(string(b)), "src", "time", "time.go")
	t, err := os.ReadFile(src)
	if err != nil {
		return ""
	}
	const head = "func Now() Time {\n"
	s := string(t)
	if strings.Count(s, head) != 1 {
		return ""
	}
	s = strings.Replace(s, head, head+`	if v, ok := verifSyscall.Getenv("VERIF_FAKE_UNIX"); ok {
		n, neg := int64(0), false
		for i := 0; i < len(v); i++ {
			if v[i] == '-' {
				neg = true
				continue
			}
			n = n*10 + int64(v[i]-'0')
		}
		if neg {
			n = -n
		}
		return Unix(n, 999999999)
	}
`, 1)
	s = strings.Replace(s, "\nimport (\n", "\nimport (\n\tverifSyscall \"syscall\"\n", 1)
	f := filepath.Join(c.scratch, "time.go")
	o := filepath.Join(c.scratch, "overlay.json")
	os.WriteFile(f, []byte(s), 0o644)
	j, _ := json.Marshal(map[string]any{"Replace": map[string]string{src: f}})
	os.WriteFile(o, j, 0o644)
	bin := filepath.Join(c.scratch, "fbdl-clock")
	c.goBuild(bin, c.repo, "0", "-overlay", o)
	return bin
}

// rebased makes the addresses of subblocks relative to their parent; the address spaces of the blocks directly in the
// bus become relative to themselves.
func rebased(b map[string]any, start int64, top bool) {
	l, _ := b["Subblocks"].([]any)
	for _, x := range l {
		s := x.(map[string]any)
		as, ok := s["AddrSpace"].(map[string]any)
		if !ok {
			continue
		}
		st, _ := as["Start"].(json.Number).Int64()
		en, _ := as["End"].(json.Number).Int64()
		base := start
		if top {
			base = st
		}
		as["Start"], as["End"] = st-base, en-base
		rebased(s, st, false)
	}
}

func rawBus(b []byte) (map[string]any, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var m map[string]any
	err := d.Decode(&m)
	return m, err
}

// withoutTS returns the model without what the timestamp may change.
func withoutTS(b []byte) (string, error) {
	m, err := rawBus(b)
	if err != nil {
		return "", err
	}
	rebased(m, 0, true)
	delete(m, "Sizes")
	delete(m, "AddrSpace")
	var keep []any
	l, _ := m["Statics"].([]any)
	for _, x := range l {
		s := x.(map[string]any)
		switch s["Name"] {
		case "TIMESTAMP":
			continue
		case "ID":
			delete(s, "InitValue")
		}
		keep = append(keep, s)
	}
	m["Statics"] = keep
	o, err := json.MarshalIndent(m, "", " ")
	return string(o), err
}

// timestamps are the TIMESTAMP functionalities of the bus itself.
func timestamps(j *JBlock) (l []*JElem) {
	for _, e := range j.leaves() {
		if e.Name == "TIMESTAMP" {
			l = append(l, e)
		}
	}
	return
}

func lowBits(v int64, w int64) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := w - 1; i >= 0; i-- {
		if i < 64 && v>>uint(i)&1 == 1 {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
	}
	return b.String() + `"`
}

// bitsText returns the binary digits of a printed bit string.
func bitsText(s string) string {
	if len(s) < 3 || s[1] != '"' {
		return s
	}
	return `"` + refBits(s[0], strings.Trim(s[1:], `"`)) + `"`
}

// judgeTS compares a model with a timestamp against the one without.
func judgeTS(base, ts *JBlock, d *Elem, rawBase, rawTS []byte, t0, t1 int64) (errs []string) {
	bad := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	if l := timestamps(base); len(l) != 0 {
		bad("there is a TIMESTAMP without the option")
	}
	l := timestamps(ts)
	if len(l) != 1 {
		bad("there are %d TIMESTAMP functionalities with the option", len(l))
		return
	}
	e := l[0]
	w := min64(ts.Width, 36)
	if e.Kind != "static" || e.IsArray || e.Count != 1 || e.Width != w {
		bad("TIMESTAMP is a %s, array %v, count %d, width %d instead of a single static of width %d", e.Kind, e.IsArray, e.Count, e.Width, w)
	}
	a := e.Access
	if a.RegCount != 1 || a.ItemCount != 1 || a.ItemWidth != w || a.StartAddr != a.EndAddr || a.StartBit != 0 || a.EndBit != w-1 || a.StartRegWidth != w || a.EndRegWidth != w {
		bad("access of TIMESTAMP is %+v", a)
	}
	if a.StartAddr != base.Sizes.Own {
		bad("TIMESTAMP is at %d, the first address behind the own registers is %d", a.StartAddr, base.Sizes.Own)
	}
	ok := false
	got := bitsText(e.InitValue)
	for t := t0; t <= t1; t++ {
		ok = ok || got == lowBits(t, w)
	}
	if !ok {
		bad("value of TIMESTAMP is %s (%d bits), generation time is %d to %d (%s)", e.InitValue, w, t0, t1, lowBits(t0, w))
	}
	if ts.Sizes.Own != base.Sizes.Own+1 {
		bad("own size is %d with the option and %d without", ts.Sizes.Own, base.Sizes.Own)
	}
	if ts.Sizes.Cumulated != base.Sizes.Cumulated+1 {
		bad("cumulated size is %d with the option and %d without", ts.Sizes.Cumulated, base.Sizes.Cumulated)
	}
	x, err := withoutTS(rawBase)
	y, err2 := withoutTS(rawTS)
	if err != nil || err2 != nil {
		bad("output is not JSON: %v %v", err, err2)
	} else if x != y {
		bad("the option changes something else: %s", firstDiff([]byte(x), []byte(y)))
	}
	m := mapBlock(ts, d)
	for addr, us := range m.uses {
		if addr == a.StartAddr && len(us) != 1 {
			bad("register %d of TIMESTAMP is shared: %v", addr, us)
		}
		if addr > a.StartAddr {
			bad("register at %d is behind TIMESTAMP at %d: %v", addr, a.StartAddr, us)
		}
	}
	c02, _ := oracleC02(ts, d, true)
	errs = append(errs, c02...)
	return
}

func checkC18(c *Check) {
	c.rule = "random valid designs of all bus widths compiled without the option, with it, with it in other argument orders, through the Go API, and with the clock of the command set to boundary times by an overlaid standard library; " +
		"the printed models are compared after removal of what the timestamp may change; non-trivial: at least 2 elements, distinct by source text"
	c.assume = []string{"generation times before 1970 are not generated", "the position of the blocks directly in the bus may move, as the address space of the bus may grow"}
	bin := c.clockBin()
	if bin == "" {
		c.inconclusive("the clock cannot be overlaid on this Go version")
	}
	api := c.buildProbe()
	probes := newProbePool(api)
	n := c.n(7000, 80000)
	times := []int64{0, 1, 59, 1 << 15, 1<<16 - 1, 1 << 16, 1700000000, 1<<31 - 1, 1 << 31, 1<<31 + 12345, 1<<32 - 1, 1 << 32, 1<<32 + 98765, 1<<33 - 1, 1<<35 + 77, 1<<36 - 1, 1 << 36, 1<<36 + 5, 1<<38 + 123456789}
	var late sync.Mutex
	type again struct {
		f   Files
		id  string
		at  time.Time
		idx int
	}
	var redo []again
	c.parallel(n, func(w *Worker, i int) {
		r := newRand(c.seed, "C18", i)
		o := fullOpt(i)
		if i%3 == 1 {
			o = layoutOpt("C02", i)
		}
		if i%4 == 0 {
			o.Widths = []int64{1 + int64(i/4)%128}
		}
		d := genDesign(r, o)
		if i%7 == 0 {
			// a bus of a certain own size, at the limits of the address space
			d.Subs = nil
			k := int64(1 + r.Intn(40))
			d.Subs = append(d.Subs, &Elem{Kind: "config", Name: "only", Count: k, Props: []DProp{{"width", vi(d.busWidth())}}})
			if r.Intn(2) == 0 {
				d.Subs = append(d.Subs, &Elem{Kind: "block", Name: "blk", Count: int64(1 + r.Intn(3)), Subs: []*Elem{{Kind: "config", Name: "c", Count: int64(1 + r.Intn(9)), Props: []DProp{{"width", vi(d.busWidth())}}}}})
			}
		}
		f := Files{"bus.fbd": d.flat()}
		if r.Intn(4) == 0 {
			fa := newFactorer(r, 1+r.Intn(2))
			f = fa.factor(d, canonical)
		}
		dir := w.project(f)
		c.eval(1)
		base := w.runIn(dir, nil, "-c", "const.json")
		jb := c.mustCompile(i, base, f, "without the option")
		if jb == nil {
			return
		}
		args := [][]string{{"-add-timestamp", "-c", "const.json"}, {"-c", "const.json", "-add-timestamp"}, {"-main", "main", "-add-timestamp", "-c", "const.json"}, {"-debug", "-add-timestamp", "-c", "const.json"}}[r.Intn(4)]
		t0 := time.Now().Unix()
		res := w.runIn(dir, nil, args...)
		t1 := time.Now().Unix()
		jt := c.mustCompile(i, res, f, "with the option")
		if jt == nil {
			return
		}
		for _, e := range judgeTS(jb, jt, d, base.Stdout, res.Stdout, t0, t1) {
			c.violation(i, strings.Join(args, " ")+": "+e, f, string(res.Stdout))
		}
		if string(res.Const) != string(base.Const) {
			c.violation(i, "the option changes the constants file: "+firstDiff(base.Const, res.Const), f, "")
		}
		if jt.id() == "" {
			c.violation(i, "no ID with the option", f, string(res.Stdout))
		}
		if bin != "" {
			var l []int64
			l = append(l, times[r.Intn(len(times))], times[r.Intn(len(times))], r.Int63n(1<<uint(1+r.Intn(38))))
			for _, tm := range l {
				x := Cmd{Bin: bin, Dir: dir, Args: append(append([]string(nil), args...), "bus.fbd"), Env: []string{"VERIF_FAKE_UNIX=" + strconv.FormatInt(tm, 10)}}.run()
				jx := c.mustCompile(i, x, f, fmt.Sprintf("with the option, generation time %d", tm))
				if jx == nil {
					return
				}
				c.count("runs with a set clock", 1)
				for _, e := range judgeTS(jb, jx, d, base.Stdout, x.Stdout, tm, tm) {
					c.violation(i, fmt.Sprintf("generation time %d: %s", tm, e), f, string(x.Stdout))
				}
				if jx.id() != jt.id() {
					c.violation(i, fmt.Sprintf("ID is %s at time %d and %s at time %d", jt.id(), t0, jx.id(), tm), f, string(x.Stdout))
				}
				c.seen("generation times", strconv.FormatInt(tm, 10))
			}
			x := Cmd{Bin: bin, Dir: dir, Args: []string{"-c", "const.json", "bus.fbd"}, Env: []string{"VERIF_FAKE_UNIX=" + strconv.FormatInt(l[0], 10)}}.run()
			if string(x.Stdout) != string(base.Stdout) {
				c.violation(i, fmt.Sprintf("the output without the option depends on the time: %s", firstDiff(base.Stdout, x.Stdout)), f, "")
			}
		}
		if i%5 == 0 {
			p := probes.get(w.n)
			for _, ts := range []bool{true, false, true} {
				var a ProbeBus
				t0 := time.Now().Unix()
				if !p.ask(ProbeReq{Op: "compile", Dir: dir, File: "bus.fbd", Name: "main", TS: ts}, &a) {
					c.violation(i, "compilation through the API ended the process: "+p.dead, f, "")
					probes.drop(w.n)
					return
				}
				t1 := time.Now().Unix()
				c.count("compilations through the API", 1)
				if !ts {
					if a.Bus != string(base.Stdout) {
						c.violation(i, "without the option, through the API after a compilation with it: "+firstDiff(base.Stdout, []byte(a.Bus)), f, "")
					}
					continue
				}
				ja, err := decodeBus([]byte(a.Bus))
				if err != nil {
					c.violation(i, "through the API: "+a.Err+err.Error(), f, "")
					return
				}
				for _, e := range judgeTS(jb, ja, d, base.Stdout, []byte(a.Bus), t0, t1) {
					c.violation(i, "through the API: "+e, f, a.Bus)
				}
				if ja.id() != jt.id() {
					c.violation(i, "ID through the API differs", f, a.Bus)
				}
			}
		}
		if i%40 == 0 {
			late.Lock()
			redo = append(redo, again{f, jt.id(), time.Now(), i})
			late.Unlock()
		}
		c.seen("bus widths", fmt.Sprint(jb.Width))
		c.seen("own sizes", fmt.Sprint(jb.Sizes.Own))
		if jt.Sizes.Aligned != jb.Sizes.Aligned {
			c.count("address spaces grown by the timestamp", 1)
		}
		c.count("timestamps observed", 1)
		if len(d.Subs) >= 2 {
			c.nontrivial(f.text())
		}
		if i < 2 {
			c.sample(f.text())
		}
	})
	probes.close()
	if c.stop.Load() {
		return
	}
	// the same with the real clock at another time
	c.parallel(len(redo), func(w *Worker, i int) {
		x := redo[i]
		for time.Since(x.at) < 2100*time.Millisecond {
			time.Sleep(50 * time.Millisecond)
		}
		res := w.compile(x.f, "-add-timestamp")
		j := c.mustCompile(x.idx, res, x.f, "with the option, later")
		if j == nil {
			return
		}
		c.count("repeated at another real time", 1)
		if j.id() != x.id {
			c.violation(x.idx, fmt.Sprintf("ID is %s and later %s", x.id, j.id()), x.f, string(res.Stdout))
		}
	})
}
