package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one run of one check.
type Check struct {
	id       string
	tier     string
	seed     int64
	verif    string
	repo     string
	bin      string // command built from the working tree
	raceBin  string
	scratch  string
	replay   string
	workers  int
	known    []Known
	stop     atomic.Bool
	mu       sync.Mutex
	viol     []Violation
	knownHit map[string]int
	intErr   []string
	inconc   map[string]int
	counts   map[string]int64
	distinct map[string]map[string]struct{}
	samples  []any
	rule     string
	assume   []string
	start    time.Time
	nEval    int64
	nontriv  map[string]struct{}
}

type Violation struct {
	Index int
	What  string
	Files Files
	Extra string
}

// Known is one committed known finding, matched by its exact replay content.
type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vh: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var cleanupDirs []string

func cleanup() {
	for _, d := range cleanupDirs {
		os.RemoveAll(d)
	}
}

func (c *Check) quick() bool { return c.tier != "thorough" }

// n scales a number of cases with the tier.
func (c *Check) n(quick, thorough int) int {
	if !c.quick() {
		return thorough
	}
	// A smaller scale is used when many mutants are tried only.
	if s, err := strconv.ParseFloat(os.Getenv("VH_SCALE"), 64); err == nil {
		quick = min(quick, max(20, int(float64(quick)*s)))
	}
	return quick
}

func (c *Check) eval(n int64) { atomic.AddInt64(&c.nEval, n) }

// nontrivial records one distinct non-trivial case by a key.
func (c *Check) nontrivial(key string) {
	c.mu.Lock()
	c.nontriv[hashKey(key)] = struct{}{}
	c.mu.Unlock()
}

func hashKey(s string) string {
	if len(s) <= 24 {
		return s
	}
	h := uint64(1469598103934665603)
	g := uint64(7)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
		g = g*31 + uint64(s[i])
	}
	return fmt.Sprintf("%x.%x", h, g)
}

func (c *Check) count(k string, n int64) {
	c.mu.Lock()
	c.counts[k] += n
	c.mu.Unlock()
}

func (c *Check) seen(class, v string) {
	c.mu.Lock()
	m := c.distinct[class]
	if m == nil {
		m = map[string]struct{}{}
		c.distinct[class] = m
	}
	m[hashKey(v)] = struct{}{}
	c.mu.Unlock()
}

func (c *Check) sample(v any) {
	if s, ok := v.(string); ok && len(s) > 1500 {
		v = s[:1500] + "..."
	}
	c.mu.Lock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Check) inconclusive(why string) {
	c.mu.Lock()
	c.inconc[why]++
	c.mu.Unlock()
}

func (c *Check) internal(why string) {
	c.mu.Lock()
	c.intErr = append(c.intErr, why)
	c.mu.Unlock()
}

// violation records a violation; key identifies the specific failing input for known findings.
func (c *Check) violation(i int, what string, f Files, extra string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Property == c.id && k.Key != "" && strings.Contains(what+"\n"+extra, k.Key) {
			c.knownHit[k.What]++
			return
		}
	}
	c.viol = append(c.viol, Violation{i, what, f, extra})
	if len(c.viol) >= 25 || os.Getenv("VH_SCALE") != "" {
		c.stop.Store(true)
	}
}

// crashCheck handles a run that must not crash; it returns true if the run is unusable.
// Timeouts with little CPU consumed are inconclusive (a loaded machine), not violations.
func (c *Check) unusable(i int, r *Res, f Files, what string) bool {
	if r.TimedOut && r.CPU < cpuLimit && r.Signal != "" {
		c.inconclusive("wall clock watchdog")
		return true
	}
	if r.Exit == -1 && r.Signal == "" {
		c.internal("cannot run the command: " + r.err())
		return true
	}
	if r.crash() {
		c.violation(i, what+": the command crashed: "+r.brief(), f, "")
		return true
	}
	return false
}

// mustCompile checks that a valid description compiles and decodes the output.
func (c *Check) mustCompile(i int, r *Res, f Files, what string) *JBlock {
	if c.unusable(i, r, f, what) {
		return nil
	}
	if r.Exit != 0 {
		c.violation(i, what+": a valid description does not compile: "+r.brief(), f, "")
		return nil
	}
	j, err := decodeBus(r.Stdout)
	if err != nil {
		c.violation(i, what+": output is not a complete JSON document: "+err.Error(), f, string(r.Stdout))
		return nil
	}
	return j
}

// finish writes evidence, prints the verdict and returns the exit code.
func (c *Check) finish() int {
	if os.Getenv("VH_NO_EVIDENCE") == "" {
		c.writeEvidence()
	}
	var ks []string
	for k := range c.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
	}
	for k, n := range c.inconc {
		fmt.Printf("inconclusive: %s (%d)\n", k, n)
	}
	if len(c.viol) > 0 {
		sort.SliceStable(c.viol, func(i, j int) bool { return c.viol[i].Index < c.viol[j].Index })
		v := c.viol[0]
		if d := os.Getenv("VH_DUMP"); d != "" {
			for k, x := range c.viol {
				x.Files.write(filepath.Join(d, fmt.Sprint(k)))
				os.WriteFile(filepath.Join(d, fmt.Sprint(k), "what.txt"), []byte(x.What), 0o644)
			}
		}
		dir := filepath.Join(c.replay, c.id)
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0o755)
		if v.Files != nil {
			v.Files.write(filepath.Join(dir, "project"))
		}
		t := fmt.Sprintf("property %s seed %d tier %s case %d\n%s\n\n%s\n", c.id, c.seed, c.tier, v.Index, v.What, v.Extra)
		os.WriteFile(filepath.Join(dir, "violation.txt"), []byte(t), 0o644)
		w := v.What
		if len(w) > 2500 {
			w = w[:2500] + "..."
		}
		fmt.Printf("case %d: %s\n", v.Index, w)
		if len(c.viol) > 1 {
			fmt.Printf("and %d more\n", len(c.viol)-1)
			for _, x := range c.viol[1:] {
				w := strings.SplitN(x.What, "\n", 2)[0]
				if len(w) > 200 {
					w = w[:200]
				}
				fmt.Printf("  case %d: %s\n", x.Index, w)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, dir)
		return 1
	}
	if len(c.intErr) > 0 {
		fmt.Printf("internal errors: %d, first: %s\n", len(c.intErr), c.intErr[0])
		return 2
	}
	if c.nEval == 0 || len(c.nontriv) == 0 {
		fmt.Println("nothing was observed")
		return 2
	}
	if n := len(c.inconc); n > 0 {
		t := 0
		for _, x := range c.inconc {
			t += x
		}
		if int64(t)*10 > c.nEval {
			fmt.Println("too many inconclusive cases")
			return 2
		}
	}
	fmt.Printf("%s held on %d evaluations, %d distinct non-trivial, %d command runs, %.1f s\n",
		c.id, c.nEval, len(c.nontriv), runCount.Load(), time.Since(c.start).Seconds())
	return 0
}

func (c *Check) writeEvidence() {
	cov := map[string]any{
		"evaluations":         c.nEval,
		"distinct_nontrivial": len(c.nontriv),
		"rule":                c.rule,
		"samples":             c.samples,
		"command_runs":        runCount.Load(),
	}
	if len(c.samples) == 0 {
		cov["samples"] = []any{"none recorded"}
	}
	obs := map[string]int64{}
	for k, v := range c.counts {
		obs[k] = v
	}
	cov["observed"] = obs
	dis := map[string]int{}
	for k, v := range c.distinct {
		dis[k] = len(v)
	}
	cov["distinct_observed"] = dis
	cov["inconclusive"] = c.inconc
	ev := map[string]any{
		"property":    c.id,
		"tier":        map[bool]string{true: "quick", false: "thorough"}[c.quick()],
		"seed":        c.seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": c.assume,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(c.viol),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fatalf("evidence: %v", err)
	}
}
