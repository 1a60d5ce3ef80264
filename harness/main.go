package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type checkFn struct {
	f    func(*Check)
	race bool
}

var checks = map[string]checkFn{}

func register(id string, f func(*Check)) { checks[id] = checkFn{f, false} }

func goEnv(cgo string, verif string) []string {
	var e []string
	for _, v := range os.Environ() {
		k := strings.SplitN(v, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOCACHE", "CGO_ENABLED", "GOTOOLCHAIN", "FBDPATH", "GO111MODULE", "GOSUMDB":
			continue
		}
		e = append(e, v)
	}
	cache := filepath.Join(verif, ".cache", "go")
	return append(e, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOCACHE="+cache, "CGO_ENABLED="+cgo)
}

func (c *Check) goBuild(out string, dir string, cgo string, args ...string) {
	a := append([]string{"build"}, args...)
	a = append(a, "-o", out)
	if dir == c.repo {
		a = append(a, "./cmd/fbdl")
	} else {
		a = append(a, ".")
	}
	cmd := exec.Command("go", a...)
	cmd.Dir = dir
	cmd.Env = goEnv(cgo, c.verif)
	if b, err := cmd.CombinedOutput(); err != nil {
		fatalf("go %s in %s: %v\n%s", strings.Join(a, " "), dir, err, b)
	}
}

func main() {
	if len(os.Args) > 3 && os.Args[1] == "exec" {
		// exec with a limited size of files
		n, _ := strconv.ParseUint(os.Args[2], 10, 64)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			fatalf("setrlimit: %v", err)
		}
		fatalf("exec: %v", syscall.Exec(os.Args[3], os.Args[3:], os.Environ()))
	}
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: vh check ID | vh check all")
		os.Exit(2)
	}
	id := os.Args[2]
	ck, ok := checks[id]
	if !ok {
		fatalf("unknown check %s", id)
	}
	exe, _ := os.Executable()
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = filepath.Dir(filepath.Dir(exe))
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	scratch, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fatalf("scratch: %v", err)
	}
	cleanupDirs = append(cleanupDirs, scratch)
	os.Chmod(scratch, 0o755)
	c := &Check{
		id: id, tier: tier, seed: seed, verif: verif, repo: repo, scratch: scratch,
		replay:   filepath.Join(verif, "evidence", "replay"),
		knownHit: map[string]int{}, inconc: map[string]int{}, counts: map[string]int64{},
		distinct: map[string]map[string]struct{}{}, nontriv: map[string]struct{}{}, start: time.Now(),
	}
	c.loadKnown()
	c.bin = os.Getenv("VH_BIN")
	if c.bin == "" {
		c.bin = filepath.Join(scratch, "fbdl")
		c.goBuild(c.bin, repo, "0")
	}
	c.start = time.Now()
	ck.f(c)
	rc := c.finish()
	cleanup()
	os.Exit(rc)
}

func (c *Check) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fatalf("known-findings: %v", err)
		}
		c.known = append(c.known, k)
	}
}
