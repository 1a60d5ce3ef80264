package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

//go:embed probe/main.go.txt
var probeSrc string

const modPath = "github.com/Functional-Bus-Description-Language/go-fbdl"

// buildProbe builds the program linking the public Go API from the working tree.
func (c *Check) buildProbe() string {
	dir := filepath.Join(c.scratch, "probe")
	os.MkdirAll(dir, 0o755)
	mod, err := os.ReadFile(filepath.Join(c.repo, "go.mod"))
	if err != nil {
		fatalf("probe: %v", err)
	}
	m := strings.Replace(string(mod), "module "+modPath, "module vhprobe", 1)
	m += fmt.Sprintf("\nrequire %s v0.0.0\nreplace %s => %s\n", modPath, modPath, c.repo)
	sum, _ := os.ReadFile(filepath.Join(c.repo, "go.sum"))
	for n, b := range map[string]string{"go.mod": m, "go.sum": string(sum), "main.go": probeSrc} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(b), 0o644); err != nil {
			fatalf("probe: %v", err)
		}
	}
	bin := filepath.Join(c.scratch, "probe.bin")
	c.goBuild(bin, dir, "0")
	return bin
}

// Probe is a running probe process.
type Probe struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	dec    *json.Decoder
	dead   string
	served int
	timer  *time.Timer
	stderr *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startProbe(bin string, env ...string) *Probe {
	p := &Probe{stderr: &tailBuf{}}
	p.cmd = exec.Command(bin)
	p.cmd.Env = append(baseEnv(), env...)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	p.cmd.Stderr = p.stderr
	in, _ := p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	if err := p.cmd.Start(); err != nil {
		fatalf("probe: %v", err)
	}
	prlimit(p.cmd.Process.Pid, 9, 8<<30)
	p.in = in
	p.dec = json.NewDecoder(out)
	return p
}

// ask sends one request, it returns false if the process died or did not answer.
func (p *Probe) ask(q any, ans any) bool {
	if p.dead != "" {
		return false
	}
	b, _ := json.Marshal(q)
	t := time.AfterFunc(wallLimit, func() { p.cmd.Process.Kill() })
	defer t.Stop()
	_, err := p.in.Write(append(b, '\n'))
	if err == nil {
		err = p.dec.Decode(ans)
	}
	if err != nil {
		p.dead = "no answer: " + err.Error()
		p.in.Close()
		p.cmd.Wait()
		p.dead += " " + p.cmd.ProcessState.String() + " " + p.stderr.String()
		return false
	}
	p.served++
	runCount.Add(1)
	return true
}

func (p *Probe) close() {
	if p.dead == "" {
		p.in.Close()
		p.cmd.Wait()
		p.dead = "closed"
	}
}

// ProbeReq is a request of the probe.
type ProbeReq struct {
	Op   string
	Dir  string            `json:",omitempty"`
	File string            `json:",omitempty"`
	Name string            `json:",omitempty"`
	TS   bool              `json:",omitempty"`
	Env  map[string]string `json:",omitempty"`
	S    string            `json:",omitempty"`
	Ws   []int64           `json:",omitempty"`
	R    [][2]int64        `json:",omitempty"`
	N    int64             `json:",omitempty"`
}

type ProbeBus struct {
	Err       string
	Bus, Pkgs string
	Helpers   json.RawMessage
	PkgEmpty  map[string]bool
	Unchanged bool
}
