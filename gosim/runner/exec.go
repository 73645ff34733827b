package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gosim/overlay"
	"gosim/wire"
)

// Sim runs simulated processes.
type Sim struct {
	bin  string
	work string
	n    int64
	mu   sync.Mutex
	// totals over every simulated run
	runs    int64
	steps   int64
	simNs   int64
	fired   map[string]int64
	digests map[uint64]bool
	states  map[uint64]bool
}

var errInfra = errors.New("infrastructure")

func sh(dir string, env []string, name string, args ...string) error {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
	}
	return nil
}

// newSim builds the program of the current working tree under the simulator.
func newSim(repo, gosim, work string) (*Sim, error) {
	goroot := runtime.GOROOT()
	if g := os.Getenv("GOROOT"); g != "" {
		goroot = g
	}
	if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		goroot = strings.TrimSpace(string(out))
	}
	ov, err := overlay.Write(goroot, filepath.Join(work, "ov"), repo, gosim)
	if err != nil {
		return nil, err
	}
	bin := filepath.Join(work, "sim")
	if err := sh(filepath.Join(repo, "src"), []string{"GOFLAGS=-mod=readonly"}, "go", "build", "-overlay", ov, "-o", bin, "."); err != nil {
		return nil, err
	}
	s := &Sim{bin: bin, work: work, fired: map[string]int64{}, digests: map[uint64]bool{}, states: map[uint64]bool{}}
	return s, os.MkdirAll(filepath.Join(work, "jobs"), 0755)
}

// Run performs one simulated execution.
func (s *Sim) Run(job *wire.Job) (*wire.Result, error) {
	id := atomic.AddInt64(&s.n, 1)
	jf := filepath.Join(s.work, "jobs", fmt.Sprintf("j%d", id))
	rf := filepath.Join(s.work, "jobs", fmt.Sprintf("r%d", id))
	if job.Cfg.OpLimit == 0 {
		job.Cfg.OpLimit = 400000
	}
	if err := os.WriteFile(jf, wire.EncodeJob(job), 0644); err != nil {
		return nil, err
	}
	defer os.Remove(jf)
	defer os.Remove(rf)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, s.bin)
	cmd.Dir = "/"
	cmd.Env = []string{"VERIF_JOB=" + jf, "VERIF_OUT=" + rf, fmt.Sprintf("VERIF_MAPSEED=%d", job.Cfg.MapSeed&0xffffffffffff|1<<50),
		"GOGC=off", "GOMEMLIMIT=3GiB", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "GOMAXPROCS=1"}
	out, err := cmd.CombinedOutput()
	if err != nil {
		if ctx.Err() != nil {
			return nil, errHang
		}
		// the Go runtime itself gave up (stack overflow, deadlock, concurrent map writes)
		if t := string(out); strings.Contains(t, "fatal error:") || strings.Contains(t, "panic:") {
			if len(t) > 3000 {
				t = t[:3000]
			}
			return &wire.Result{Image: job.Image, Procs: []wire.ProcResult{{Exit: -2, Panic: t}}}, nil
		}
		return nil, fmt.Errorf("%w: simulated process: %v\n%s", errInfra, err, tail(string(out), 2000))
	}
	b, err := os.ReadFile(rf)
	if err != nil {
		return nil, fmt.Errorf("%w: %v", errInfra, err)
	}
	res, err := wire.DecodeResult(b)
	if err != nil {
		return nil, fmt.Errorf("%w: %v (%d bytes) %s", errInfra, err, len(b), tail(string(out), 500))
	}
	s.mu.Lock()
	s.runs++
	s.steps += int64(res.Steps)
	if res.SimTime > 0 {
		s.simNs += res.SimTime
	}
	for _, f := range res.Fired {
		s.fired[f.Kind]++
	}
	s.digests[res.Digest] = true
	s.states[imageHash(res.Image)] = true
	s.mu.Unlock()
	return res, nil
}

var errHang = errors.New("simulated process did not end within 120 s of real time")

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func imageHash(im wire.Image) uint64 {
	h := uint64(0)
	for p, e := range im {
		h ^= wire.Hash(0, p, string(e.Kind), string(e.Data))
	}
	return h
}
