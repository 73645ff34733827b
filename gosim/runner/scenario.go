package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"gosim/wire"
)

// Step is one event in the history of a simulated machine.
type Step struct {
	Op   string          `json:"op"` // build, pair, put, remove, link, mkdir
	Cmds []string        `json:"cmds,omitempty"`
	Cmd2 []string        `json:"cmds2,omitempty"` // second process of a pair
	Cfg  wire.Config     `json:"cfg,omitempty"`
	Path string          `json:"path,omitempty"` // of a build: the project folder as given on the command line
	Cwd  string          `json:"cwd,omitempty"`  // of a build: the folder it is started in
	Text []byte          `json:"text,omitempty"`
	Tag  string          `json:"tag,omitempty"`
	Web  *wire.WebScript `json:"web,omitempty"`
}

// Scenario is a complete simulated history: replaying it gives the same run.
type Scenario struct {
	Prop  string   `json:"property"`
	Seed  uint64   `json:"seed"`
	Kind  string   `json:"kind"`
	Proj  *Project `json:"project"`
	Steps []Step   `json:"steps"`
}

// Violation describes how a property was broken.
type Violation struct {
	Class  string   `json:"class"`
	Detail string   `json:"detail"`
	Trace  []string `json:"trace,omitempty"`
}

// Verdict is the outcome of judging one scenario.
type Verdict struct {
	V       *Violation
	Skipped string   // scenario says nothing about the property
	Faults  int      // faults that fired
	Key     uint64   // identifies the explored behaviour
	Notes   []string // classification counters
	Digests []uint64 // digest of every step, for replay comparison
}

// World executes a scenario's steps.
type World struct {
	sim   *Sim
	sc    *Scenario
	img   wire.Image
	v     *Verdict
	trace []string
}

func (w *World) job(img wire.Image, cmds []string, cfg wire.Config) *wire.Job {
	p := w.sc.Proj
	if cfg.Clock == 0 {
		cfg.Clock = 1700000000e9
	}
	return &wire.Job{Image: img, Mode: "build", Cfg: cfg,
		Procs: []wire.Proc{place(wire.Proc{Args: p.args(cmds), Cwd: p.Cwd}, cfg.MapSeed)}}
}

// place draws the circumstances of a process that a build must not depend on.
func place(p wire.Proc, seed uint64) wire.Proc {
	r := wire.NewRand(seed ^ 0x91ace)
	u := r.Pick(words)
	p.Pid = 2 + r.N(1<<22)
	p.Host = r.Pick(words) + "-" + r.Pick(words)
	p.Heap = r.N(1 << 16)
	p.Env = []string{"USER=" + u, "LOGNAME=" + u, "HOME=/home/" + u, "HOSTNAME=" + p.Host, "PATH=/usr/bin:/bin", "PWD=" + p.Cwd,
		"LANG=" + r.Pick([]string{"C", "en_US.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8"}), "TZ=" + r.Pick([]string{"UTC", "Asia/Tokyo", "America/New_York"})}
	for _, e := range []string{"LC_ALL=C", "SOURCE_DATE_EPOCH=1", "DEBUG=1", "VERBOSE=1", "CI=true", "NO_COLOR=1", "TERM=xterm", "TMPDIR=/tmp", "GOMAXPROCS=4", "EDITOR=vi", "SHELL=/bin/sh"} {
		if r.Chance(1, 3) {
			p.Env = append(p.Env, e)
		}
	}
	return p
}

func quiet(seed uint64) wire.Config {
	return wire.Config{Seed: seed, MapSeed: seed, CrashOp: -1, Quota: -1, Explicit: true}
}

// run executes one build step on the current disk and keeps what survives.
func (w *World) run(st *Step) (*wire.Result, error) {
	if st.Cfg.SkipOps < 0 {
		ref, err := w.clean(w.img, st.Cmds)
		if err != nil {
			return nil, err
		}
		st.Cfg.SkipOps = (-1 - st.Cfg.SkipOps) * ref.Ops >> 16
	}
	job := w.job(w.img, st.Cmds, st.Cfg)
	if st.Cwd != "" {
		job.Procs[0].Cwd = st.Cwd
	}
	if st.Path != "" {
		job.Procs[0].Args[len(job.Procs[0].Args)-1] = st.Path
	}
	if st.Op == "pair" {
		job.Procs = append(job.Procs, place(wire.Proc{Args: w.sc.Proj.args(st.Cmd2), Cwd: w.sc.Proj.Cwd}, st.Cfg.MapSeed+1))
	}
	res, err := w.sim.Run(job)
	if err != nil {
		return nil, err
	}
	w.v.Digests = append(w.v.Digests, res.Digest)
	w.v.Faults += len(res.Fired)
	w.v.Key = wire.Hash(w.v.Key, fmt.Sprint(res.Digest))
	w.trace = append(w.trace, fmt.Sprintf("%s %v: exit %d, %d operations, output %q", st.Op, st.Cmds, res.Procs[0].Exit, res.Steps, tail(string(res.Procs[0].Stdout), 300)))
	for _, op := range res.Trace {
		w.trace = append(w.trace, fmt.Sprintf("  p%d op %d %s %s -> %d errno %d  [%s]", op.Proc, op.N, op.Name, op.Path, op.Res, op.Err, op.Fault))
	}
	// freeze: this very step can be repeated without any randomness
	var keep []wire.Fault
	for _, f := range res.Fired {
		if f.Kind != "badpath" && f.Kind != "diskfull" {
			keep = append(keep, f)
		}
	}
	st.Cfg.Explicit = true
	st.Cfg.Faults = keep
	if len(job.Procs) > 1 {
		st.Cfg.Schedule = res.Schedule
	}
	w.img = res.Image
	return res, nil
}

func (w *World) apply(st *Step) {
	im := w.img.Clone()
	switch st.Op {
	case "put":
		put(im, st.Path, string(st.Text))
		im[st.Path].Mtime = 1700000001e9
	case "remove":
		for p := range im {
			if p == st.Path || strings.HasPrefix(p, st.Path+"/") {
				delete(im, p)
			}
		}
	case "link":
		delete(im, st.Path)
		link(im, st.Path, string(st.Text))
	case "mkdir":
		mkdir(im, st.Path)
	}
	w.img = im
	w.trace = append(w.trace, fmt.Sprintf("%s %s (%d bytes)", st.Op, st.Path, len(st.Text)))
}

// Clean is what an undisturbed build into empty folders gives.
type Clean struct {
	Files  wire.Image // below the target folders
	Stdout []byte
	Exit   int
	Ops    int
	Panic  string
}

var cleanMu sync.Mutex
var cleanCache = map[uint64]*Clean{}

// clean builds the given disk's sources on a fresh, healthy machine.
func (w *World) clean(img wire.Image, cmds []string) (*Clean, error) {
	p := w.sc.Proj
	all := p.dirs(p.cmdNames())
	src := wire.Image{}
	for k, e := range img {
		if under(k, all) || k == p.Cwd+"/build.log" {
			continue
		}
		src[k] = e
	}
	key := wire.Hash(imageHash(src), strings.Join(cmds, ","), p.Cwd)
	cleanMu.Lock()
	c := cleanCache[key]
	cleanMu.Unlock()
	if c != nil {
		return c, nil
	}
	res, err := w.sim.Run(w.job(src, cmds, quiet(7)))
	if err != nil {
		return nil, err
	}
	c = &Clean{Files: wire.Image{}, Stdout: res.Procs[0].Stdout, Exit: res.Procs[0].Exit, Ops: res.Procs[0].Ops, Panic: res.Procs[0].Panic}
	mine := p.dirs(cmds)
	for k, e := range res.Image {
		if under(k, mine) {
			c.Files[k] = e
		}
	}
	cleanMu.Lock()
	if len(cleanCache) > 400 {
		cleanCache = map[uint64]*Clean{}
	}
	cleanCache[key] = c
	cleanMu.Unlock()
	return c, nil
}

func under(p string, dirs []string) bool {
	for _, d := range dirs {
		if p == d || strings.HasPrefix(p, d+"/") {
			return true
		}
	}
	return false
}

func same(a, b *wire.Entry) bool {
	return a != nil && b != nil && a.Kind == b.Kind && bytes.Equal(a.Data, b.Data)
}

// lacks names the first file of want that img does not have exactly.
func lacks(img, want wire.Image) string {
	for _, p := range want.Paths() {
		e := want[p]
		if e.Kind == 'd' {
			continue
		}
		g := img[p]
		if g == nil {
			return p + " is missing"
		}
		if !same(g, e) {
			return fmt.Sprintf("%s differs: %s", p, diffAt(g.Data, e.Data))
		}
	}
	return ""
}

func diffAt(got, want []byte) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	a, b := n-30, n+40
	if a < 0 {
		a = 0
	}
	cut := func(x []byte) string {
		e := b
		if e > len(x) {
			e = len(x)
		}
		if a > e {
			return ""
		}
		return string(x[a:e])
	}
	return fmt.Sprintf("%d bytes instead of %d, first difference at byte %d: got %q want %q", len(got), len(want), n, cut(got), cut(want))
}

func (w *World) violate(class, format string, args ...any) {
	if w.v.V == nil {
		w.v.V = &Violation{Class: class, Detail: fmt.Sprintf(format, args...), Trace: w.trace}
	}
}

func (w *World) note(s string) { w.v.Notes = append(w.v.Notes, s) }

// ---- replay files

func (s *Scenario) clone() *Scenario {
	c := *s
	pr := *s.Proj
	pr.Img = s.Proj.Img.Clone()
	pr.Cmds = append([]Cmd{}, s.Proj.Cmds...)
	c.Proj = &pr
	c.Steps = make([]Step, len(s.Steps))
	for i, st := range s.Steps {
		st.Cmds = append([]string{}, st.Cmds...)
		st.Cmd2 = append([]string{}, st.Cmd2...)
		st.Cfg.Faults = append([]wire.Fault{}, st.Cfg.Faults...)
		st.Cfg.Schedule = append([]byte{}, st.Cfg.Schedule...)
		st.Cfg.BadPaths = append([]string{}, st.Cfg.BadPaths...)
		if st.Web != nil {
			x := *st.Web
			x.Events = append([]wire.WebEvent{}, st.Web.Events...)
			st.Web = &x
		}
		c.Steps[i] = st
	}
	return &c
}

type Replay struct {
	Scenario  *Scenario  `json:"scenario"`
	Violation *Violation `json:"violation"`
	Digests   []uint64   `json:"digests"`
	BaseSeed  int64      `json:"verif_seed"`
	Index     int        `json:"scenario_index"`
}

func writeReplay(path string, r *Replay) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0644)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
