package main

import (
	"fmt"
	"strings"

	"gosim/wire"
)

// Prop generates scenarios for one property and judges them.
type Prop struct {
	ID       string
	Gen      func(r *wire.Rand, seed uint64, idx int) *Scenario
	Judge    func(w *World) error
	Quick    int // scenarios
	Thorough int
	Rule     string
}

var harmless = []string{"read-short", "read-eintr", "write-short", "write-eintr", "stall", "clockback"}
var readKinds = []string{"open-eio", "open-eacces", "open-emfile", "read-eio", "read-bad", "stat-eio", "stat-eacces", "dir-eio", "dir-part", "readlink-eio"}
var writeKinds = []string{"create-eio", "create-eacces", "create-enospc", "write-eio", "write-enospc", "close-eio", "mkdir-enospc", "mkdir-eacces", "fsync-eio", "rename-eio", "unlink-eio", "symlink-eio", "chmod-eperm"}

func pickSome(r *wire.Rand, from []string, max int) []string {
	n := 1 + r.N(max)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, from[r.N(len(from))])
	}
	return out
}

func randCfg(r *wire.Rand) wire.Config {
	c := wire.Config{Seed: r.U64(), MapSeed: r.U64(), CrashOp: -1, Quota: -1, Clock: 1600000000e9 + int64(r.U64()%uint64(6e17)), ShuffleDir: r.Chance(1, 2)}
	if r.Chance(1, 2) {
		c.YieldRate = []uint32{3000, 30000}[r.N(2)]
	}
	return c
}

// newProject draws the project of scenario idx; a few scenarios use the
// repository's own library.
func newProject(r *wire.Rand, full bool) *Project {
	if full && fullProject != nil {
		return fullProject.copy()
	}
	return genLite(r)
}

func pickCmds(r *wire.Rand, p *Project, max int) []string {
	all := p.cmdNames()
	if max == 0 || max > len(all) {
		max = len(all)
	}
	for i := len(all) - 1; i > 0; i-- {
		j := r.N(i + 1)
		all[i], all[j] = all[j], all[i]
	}
	return all[:1+r.N(max)]
}

func (p *Project) copy() *Project {
	q := *p
	q.Img = p.Img.Clone()
	q.Cmds = append([]Cmd{}, p.Cmds...)
	return &q
}

// sources lists the project's files that are read as program text.
func (p *Project) sources(img wire.Image) []string {
	var out []string
	for _, f := range img.Paths() {
		if img[f].Kind != 'f' {
			continue
		}
		if strings.HasSuffix(f, ".vxlisp") && (strings.HasPrefix(f, p.Root+"/") || strings.HasPrefix(f, "/w/lib/")) && !strings.Contains(f, "/testdata/") {
			out = append(out, f)
		}
	}
	return out
}

// natives lists the per-language text files.
func (p *Project) natives(img wire.Image) []string {
	var out []string
	for _, f := range img.Paths() {
		if img[f].Kind == 'f' && strings.HasSuffix(f, ".txt") && (strings.HasPrefix(f, p.Root+"/") || strings.HasPrefix(f, "/w/lib/")) && !strings.Contains(f, "/testdata/") {
			out = append(out, f)
		}
	}
	return out
}

// editable lists the packages that are not the core library.
func (p *Project) editable(img wire.Image) []string {
	var out []string
	for _, f := range p.sources(img) {
		if !strings.HasSuffix(f, "/project.vxlisp") && !strings.Contains(f, "/vx/core.vxlisp") && !strings.Contains(f, "/vx/test.vxlisp") {
			out = append(out, f)
		}
	}
	return out
}

// forms splits program text into its top-level forms; ok is false when the
// text ends inside one. This is the checks' own idea of where a form ends.
func forms(text string) (out []string, ok bool) {
	depth, start := 0, -1
	instr, comment := false, byte(0)
	for i := 0; i < len(text); i++ {
		c := text[i]
		switch {
		case comment == '/':
			if c == '\n' {
				comment = 0
			}
		case comment == '*':
			if c == '*' && i+1 < len(text) && text[i+1] == '/' {
				comment = 0
				i++
			}
		case instr:
			if c == '\\' {
				i++
			} else if c == '"' {
				instr = false
			}
		case c == '"':
			instr = true
		case c == '/' && i+1 < len(text) && text[i+1] == '/':
			comment = '/'
		case c == '/' && i+1 < len(text) && text[i+1] == '*':
			comment = '*'
		case c == '(' || c == '[':
			if depth == 0 {
				start = i
			}
			depth++
		case c == ')' || c == ']':
			depth--
			if depth == 0 && start >= 0 {
				out = append(out, text[start:i+1])
				start = -1
			}
		}
	}
	return out, depth == 0 && !instr
}

// edit draws one change to the sources that keeps them valid.
func genEdit(r *wire.Rand, p *Project, img wire.Image, uniq *int) Step {
	fs := p.editable(img)
	*uniq += 1000
	if len(fs) == 0 || r.Chance(1, 6) {
		name := fmt.Sprintf("n/%s%d", r.Pick(words), *uniq)
		body := genForms(r, name, 1+r.N(5), uniq)
		return Step{Op: "put", Path: p.Root + "/" + name + ".vxlisp", Text: []byte("(package " + name + "\n :doc \"new\")\n\n" + strings.Join(body, "\n\n") + "\n")}
	}
	f := fs[r.N(len(fs))]
	text := string(img[f].Data)
	fm, _ := forms(text)
	switch r.N(5) {
	case 0: // more
		fm = append(fm, genForms(r, "", 1+r.N(3), uniq)...)
	case 1: // documentation only, longer or shorter
		i := r.N(len(fm))
		if strings.Contains(fm[i], ":doc") {
			k := strings.Index(fm[i], ":doc \"")
			if k >= 0 {
				fm[i] = fm[i][:k+6] + strings.Repeat(r.Pick(words)+" ", r.N(30)) + fm[i][k+6:]
			}
		}
	case 2: // one character of a text
		for i := range fm {
			if strings.Contains(fm[i], "\"") && strings.HasPrefix(fm[i], "(const") {
				fm[i] = strings.Replace(fm[i], "\"", "\"Z", 1)
				break
			}
		}
		fm = append(fm, genForms(r, "", 1, uniq)...)
	case 3: // fewer: the last form, if nothing else uses it
		if len(fm) > 2 {
			last := fm[len(fm)-1]
			name := strings.Fields(last)[1]
			if strings.Count(text, name) == 1 {
				fm = fm[:len(fm)-1]
			}
		}
	case 4: // layout only
		return Step{Op: "put", Path: f, Text: []byte(strings.Join(fm, "\n\n\n") + "\n")}
	}
	return Step{Op: "put", Path: f, Text: []byte(strings.Join(fm, "\n\n") + "\n")}
}

// swarm turns on a random mixture of disk trouble for one build.
func swarm(r *wire.Rand, c *wire.Config, ops int, kinds []string, p *Project, cmds []string) {
	switch k := r.N(16); {
	case k >= 10: // one operation, any of the whole build alike, goes wrong
		c.Kinds = append([]string{}, kinds...)
		c.Rate = 65535
		c.MaxFaults = 1 + r.N(2)
		c.SkipOps = -1 - r.N(1<<16) // a fraction of the build, made concrete when it runs
	case k < 6:
		c.Kinds = pickSome(r, kinds, 3)
		if r.Chance(1, 3) {
			c.Kinds = append(c.Kinds, harmless...)
		}
		c.Rate = []uint32{300, 1500, 6000, 20000}[r.N(4)]
		c.MaxFaults = 1 + r.N(4)
		if r.Chance(1, 4) {
			c.MaxFaults = 40
		}
		c.SkipOps = r.N(ops + 1)
	case k < 8:
		c.Quota = int64(r.N(200000))
		if r.Chance(1, 3) {
			c.Quota = int64(r.N(3000))
		}
	default:
		d := p.dirs(cmds)
		var cand []string
		cand = append(cand, d...)
		for _, f := range p.Img.Paths() {
			if strings.HasPrefix(f, p.Root) || strings.HasPrefix(f, "/w/lib") {
				cand = append(cand, f)
			}
		}
		c.BadPaths = []string{cand[r.N(len(cand))]}
		c.BadErr = []int{5, 13, 28, 30}[r.N(4)]
	}
}

func errExit(res *wire.Result) bool { return res.Procs[0].Exit == -2 }

// sound says whether the undisturbed build of this project is itself fine.
func (w *World) sound(c *Clean) bool {
	return c.Exit == 0 && len(c.Stdout) == 0
}

var props = []*Prop{propC01, propC02, propC03, propC04, propC05, propC06, propC07, propC08, propC09}
