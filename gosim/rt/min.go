package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

// Replay is everything needed to see a violation again.
type Replay struct {
	Property  string     `json:"property"`
	Seed      int64      `json:"seed"`
	Lang      string     `json:"lang"`
	Violation *Violation `json:"violation"`
	Programs  []*Program `json:"programs"`
	Source    string     `json:"source"`
	Scenario  *Scenario  `json:"scenario"`
	History   string     `json:"history"`
}

func cloneScenario(s *Scenario) *Scenario {
	b, _ := json.Marshal(s)
	var c Scenario
	json.Unmarshal(b, &c)
	return &c
}

func clonePrograms(ps []*Program) []*Program {
	b, _ := json.Marshal(ps)
	var c []*Program
	json.Unmarshal(b, &c)
	return c
}

func progText(ps []*Program) string {
	s := ""
	for _, p := range ps {
		if theKit != nil {
			s += theKit.Text(p)
			continue
		}
		for _, f := range p.Funcs {
			s += f.text()
		}
	}
	return strings.TrimSpace(s)
}

func minimise(tc *Toolchain, pr *Prop, f *finding) (*Replay, error) {
	best, bv, hist := f.sc, f.v, f.hist
	deadline := time.Now().Add(60 * time.Second)
	ps := f.b.Programs
	if f.v.Class != "does not compile" {
		pl := &pool{b: f.b, procs: map[string]*Proc{}}
		defer pl.close()
		try := func(c *Scenario) bool {
			if time.Now().After(deadline) {
				return false
			}
			x, err := expect(f.b, c)
			if err != nil {
				return false
			}
			_, v, raw, err := one(pr, pl, f.lang, c, x)
			if err != nil || v == nil || v.Class != f.v.Class {
				return false
			}
			best, bv, hist = c, v, raw
			return true
		}
		shared := func(s *Scenario) bool {
			for _, t := range s.Tasks {
				for _, k := range t.Share {
					if k >= 0 {
						return true
					}
				}
			}
			return false
		}
		for i := len(best.Tasks) - 1; i >= 0 && len(best.Tasks) > 1; i-- {
			c := cloneScenario(best)
			if shared(c) && i != len(c.Tasks)-1 {
				continue
			}
			c.Tasks = append(c.Tasks[:i], c.Tasks[i+1:]...)
			try(c)
		}
		for i := len(best.Fails) - 1; i >= 0; i-- {
			c := cloneScenario(best)
			c.Fails = append(c.Fails[:i], c.Fails[i+1:]...)
			try(c)
		}
		for i := 0; best.Disk != nil && i < len(best.Disk.Faults); {
			c := cloneScenario(best)
			c.Disk.Faults = append(c.Disk.Faults[:i], c.Disk.Faults[i+1:]...)
			if !try(c) {
				i++
			}
		}
		if best.Disk != nil {
			c := cloneScenario(best)
			c.Disk.Cap = 0
			try(c)
			for n := range best.Disk.Files {
				c := cloneScenario(best)
				delete(c.Disk.Files, n)
				try(c)
			}
		}
		for n := 0; n < len(best.Choices); {
			c := cloneScenario(best)
			c.Choices = c.Choices[:n]
			if try(c) {
				break
			}
			if n == 0 {
				n = 1
			} else {
				n *= 2
			}
		}
		for i := 0; i < len(best.Choices); i++ {
			if best.Choices[i] == 0 {
				continue
			}
			c := cloneScenario(best)
			c.Choices[i] = 0
			if !try(c) {
				for v := 1; v < 4 && v < best.Choices[i]; v++ {
					c := cloneScenario(best)
					c.Choices[i] = v
					if try(c) {
						break
					}
				}
			}
		}
		for len(best.Choices) > 0 && best.Choices[len(best.Choices)-1] == 0 {
			best.Choices = best.Choices[:len(best.Choices)-1]
		}
	}
	// only the programs in use
	index := map[int]int{}
	sc := cloneScenario(best)
	var used []*Program
	for _, t := range sc.Tasks {
		if _, ok := index[t.Prog]; !ok {
			index[t.Prog] = len(used)
			used = append(used, ps[t.Prog])
		}
		t.Prog = index[t.Prog]
	}
	rp := &Replay{Property: pr.ID, Seed: *fSeed, Lang: f.lang, Violation: bv, Programs: used, Scenario: sc, History: hist}
	if again, err := rerun(tc, pr, rp); err == nil && again.Violation != nil && again.Violation.Class == bv.Class {
		rp = again
		rp = shrinkPrograms(tc, pr, rp, deadline.Add(60*time.Second))
	} else {
		// keep the whole batch: the violation needs it
		rp.Programs, rp.Scenario = ps, best
	}
	rp.Source = progText(rp.Programs)
	return rp, nil
}

// rerun builds the programs of a replay and runs its scenario.
func rerun(tc *Toolchain, pr *Prop, rp *Replay) (*Replay, error) {
	out := *rp
	out.Violation = nil
	b, err := tc.build(rp.Programs, []string{rp.Lang})
	if err != nil {
		return nil, err
	}
	defer b.remove()
	if msg := b.Broken[rp.Lang]; msg != "" {
		out.Violation = viol("does not compile", "a program is rejected in %s: %s", rp.Lang, tidy(msg, b.dir))
		out.History = ""
		return &out, nil
	}
	if len(rp.Scenario.Tasks) > 0 && len(rp.Scenario.Tasks[0].Args) != len(rp.Programs[rp.Scenario.Tasks[0].Prog].Funcs[0].Params) {
		return &out, nil // recorded for a rejected program, which now compiles
	}
	x, err := expect(b, rp.Scenario)
	if err != nil {
		return nil, err
	}
	pl := &pool{b: b, procs: map[string]*Proc{}}
	defer pl.close()
	_, v, raw, err := one(pr, pl, rp.Lang, rp.Scenario, x)
	out.Violation, out.History = v, raw
	return &out, err
}

func tidy(s, dir string) string { return strings.ReplaceAll(s, dir, "") }

// shrinkPrograms replaces parts of the programs by simpler ones while the
// violation stays.
func shrinkPrograms(tc *Toolchain, pr *Prop, rp *Replay, deadline time.Time) *Replay {
	if theKit != nil {
		return shrinkOps(tc, pr, rp, deadline)
	}
	for changed := true; changed; {
		changed = false
		n := 0
		visit(rp.Programs, func(*Expr) { n++ })
		for i := 0; i < n; i++ {
			if time.Now().After(deadline) {
				return rp
			}
			ps := clonePrograms(rp.Programs)
			k, ok := 0, false
			visit(ps, func(e *Expr) {
				if k == i {
					ok = simpler(e)
				}
				k++
			})
			if !ok {
				continue
			}
			c := *rp
			c.Programs = ps
			again, err := rerun(tc, pr, &c)
			if err == nil && again.Violation != nil && again.Violation.Class == rp.Violation.Class {
				rp = again
				changed = true
				break
			}
		}
	}
	return rp
}

// shrinkOps leaves out operations while the violation stays.
func shrinkOps(tc *Toolchain, pr *Prop, rp *Replay, deadline time.Time) *Replay {
	for i := range rp.Programs {
		for k := len(rp.Programs[i].Ops) - 2; k >= 0; k-- {
			if time.Now().After(deadline) {
				return rp
			}
			if rp.Programs[i].Ops[k].Op == "leaf" {
				continue
			}
			c := *rp
			c.Programs = clonePrograms(rp.Programs)
			p := c.Programs[i]
			p.Ops = append(p.Ops[:k], p.Ops[k+1:]...)
			if again, err := rerun(tc, pr, &c); err == nil && again.Violation != nil && again.Violation.Class == rp.Violation.Class {
				rp = again
			}
		}
	}
	return rp
}

func visit(ps []*Program, fn func(*Expr)) {
	var walk func(e *Expr)
	walk = func(e *Expr) {
		fn(e)
		for _, b := range e.Bind {
			if b.E != nil {
				walk(b.E)
			}
		}
		for _, a := range e.Args {
			walk(a)
		}
	}
	for _, p := range ps {
		for _, f := range p.Funcs {
			walk(f.Body)
		}
	}
}

func simpler(e *Expr) bool {
	switch e.Op {
	case "str", "int", "bool", "var", "const", "call", "leaf", "amap":
		return false
	case "let":
		// drop a binding nobody uses
		for i := len(e.Bind) - 1; i >= 0 && len(e.Bind) > 1; i-- {
			used := map[string]bool{}
			free(e.Args[0], used)
			for j, b := range e.Bind {
				if j != i {
					free(b.E, used)
				}
			}
			if !used[e.Bind[i].Name] && !e.Bind[i].Async {
				e.Bind = append(e.Bind[:i], e.Bind[i+1:]...)
				return true
			}
		}
		return false
	}
	switch kind(e.T) {
	case 's':
		*e = Expr{Op: "str", T: e.T, S: "k"}
	case 'i':
		*e = Expr{Op: "int", T: e.T, N: 1}
	case 'L', 'M', 'R':
		if e.Op == "new" && len(e.Args) == 1 {
			return false
		}
		s := "a"
		if kind(e.T) == 'L' {
			s = ""
		}
		a := &Expr{Op: "str", T: "string", S: "k"}
		if strings.HasPrefix(e.T, "rec") && e.T != "rec" {
			a = &Expr{Op: "new", T: "rec", S: "a", Args: []*Expr{a}}
		}
		*e = Expr{Op: "new", T: e.T, S: s, Args: []*Expr{a}}
	default:
		return false
	}
	return true
}

// isolate finds a program that the language rejects by itself.
func isolate(tc *Toolchain, b *Batch, lang, msg string) (int, string) {
	idx := make([]int, len(b.Programs))
	for i := range idx {
		idx[i] = i
	}
	for len(idx) > 1 {
		half := idx[:len(idx)/2]
		var ps []*Program
		for _, i := range half {
			ps = append(ps, b.Programs[i])
		}
		c, err := tc.build(ps, []string{lang})
		if err == nil && c.Broken[lang] != "" {
			msg = tidy(c.Broken[lang], c.dir)
			idx = half
		} else {
			idx = idx[len(idx)/2:]
		}
		if c != nil {
			c.remove()
		}
	}
	return idx[0], msg
}

func replay(tc *Toolchain, pr *Prop) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		return fail("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		return fail("%v", err)
	}
	again, err := rerun(tc, pr, &rp)
	if err != nil {
		return fail("%v", err)
	}
	if again.Violation == nil {
		fmt.Println("replay: the property holds in this history")
		return 0
	}
	fmt.Printf("%s: %s\n", again.Violation.Class, again.Violation.Detail)
	fmt.Println(again.History)
	fmt.Printf("same history as recorded: %v\n", again.History == rp.History)
	fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, *fReplay)
	return 1
}

// Known is one accepted defect, identified by the history that shows it.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

type knownList []Known

func loadKnown(path string) (knownList, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out knownList
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		t := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(t, "{") {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(t), &k); err != nil {
			return nil, err
		}
		out = append(out, k)
	}
	return out, sc.Err()
}

func (l knownList) match(prop string, v *Violation) string {
	for _, k := range l {
		if k.Property == prop && k.Class == v.Class && k.Contains != "" && strings.Contains(v.Detail, k.Contains) {
			return k.What
		}
	}
	return ""
}
