package main

import (
	"bufio"
	"encoding/json"
	"os"
	"strings"
	"time"

	"gosim/wire"
)

// minimise makes the failing history as short as it can within its budget.
// o.sc has already been frozen by the run that found the violation.
func minimise(sim *Sim, pr *Prop, o *outcome) (*Scenario, *Verdict) {
	best := o.sc.clone()
	bv := o.v
	deadline := time.Now().Add(40 * time.Second)
	tries := 0
	try := func(mut func(s *Scenario) bool) bool {
		if time.Now().After(deadline) || tries > 600 {
			return false
		}
		c := best.clone()
		if !mut(c) {
			return false
		}
		tries++
		run := c.clone()
		v, err := judge(sim, pr, run)
		if err != nil || v.V == nil || v.V.Class != bv.V.Class {
			return false
		}
		best, bv = run, v // run is frozen
		return true
	}
	// the frozen history must fail by itself
	v, err := judge(sim, pr, best)
	if err != nil || v.V == nil {
		return o.sc, o.v
	}
	bv = v
	for i := range best.Steps {
		if best.Steps[i].Web == nil {
			continue
		}
		for size := (len(best.Steps[i].Web.Events) + 1) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(best.Steps[i].Web.Events); {
				if !try(func(s *Scenario) bool {
					e := s.Steps[i].Web.Events
					s.Steps[i].Web.Events = append(append([]wire.WebEvent{}, e[:at]...), e[at+size:]...)
					return true
				}) {
					at += size
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(best.Steps) - 1; i >= 0; i-- {
			if len(best.Steps) < 2 {
				break
			}
			if try(func(s *Scenario) bool {
				s.Steps = append(s.Steps[:i], s.Steps[i+1:]...)
				return true
			}) {
				changed = true
			}
		}
		for i := range best.Steps {
			for size := len(best.Steps[i].Cfg.Faults); size >= 1; size /= 2 {
				for at := 0; at+size <= len(best.Steps[i].Cfg.Faults); {
					if try(func(s *Scenario) bool {
						f := s.Steps[i].Cfg.Faults
						s.Steps[i].Cfg.Faults = append(append([]wire.Fault{}, f[:at]...), f[at+size:]...)
						return true
					}) {
						changed = true
					} else {
						at += size
					}
				}
			}
			if len(best.Steps[i].Cfg.BadPaths) > 0 && try(func(s *Scenario) bool { s.Steps[i].Cfg.BadPaths = nil; return true }) {
				changed = true
			}
			if best.Steps[i].Cfg.Quota >= 0 && best.Steps[i].Op == "build" && try(func(s *Scenario) bool { s.Steps[i].Cfg.Quota = -1; return true }) {
				changed = true
			}
		}
		// one command at a time, everywhere
		for _, c := range best.Proj.cmdNames() {
			if try(func(s *Scenario) bool {
				did := false
				for i := range s.Steps {
					s.Steps[i].Cmds, did = without(s.Steps[i].Cmds, c, did)
					s.Steps[i].Cmd2, did = without(s.Steps[i].Cmd2, c, did)
					if s.Steps[i].Op == "build" && len(s.Steps[i].Cmds) == 0 {
						return false
					}
				}
				return did
			}) {
				changed = true
			}
		}
		for _, f := range best.Proj.Img.Paths() {
			if strings.HasSuffix(f, "/project.vxlisp") || strings.Contains(f, "/vx/") || best.Proj.Img[f].Kind == 'd' {
				continue
			}
			if try(func(s *Scenario) bool { delete(s.Proj.Img, f); return true }) {
				changed = true
			}
		}
		for _, f := range best.Proj.editable(best.Proj.Img) {
			fm, _ := forms(string(best.Proj.Img[f].Data))
			for i := len(fm) - 1; i > 0; i-- {
				if try(func(s *Scenario) bool {
					l, _ := forms(string(s.Proj.Img[f].Data))
					if i >= len(l) {
						return false
					}
					l = append(append([]string{}, l[:i]...), l[i+1:]...)
					e := *s.Proj.Img[f]
					e.Data = []byte(strings.Join(l, "\n\n") + "\n")
					s.Proj.Img[f] = &e
					return true
				}) {
					changed = true
				}
			}
		}
		if time.Now().After(deadline) {
			break
		}
	}
	return best, bv
}

func without(l []string, x string, did bool) ([]string, bool) {
	var out []string
	for _, y := range l {
		if y == x {
			did = true
			continue
		}
		out = append(out, y)
	}
	return out, did
}

// Known is one accepted defect, identified by the history that shows it.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type knownList []Known

func loadKnown(path string) (knownList, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out knownList
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		t := strings.TrimSpace(sc.Text())
		if t == "" || !strings.HasPrefix(t, "{") {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(t), &k); err != nil {
			return nil, err
		}
		out = append(out, k)
	}
	return out, sc.Err()
}

func (l knownList) match(prop string, sc *Scenario, v *Violation) string {
	for _, k := range l {
		if k.Property == prop && k.Fixed == "" && k.Class == v.Class && k.Contains != "" && strings.Contains(v.Detail, k.Contains) {
			return k.What
		}
	}
	return ""
}
