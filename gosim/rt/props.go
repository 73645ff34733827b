package main

import (
	"strings"

	"gosim/wire"
)

// Prop is a property of generated programs.
type Prop struct {
	ID              string
	Langs           []string
	Profile         *Profile
	Batches         int // quick
	ThoroughBatches int
	PerBatch        int // programs
	Scenarios       int // per program
	Gen             func(r *wire.Rand, b *Batch, p int) *Scenario
	// Judge is given the history of a run that ended.
	Judge func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation
	Rule  string
	Kit   *Kit
	// Count tells whether a run reaches what the property is about; by
	// default it made at least two asynchronous calls.
	Count func(h *Hist) bool
}

func (p *Prop) nontrivial(h *Hist) bool {
	if p.Count != nil {
		return p.Count(h)
	}
	return len(h.Starts) >= 2
}

func (p *Prop) uses(lang string) bool {
	for _, l := range p.Langs {
		if l == lang {
			return true
		}
	}
	return false
}

func ops(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, o := range l {
		m[o] = true
	}
	return m
}

var full = &Profile{
	Ops:      ops("string", "int", "field", "mapget", "maplist", "if", "listoflist", "reduce", "sub", "multi", "let", "switch", "subif", "const", "mapmap", "messages"),
	LeafT:    []string{"string", "int", "stringlist", "rec", "reclist", "recmap", "stringmap", "box"},
	MaxFuncs: 5,
}

// memory adds what allocates without being part of the result's value.
var memory = &Profile{
	Ops:      ops("string", "int", "field", "mapget", "maplist", "if", "listoflist", "reduce", "sub", "multi", "let", "switch", "subif", "const", "mapmap", "note", "messages"),
	LeafT:    full.LeafT,
	MaxFuncs: 5,
}

var msgs = &Profile{
	Ops:      ops("string", "field", "mapget", "listoflist", "sub", "multi", "let", "const", "note", "messages"),
	LeafT:    []string{"string", "stringlist", "rec", "reclist", "recmap", "stringmap", "box"},
	MaxFuncs: 5,
}

// basic makes one to three calls with random arguments and choices.
func basic(r *wire.Rand, b *Batch, p int, maxTasks int) *Scenario {
	sc := &Scenario{}
	n := 1
	if r.Chance(2, 3) {
		n = 1 + r.N(maxTasks)
	}
	for i := 0; i < n; i++ {
		q := p
		if i > 0 && r.Chance(1, 2) {
			q = r.N(len(b.Programs))
			if b.Programs[q].Chain != b.Programs[p].Chain {
				q = p
			}
		}
		t := &Task{Prog: q, Hold: r.Chance(1, 3)}
		for _, a := range b.Programs[q].Funcs[0].Params {
			t.Args = append(t.Args, value(r, a.T, 2))
		}
		sc.Tasks = append(sc.Tasks, t)
	}
	style := r.N(4)
	for k := 10 + r.N(60); k > 0; k-- {
		c := r.N(97)
		switch style {
		case 1: // newest first
			c = 1 << 20
		case 2: // start everything first, then random
			if k%3 > 0 {
				c = 0
			}
		}
		if style == 1 {
			c -= r.N(3)
		}
		sc.Choices = append(sc.Choices, c)
	}
	return sc
}

// share lets later calls use the same argument values as earlier ones.
func share(r *wire.Rand, b *Batch, sc *Scenario) {
	for i, t := range sc.Tasks {
		params := b.Programs[t.Prog].Funcs[0].Params
		for k := range t.Args {
			t.Share = append(t.Share, -1)
			if i == 0 {
				continue
			}
			for try := 0; try < 4; try++ {
				j := r.N(i)
				o := sc.Tasks[j]
				m := r.N(len(o.Args))
				if b.Programs[o.Prog].Funcs[0].Params[m].T == params[k].T {
					t.Share[k] = j*10 + m
					t.Args[k] = o.Args[m]
					t.Hold = true
					break
				}
			}
		}
	}
}

var props = []*Prop{
	{
		ID: "C11", Langs: langs, Profile: full, Batches: 1, ThoroughBatches: 6, PerBatch: 72, Scenarios: 100,
		Gen: func(r *wire.Rand, b *Batch, p int) *Scenario { return basic(r, b, p, 3) },
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if v := finished(sc, h); v != nil {
				return v
			}
			return judgeValues(b, sc, x, h)
		},
		Rule: "a run is the execution of one scenario (calls, arguments, completion choices) by one language; runs are distinct when program, language or order of starts and completions differ, and non-trivial when at least two leaf calls were made",
	},
	{
		ID: "C12", Langs: langs, Profile: full, Batches: 1, ThoroughBatches: 6, PerBatch: 72, Scenarios: 100,
		Gen: func(r *wire.Rand, b *Batch, p int) *Scenario { return basic(r, b, p, 3) },
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if v := judgeCalls(sc, x, h); v != nil {
				return v
			}
			if v := finished(sc, h); v != nil {
				return v
			}
			for i := range sc.Tasks {
				if r := h.Results[i][0]; r.Failed {
					return viol("failed", "call %d fails although nothing it called failed: %s", i, r.Msgs[0])
				}
			}
			return nil
		},
		Rule: "a run is the execution of one scenario by one language; runs are distinct when program, language or order of starts and completions differ, and non-trivial when at least two leaf calls were made",
	},
	{
		ID: "C13", Langs: langs, Profile: msgs, Batches: 1, ThoroughBatches: 6, PerBatch: 72, Scenarios: 100,
		Gen: func(r *wire.Rand, b *Batch, p int) *Scenario {
			sc := basic(r, b, p, 2)
			mode := 1
			if r.Chance(1, 4) {
				mode = 2
			}
			addFails(r, b, sc, mode)
			return sc
		},
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if v := finished(sc, h); v != nil {
				return v
			}
			return judgeFailures(sc, x, h)
		},
		Rule: "a run is the execution of one scenario with failing leaf calls by one language; runs are distinct when program, language, failures or order of starts and completions differ, and non-trivial when at least two leaf calls were made and at least one failed",
	},
	{
		ID: "C14", Langs: []string{"cpp"}, Profile: memory, Batches: 1, ThoroughBatches: 6, PerBatch: 80, Scenarios: 120,
		Gen: func(r *wire.Rand, b *Batch, p int) *Scenario {
			sc := basic(r, b, p, 3)
			if r.Chance(1, 4) {
				share(r, b, sc)
			}
			for _, t := range sc.Tasks {
				t.Drop = r.Chance(1, 6)
			}
			if r.Chance(1, 4) {
				addFails(r, b, sc, 1)
			}
			return sc
		},
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if h.Refs != 0 {
				return viol("not released", "%d values are still alive after every result was released", h.Refs)
			}
			if h.Live != 0 {
				return viol("leak", "%d blocks of memory are left over in every repetition", h.Live)
			}
			return nil
		},
		Rule: "a run is the execution of one scenario, up to three times in one process; runs are distinct when program, failures or order of starts, completions and abandoned results differ, and non-trivial when at least two leaf calls were made",
	},
	{
		ID: "C15", Langs: langs, Profile: full, Batches: 1, ThoroughBatches: 6, PerBatch: 72, Scenarios: 100,
		Gen: func(r *wire.Rand, b *Batch, p int) *Scenario {
			sc := basic(r, b, p, 3)
			for len(sc.Tasks) < 2 {
				t := *sc.Tasks[0]
				t.Args = append([]*Val(nil), t.Args...)
				sc.Tasks = append(sc.Tasks, &t)
			}
			share(r, b, sc)
			for _, t := range sc.Tasks {
				t.Hold = true
			}
			return sc
		},
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if len(h.Changed) > 0 {
				c := h.Changed[0]
				if i := indexArrow(c); i > 0 {
					c = prettyText(c[:i]) + " became " + prettyText(c[i+4:])
				}
				return viol("changed", "a value that a caller or a pending call holds was changed: %s", c)
			}
			if v := finished(sc, h); v != nil {
				return v
			}
			return judgeValues(b, sc, x, h)
		},
		Rule: "a run is the execution of one scenario of calls sharing their arguments by one language; runs are distinct when program, language or order of starts and completions differ, and non-trivial when at least two leaf calls were made",
	},
	{
		ID: "C16", Langs: langs, Kit: testKit, Batches: 1, ThoroughBatches: 5, PerBatch: 7, Scenarios: 700,
		Gen: func(r *wire.Rand, b *Batch, p int) *Scenario {
			sc := basic(r, b, p, 2)
			next := 0
			for _, t := range sc.Tasks {
				t.Args = []*Val{testValue(r, b.Programs[t.Prog].Funcs[0].T, &next)}
			}
			if r.Chance(1, 8) {
				addFails(r, b, sc, 2)
			}
			return sc
		},
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if v := judgeCalls(sc, x, h); v != nil {
				return v
			}
			if v := finished(sc, h); v != nil {
				return v
			}
			for i := range sc.Tasks {
				r := h.Results[i][0]
				if x.Hard[i] > 0 {
					// a test that crashes may end the run, but not pass
					if r.Failed {
						continue
					}
					got, err := parseVal(&toks{t: strings.Fields(r.Val)})
					if err != nil {
						return viol("wrong result", "call %d delivers %s", i, r.Val)
					}
					if g, w := verdicts(got), verdicts(x.Vals[i]); g.text() != w.text() {
						return viol("wrong verdict", "run %d reports %s, should be %s", i, g.pretty(), w.pretty())
					}
					continue
				}
				if r.Failed {
					return viol("failed", "run %d fails although no test failed to deliver: %s", i, r.Msgs[0])
				}
				if r.Val != x.Vals[i].text() {
					return viol("wrong verdict", "run %d reports %s, should be %s", i, prettyText(r.Val), x.Vals[i].pretty())
				}
			}
			return nil
		},
		Rule: "a run is the resolution of one or two trees of tests by one language; runs are distinct when level, language, failures or order of starts and completions differ, and non-trivial when at least two tests have pending results",
	},
	{
		ID: "C17", Langs: []string{"java", "cpp"}, Kit: fileKit(0), Batches: 1, ThoroughBatches: 6, PerBatch: 60, Scenarios: 150,
		Gen: func(r *wire.Rand, b *Batch, p int) *Scenario { return fileScenario(r, b, p, false) },
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if v := judgeFiles(sc, h); v != nil {
				return v
			}
			if v := judgeReports(x, h); v != nil {
				return v
			}
			return finished(sc, h)
		},
		Count: func(h *Hist) bool {
			for _, p := range h.Reports {
				if len(p.Faults) > 0 {
					return true
				}
			}
			return false
		},
		Rule: "a run is the execution of one scenario by one language on a simulated disk; runs are distinct when program, language, order of operations or the faults they meet differ, and non-trivial when at least one operation meets a disk fault",
	},
	{
		ID: "C18", Langs: langs, Kit: stateKit, Batches: 1, ThoroughBatches: 6, PerBatch: 72, Scenarios: 100,
		Gen: func(r *wire.Rand, b *Batch, p int) *Scenario { return basic(r, b, p, 5) },
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if v := judgeState(sc, x, h); v != nil {
				return v
			}
			return finished(sc, h)
		},
		Count: func(h *Hist) bool {
			// some name is read after it was written
			wrote := map[string]bool{}
			for _, n := range h.Notes {
				if n.What == "w" {
					wrote[n.Name] = true
				} else if n.What == "r" && wrote[n.Name] {
					return true
				}
			}
			return false
		},
		Rule: "a run is the execution of one scenario by one language; runs are distinct when program, language or order of starts, completions and operations differ, and non-trivial when some name is read after it was written",
	},
	{
		ID: "C19", Langs: langs, Kit: fileKit(4), Batches: 1, ThoroughBatches: 6, PerBatch: 60, Scenarios: 120,
		Gen: func(r *wire.Rand, b *Batch, p int) *Scenario { return fileScenario(r, b, p, true) },
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if v := judgePermissions(sc, h); v != nil {
				return v
			}
			if v := judgeReports(x, h); v != nil {
				return v
			}
			return finished(sc, h)
		},
		Count: func(h *Hist) bool {
			who := map[string]bool{}
			denied := false
			for _, p := range h.Reports {
				who[p.Who] = true
				denied = denied || len(p.Result.Msgs) > 0
			}
			return denied && len(who) > 1
		},
		Rule: "a run is the execution of one scenario by one language, each call with a user of its own; runs are distinct when program, language or order of operations differ, and non-trivial when at least two users act and some operation is refused",
	},
	{
		ID: "C24", Langs: []string{"js"}, Kit: uiKit, Batches: 1, ThoroughBatches: 12, PerBatch: 90, Scenarios: 200,
		Gen: uiScenario,
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			if v := judgePage(h); v != nil {
				return v
			}
			return judgeDone(b, sc, x, h)
		},
		Count: func(h *Hist) bool { return changes(h) >= 2 },
		Rule:  "a run is the execution of one scenario of up to five overlapping programs on one page; runs are distinct when programs or order of starts, completions and page events differ, and non-trivial when at least two operations changed an element that was there",
	},
	{
		ID: "C25", Langs: []string{"js"}, Kit: uiKit, Batches: 1, ThoroughBatches: 12, PerBatch: 90, Scenarios: 200,
		Gen: uiScenario,
		Judge: func(b *Batch, sc *Scenario, x *Expect, lang string, h *Hist) *Violation {
			return judgeEvents(sc, h)
		},
		Count: func(h *Hist) bool {
			for i, g := range h.Pages {
				if g.What == "on" {
					return changes(&Hist{Pages: h.Pages[:i]}) >= 1
				}
			}
			return false
		},
		Rule: "a run is the execution of one scenario of up to five overlapping programs on one page; runs are distinct when programs or order of starts, completions and page events differ, and non-trivial when a handler ran after an element of the page was changed",
	},
}

// changes counts operations that changed an element.
func changes(h *Hist) int {
	n := 0
	for _, g := range h.Pages {
		switch g.What {
		case "start", "fire", "fired", "on", "done", "end", "error", "none":
		default:
			n++
		}
	}
	return n
}

func indexArrow(s string) int {
	for i := 0; i+4 <= len(s); i++ {
		if s[i:i+4] == " => " {
			return i
		}
	}
	return -1
}

// addFails picks leaf calls to fail among those the scenario makes.
func addFails(r *wire.Rand, b *Batch, sc *Scenario, mode int) {
	x, err := expect(b, sc)
	if err != nil || len(x.Calls) == 0 {
		return
	}
	n := 1 + r.N(3)
	all := r.Chance(1, 3)
	if all {
		n = 12
	}
	have := map[int]bool{}
	for ; n > 0; n-- {
		c := x.Calls[r.N(len(x.Calls))]
		var id int
		at := 0
		for at < len(c) && c[at] != ' ' {
			id = id*10 + int(c[at]-'0')
			at++
		}
		f := Fail{ID: id, Mode: mode}
		if !all && r.Chance(1, 2) {
			f.Arg = c[at+1:]
		}
		if !have[id] {
			have[id] = true
			sc.Fails = append(sc.Fails, f)
		}
	}
}
