package main

import (
	"fmt"
	"sort"
	"strings"
)

// Hist is a parsed history of one run.
type Hist struct {
	Raw       string
	Starts    []string // "id value" in canonical form
	startOf   map[string]string
	Completes map[string]int
	Results   map[int][]Result
	Dropped   int
	Changed   []string
	Unhandled []string
	Notes     []Note
	Reports   []Report
	Pages     []Page
	Refs      int
	Live      int
	Steps     int
	Order     string // kinds and numbers of the events
}

type Result struct {
	Failed bool
	Msgs   []string // of the value and what it contains
	Top    []string // of the value itself
	Val    string
}

func parseHist(raw string) (*Hist, error) {
	h := &Hist{Raw: raw, Completes: map[string]int{}, Results: map[int][]Result{}, startOf: map[string]string{}}
	ended := false
	for _, e := range strings.Split(raw, ";") {
		f := strings.Fields(e)
		if len(f) == 0 {
			continue
		}
		t := &toks{t: f[1:]}
		switch f[0] {
		case "T":
			h.Order += "T" + f[1]
		case "S":
			k := t.next()
			id := t.next()
			v := id + " " + canon(strings.Join(t.t[t.at:], " "))
			h.Starts = append(h.Starts, v)
			h.startOf[k] = v
			h.Order += "S" + id
		case "A":
			h.Order += "A" + f[1]
			h.Dropped++
		case "C":
			h.Completes[t.next()]++
			h.Order += "C" + f[1]
		case "D":
			i := t.num()
			h.Results[i] = append(h.Results[i], parseResult(t))
			h.Order += "D" + f[1]
		case "F":
			i := t.num()
			h.Results[i] = append(h.Results[i], Result{Failed: true, Msgs: []string{unhex(strings.TrimPrefix(t.next(), "m"))}})
			h.Order += "F" + f[1]
		case "N":
			n := Note{What: unhex(t.next()[1:]), OK: t.next() == "b1", Name: unhex(t.next()[1:])}
			n.Val = canon(strings.Join(t.t[t.at:], " "))
			h.Notes = append(h.Notes, n)
			h.Order += "N" + n.What + n.Name + " "
		case "P":
			p := Report{Who: unhex(t.next()[1:]), What: unhex(t.next()[1:]), Name: unhex(t.next()[1:]), Text: unhex(t.next()[1:])}
			p.Result = parseResult(t)
			p.Ran = len(h.Notes)
			h.Reports = append(h.Reports, p)
			h.Order += "P" + p.Who + p.What + p.Name + " "
		case "X":
			p := &h.Reports[len(h.Reports)-1]
			p.disk(t)
			h.Order += strings.Join(p.Faults, "")
		case "W":
			g := Page{unhex(dash(t.next())), unhex(dash(t.next())), unhex(dash(t.next())), unhex(t.next())}
			h.Pages = append(h.Pages, g)
			h.Order += "W" + g.What + g.Uid + g.Arg + " "
		case "V":
			h.Changed = append(h.Changed, strings.Join(f[1:], " "))
		case "U":
			h.Unhandled = append(h.Unhandled, unhex(strings.TrimPrefix(t.next(), "m")))
		case "E":
			h.Steps, h.Refs, h.Live = t.num(), t.num(), t.num()
			ended = true
		default:
			return nil, fmt.Errorf("event %q not understood", e)
		}
	}
	if !ended {
		return nil, fmt.Errorf("history without end: %s", clip(raw, 300))
	}
	return h, nil
}

func parseResult(t *toks) Result {
	t.next()
	n := t.num()
	r := Result{}
	for ; n > 0; n-- {
		r.Msgs = append(r.Msgs, unhex(strings.TrimPrefix(t.next(), "m")))
	}
	t.next()
	for n := t.num(); n > 0; n-- {
		r.Top = append(r.Top, unhex(strings.TrimPrefix(t.next(), "m")))
	}
	r.Val = canon(strings.Join(t.t[t.at:], " "))
	return r
}

// Expect is what the reference says about a scenario.
type Expect struct {
	Vals   []*Val
	Calls  []string
	Hard   []int
	Leaves int
	Notes  []Note
}

func expect(b *Batch, sc *Scenario) (x *Expect, err error) {
	defer func() {
		if r := recover(); r != nil {
			if r == errTooBig {
				err = errTooBig
				return
			}
			panic(r)
		}
	}()
	if theKit != nil {
		return theKit.Expect(b, sc), nil
	}
	x = &Expect{}
	for _, t := range sc.Tasks {
		p := b.Programs[t.Prog]
		in := &Interp{p: p, fails: sc.Fails}
		v := in.call(p.Funcs[0].Name, t.Args)
		x.Vals = append(x.Vals, v)
		x.Calls = append(x.Calls, in.calls...)
		x.Hard = append(x.Hard, in.hard)
	}
	x.Leaves = len(x.Calls)
	sort.Strings(x.Calls)
	return x, nil
}

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func viol(class, format string, args ...any) *Violation {
	return &Violation{class, fmt.Sprintf(format, args...)}
}

// finished: every task delivered exactly once.
func finished(sc *Scenario, h *Hist) *Violation {
	for i := range sc.Tasks {
		switch rs := h.Results[i]; {
		case len(rs) == 0:
			return viol("no result", "all started calls completed but call %d never delivers its result", i)
		case len(rs) > 1:
			return viol("result twice", "call %d delivers %d results", i, len(rs))
		}
	}
	return nil
}

func judgeValues(b *Batch, sc *Scenario, x *Expect, h *Hist) *Violation {
	for i := range sc.Tasks {
		r := h.Results[i][0]
		if r.Failed {
			return viol("failed", "call %d fails although nothing it called failed: %s", i, r.Msgs[0])
		}
		if r.Val != x.Vals[i].text() {
			return viol("wrong result", "call %d delivers %s, should be %s", i, prettyText(r.Val), x.Vals[i].pretty())
		}
	}
	return nil
}

func judgeCalls(sc *Scenario, x *Expect, h *Hist) *Violation {
	got := append([]string{}, h.Starts...)
	sort.Strings(got)
	for i, j := 0, 0; i < len(got) || j < len(x.Calls); {
		switch {
		case j == len(x.Calls) || i < len(got) && got[i] < x.Calls[j]:
			return viol("extra call", "call of %s is made once too often (%d calls, should be %d)", callText(got[i]), len(got), len(x.Calls))
		case i == len(got) || got[i] > x.Calls[j]:
			return viol("missing call", "call of %s is never made (%d calls, should be %d)", callText(x.Calls[j]), len(got), len(x.Calls))
		}
		i++
		j++
	}
	return nil
}

func callText(s string) string {
	i := strings.Index(s, " ")
	return "leaf " + s[:i] + " with " + prettyText(s[i+1:])
}

func judgeFailures(sc *Scenario, x *Expect, h *Hist) *Violation {
	for i := range sc.Tasks {
		r := h.Results[i][0]
		want := map[string]bool{}
		x.Vals[i].deep(want)
		if x.Hard[i] > 0 {
			if !r.Failed && !reported(r.Msgs) {
				return viol("swallowed failure", "call %d delivers a clean %s although a call it made failed", i, prettyText(r.Val))
			}
			continue
		}
		if r.Failed {
			return viol("failed", "call %d fails although nothing it uses failed: %s", i, r.Msgs[0])
		}
		have := strings.Join(r.Top, "\n")
		var ms []string
		for m := range want {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			found := false
			for _, g := range r.Top {
				if g == m {
					found = true
				}
			}
			if !found {
				return viol("lost message", "call %d delivers %s without the message %q of a call it used (messages: %q)", i, prettyText(r.Val), m, have)
			}
		}
	}
	return nil
}

// reported says whether there is a message other than those the program makes.
func reported(msgs []string) bool {
	for _, m := range msgs {
		if !strings.HasPrefix(m, "note") {
			return true
		}
	}
	return false
}

func dash(s string) string {
	if s == "-" {
		return ""
	}
	return s
}
