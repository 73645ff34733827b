package main

import (
	"fmt"
	"sort"

	"gosim/wire"
)

// ---- test runner

var testLevels = []string{"testresult", "testdescribe", "testdescribelist", "testcase", "testcaselist", "testpackage", "testpackagelist"}

var testKit = &Kit{
	Libs: []string{"vx/test"},
	Types: map[string]string{
		"testresult": "vx_test::t_testresult", "testdescribe": "vx_test::t_testdescribe", "testdescribelist": "vx_test::t_testdescribelist",
		"testcase": "vx_test::t_testcase", "testcaselist": "vx_test::t_testcaselist",
		"testpackage": "vx_test::t_testpackage", "testpackagelist": "vx_test::t_testpackagelist",
	},
	Space: "vx_test",
	Source: func(ps []*Program, lang string) string {
		return `(package sim/prog
 :libs (lib javafuture)
 :doc "simulated programs")

` + leafString + noteFunc
	},
	Make: func(r *wire.Rand, name string, chain bool) *Program {
		var n int
		fmt.Sscanf(name, "p%d", &n)
		t := testLevels[n%len(testLevels)]
		return &Program{Funcs: []*Func{{Name: "resolve_" + t, T: t, Async: true, Params: []Param{{"a", t}}}}}
	},
	Text: (*Program).testText,
	Expect: func(b *Batch, sc *Scenario) *Expect {
		x := &Expect{}
		for _, t := range sc.Tasks {
			in := &Interp{p: b.Programs[t.Prog], fails: sc.Fails}
			x.Vals = append(x.Vals, in.resolve(t.Args[0]))
			x.Calls = append(x.Calls, in.calls...)
			x.Hard = append(x.Hard, in.hard)
		}
		x.Leaves = len(x.Calls)
		sort.Strings(x.Calls)
		return x
	},
}

func (p *Program) testText() string { return "(resolve-" + p.Funcs[0].T + " a)\n" }

// testValue makes a tree of tests. Each test that has a call gets the next
// call number.
func testValue(r *wire.Rand, t string, next *int) *Val {
	v := &Val{T: t, M: map[string]*Val{}}
	size := func() int {
		if r.Chance(1, 12) {
			return 0
		}
		return 1 + r.N(4)
	}
	switch t {
	case "testresult":
		v.M["code"] = str(":eq")
		arg := value(r, []string{"string", "string", "int", "stringlist"}[r.N(4)], 2)
		if r.Chance(1, 8) {
			// already decided
			v.M["expected"], v.M["actual"] = arg, arg
			v.M["passfail"] = boolean(r.Chance(1, 2))
			return v
		}
		*next++
		v.M["fn-actual"] = &Val{T: "call", N: *next, L: []*Val{arg}}
		right := tag(*next, arg)
		v.M["expected"] = right
		if r.Chance(1, 4) {
			switch r.N(3) {
			case 0:
				v.M["expected"] = arg // what was given
			case 1:
				v.M["expected"] = value(r, arg.T, 2)
			case 2:
				v.M["expected"] = tag(*next+1, arg) // what a neighbour delivers
			}
		}
		if r.Chance(1, 6) {
			v.M["passfail"] = boolean(true) // left over from before
		}
	case "testdescribe":
		v.M["describename"] = str(fmt.Sprintf("d%d", r.N(5)))
		v.M["testresult"] = testValue(r, "testresult", next)
	case "testcase":
		v.M["casename"] = str(fmt.Sprintf("c%d", r.N(5)))
		v.M["describelist"] = testValue(r, "testdescribelist", next)
		v.M["passfail"] = boolean(r.Chance(1, 4))
	case "testpackage":
		v.M["testpkg"] = str(fmt.Sprintf("p%d", r.N(5)))
		v.M["caselist"] = testValue(r, "testcaselist", next)
		v.M["passfail"] = boolean(r.Chance(1, 4))
	default:
		v.M = nil
		for n := size(); n > 0; n-- {
			v.L = append(v.L, testValue(r, t[:len(t)-4], next))
		}
	}
	return v
}

// resolve is what the runner must make of a tree of tests.
func (in *Interp) resolve(v *Val) *Val {
	c := v.copy()
	c.L, c.M = nil, map[string]*Val{}
	for k, x := range v.M {
		c.M[k] = x
	}
	for _, x := range v.L {
		c.L = append(c.L, in.resolve(x))
	}
	pass := func(l *Val) *Val {
		all := true
		for _, x := range l.L {
			if r := x.M["testresult"]; r != nil {
				x = r
			}
			p := x.M["passfail"]
			all = all && p != nil && p.N == 1
		}
		return boolean(all)
	}
	switch v.T {
	case "testresult":
		f := v.M["fn-actual"]
		if f == nil {
			break
		}
		delete(c.M, "fn-actual")
		hard := in.hard
		got := in.leaf(f.N, f.L[0])
		c.M["actual"] = got
		c.M["passfail"] = boolean(in.hard == hard && got.text() == v.M["expected"].text())
	case "testdescribe":
		c.M["testresult"] = in.resolve(v.M["testresult"])
	case "testcase":
		c.M["describelist"] = in.resolve(v.M["describelist"])
		c.M["passfail"] = pass(c.M["describelist"])
	case "testpackage":
		c.M["caselist"] = in.resolve(v.M["caselist"])
		c.M["passfail"] = pass(c.M["caselist"])
	}
	return c
}

// verdicts leaves only what passed and what did not.
func verdicts(v *Val) *Val {
	c := v.copy()
	c.L, c.M = nil, map[string]*Val{}
	for k, x := range v.M {
		if k != "actual" {
			c.M[k] = verdicts(x)
		}
	}
	for _, x := range v.L {
		c.L = append(c.L, verdicts(x))
	}
	return c
}
