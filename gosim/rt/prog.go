package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Expr is an expression of the generated language.
type Expr struct {
	Op   string  `json:"op"`
	T    string  `json:"t"`
	S    string  `json:"s,omitempty"`
	N    int     `json:"n,omitempty"`
	Args []*Expr `json:"args,omitempty"`
	Bind []*Bind `json:"bind,omitempty"`
	// a call whose last arguments make a list
	Multi bool `json:"multi,omitempty"`
}

type Bind struct {
	Name  string `json:"name"`
	T     string `json:"t"`
	E     *Expr  `json:"e"`
	Async bool   `json:"async,omitempty"`
}

type Param struct {
	Name string `json:"name"`
	T    string `json:"t"`
}

type Func struct {
	Name   string  `json:"name"`
	T      string  `json:"t"`
	Params []Param `json:"params"`
	Body   *Expr   `json:"body"`
	Async  bool    `json:"async"`
	Multi  bool    `json:"multi,omitempty"` // the last parameter takes any number
	// takes the context the driver provides
	Context  bool `json:"context,omitempty"`
	Messages bool `json:"messages,omitempty"`
}

// Program is a group of functions; the first is the entry.
type Program struct {
	Funcs []*Func `json:"funcs"`
	// calls that use the result of other calls: only JavaScript accepts them
	Chain bool `json:"chain,omitempty"`
	// what a program of a kit does
	Ops []Op `json:"ops,omitempty"`
}

func (p *Program) in(lang string) bool { return !p.Chain || lang == "js" }

func (p *Program) fn(name string) *Func {
	for _, f := range p.Funcs {
		if f.Name == name {
			return f
		}
	}
	return nil
}

func (e *Expr) text() string {
	a := func(i int) string { return e.Args[i].text() }
	rest := func(from int) string {
		s := ""
		for _, x := range e.Args[from:] {
			s += " " + x.text()
		}
		return s
	}
	switch e.Op {
	case "str":
		return strconv.Quote(e.S)
	case "int":
		return strconv.Itoa(e.N)
	case "bool":
		return strconv.FormatBool(e.N == 1)
	case "var", "const":
		return e.S
	case "string":
		return "(string" + rest(0) + ")"
	case "+", "-", "*", "=":
		return "(" + e.Op + rest(0) + ")"
	case "length":
		return "(length" + rest(0) + ")"
	case "field":
		return "(:" + e.S + rest(0) + ")"
	case "index":
		return "(any<-list : " + e.T + " " + a(0) + " " + strconv.Itoa(e.N) + ")"
	case "mapget":
		return "(any<-map : " + e.T + " " + a(0) + " " + strconv.Quote(e.S) + ")"
	case "new":
		s := "(" + e.T
		keys := strings.Fields(e.S)
		for i, x := range e.Args {
			if kind(e.T) == 'R' {
				s += " :" + keys[i]
			} else if kind(e.T) == 'M' {
				s += " " + strconv.Quote(keys[i])
			}
			s += " " + x.text()
		}
		return s + ")"
	case "copy":
		s := "(copy " + a(0)
		keys := strings.Fields(e.S)
		for i, x := range e.Args[1:] {
			if kind(e.T) == 'R' {
				s += " :" + keys[i]
			} else if kind(e.T) == 'M' {
				s += " " + strconv.Quote(keys[i])
			}
			s += " " + x.text()
		}
		return s + ")"
	case "note":
		s := "(copy " + a(0)
		for _, n := range strings.Fields(e.S) {
			s += " (msg<-error " + strconv.Quote(n) + ")"
		}
		return s + ")"
	case "maplist":
		// S is the parameter, Bind[0] its type, Args[1] the body
		return fmt.Sprintf("(list<-list : %s %s (fn : %s [%s : %s] %s))", e.T, a(0), e.Args[1].T, e.S, e.Bind[0].T, a(1))
	case "mapmap":
		// Bind are key and value, Args[1] the body
		return fmt.Sprintf("(map<-map : %s %s (fn : %s [%s : %s %s : %s] %s))", e.T, a(0), e.Args[1].T, e.Bind[0].Name, e.Bind[0].T, e.Bind[1].Name, e.Bind[1].T, a(1))
	case "reduce":
		return fmt.Sprintf("(any<-list-start-reduce : %s %s %s (fn : %s [%s : %s %s : %s] %s))", e.T, a(0), a(1), e.T, e.Bind[0].Name, e.Bind[0].T, e.Bind[1].Name, e.Bind[1].T, a(2))
	case "if":
		return fmt.Sprintf("(if : %s (then %s %s) (else %s))", e.T, a(0), a(1), a(2))
	case "switch":
		// Args: subject, (case value)*, else
		s := "(switch : " + e.T + " " + a(0)
		for i := 1; i+1 < len(e.Args); i += 2 {
			s += " (case " + a(i) + " " + a(i+1) + ")"
		}
		return s + " (else " + e.Args[len(e.Args)-1].text() + "))"
	case "call":
		return "(" + e.S + rest(0) + ")"
	case "leaf":
		return fmt.Sprintf("(%s %d %s)", leafOf(e.T), e.N, a(0))
	case "amap":
		return fmt.Sprintf("(list<-list-async : %s %s %s)", e.T, a(0), e.S)
	case "let":
		s := "(let : " + e.T + "\n  ["
		for i, b := range e.Bind {
			if i > 0 {
				s += "\n   "
			}
			s += b.Name + " : " + b.T + " := " + b.E.text()
		}
		return s + "]\n  " + a(0) + ")"
	}
	panic("expression " + e.Op)
}

var leafTypes = []string{"string", "int", "stringlist", "rec", "reclist", "recmap", "stringmap", "box"}

func leafOf(t string) string { return "leaf" + t }

func (f *Func) text() string {
	s := "(func " + f.Name + " : " + f.T + "\n ["
	for i, p := range f.Params {
		if i > 0 {
			s += "\n  "
		}
		s += p.Name + " : " + p.T
		if f.Multi && i == len(f.Params)-1 {
			s += " :..."
		}
	}
	s += "]\n " + f.Body.text()
	if f.Async {
		s += "\n :async"
	}
	if f.Context {
		s += "\n :context"
	}
	if f.Messages {
		s += "\n :messages"
	}
	return s + "\n :doc \"p\")\n\n"
}

const preamble = `(package sim/prog
 :libs (lib javafuture)
 :doc "simulated programs")

(type rec : struct
 :properties
  [a : string
   n : int
   l : stringlist]
 :doc "r")

(type reclist : list
 :allowtypes [rec]
 :doc "r")

(type recmap : map
 :allowtypes [rec]
 :doc "r")

(type box : struct
 :properties
  [a : string
   b : boolean
   r : rec
   m : stringmap
   rs : reclist]
 :doc "r")

(const conrec : rec
 (rec
  :a "con"
  :n 4
  :l (stringlist "c1" "c2"))
 :doc "c")

(const constringlist : stringlist
 (stringlist "c3" "c4")
 :doc "c")

`

func cppType(t string) string {
	if c := theKit.cpp(t); c != "" {
		return c
	}
	if strings.HasPrefix(t, "rec") || t == "box" {
		return "sim_prog::t_" + t
	}
	return "vx_core::t_" + t
}

func source(ps []*Program, lang string) string {
	if theKit != nil {
		return theKit.Source(ps, lang)
	}
	s := preamble
	for _, t := range leafTypes {
		s += fmt.Sprintf(`(func %s : %s
 [id : int
  value : %s]
 (native
  :cpp "sim_prog::sim_leaf(%s, id, value);"
  :java "sim.Leaf.leaf(id, value);"
  :js "await globalThis.simleaf(id, value)")
 :async
 :doc "leaf")

`, leafOf(t), t, t, cppType(t))
	}
	for _, p := range ps {
		if !p.in(lang) {
			continue
		}
		// callees first
		for i := len(p.Funcs) - 1; i >= 0; i-- {
			s += p.Funcs[i].text()
		}
	}
	return s
}

const progCpp = `// :headerfirst
// :headertype
// :headerfunc
// :header
  vx_core::vx_Type_async sim_leaf(vx_core::Type_any type, vx_core::Type_int id, vx_core::Type_any value);
  vx_core::Type_boolean sim_note(vx_core::Type_string what, vx_core::Type_boolean ok, vx_core::Type_string name, vx_core::Type_any value);
  vx_core::Type_boolean sim_report(vx_core::Type_string who, vx_core::Type_string what, vx_core::Type_string name, vx_core::Type_string text, vx_core::Type_any value);
// :body
`

const driverHpp = `#pragma once
#include <string>
#include <vector>
vx_core::Type_any sim_type(const std::string& n);
vx_core::vx_Type_async sim_call(const std::string& fn, vx_core::Type_context context, std::vector<vx_core::Type_any>& a);
vx_core::Type_context sim_context(const std::vector<std::string>& allow);
vx_core::Type_any sim_tag(vx_core::Type_any v, const std::string& tag);
void sim_init();
`

func dispatchCpp(ps []*Program) string {
	s := `#include "sim/prog.hpp"
#include "vx/core.hpp"
#include "sim_driver.hpp"
vx_core::Type_any sim_type(const std::string& n) {
`
	for _, lib := range theKit.libs() {
		s = "#include \"" + lib + ".hpp\"\n" + s
	}
	for _, t := range theKit.types() {
		s += fmt.Sprintf("  if (n == %q) return %s;\n", t, cppType(t))
	}
	s += `  return 0;
}
#define A(i, t) vx_core::vx_any_from_any(t, a[i])
vx_core::vx_Type_async sim_call(const std::string& fn, vx_core::Type_context context, std::vector<vx_core::Type_any>& a) {
`
	for _, p := range ps {
		if !p.in("cpp") {
			continue
		}
		f := p.Funcs[0]
		s += fmt.Sprintf("  if (fn == %q) return %s::f_%s(", f.Name, theKit.space(), f.Name)
		if f.Context {
			s += "context"
		}
		for i, q := range f.Params {
			if i > 0 || f.Context {
				s += ", "
			}
			s += fmt.Sprintf("A(%d, %s)", i, cppType(q.T))
		}
		s += ");\n"
	}
	s += `  return 0;
}
vx_core::Type_any sim_tag(vx_core::Type_any v, const std::string& tag) {
` + theKit.rec() + `  if (dynamic_cast<vx_core::Abstract_stringlist*>(v)) return v->vx_copy(v, {vx_core::vx_new_string(tag)});
  return 0;
}
` + theKit.context() + `void sim_init() {}
`
	return s
}

const recCpp = `  if (dynamic_cast<sim_prog::Abstract_rec*>(v)) return v->vx_copy(v, {vx_core::vx_new_string(":a"), vx_core::vx_new_string(dynamic_cast<sim_prog::Abstract_rec*>(v)->a()->vx_string() + tag)});
`
