package main

import (
	"fmt"
	"sort"
	"strings"

	"gosim/wire"
)

// Kit is a property of library functions: its programs are not expressions of
// the generated language but calls of the library written out by the kit.
type Kit struct {
	Libs []string // library packages besides the core
	// C++ namespace of the functions called, if not the program's own
	Space string
	// types that arguments and results have, with their C++ names
	Types map[string]string
	// a context for each run, in C++
	Context string
	Source  func(ps []*Program, lang string) string
	Make    func(r *wire.Rand, name string, chain bool) *Program
	Expect  func(b *Batch, sc *Scenario) *Expect
	Text    func(p *Program) string
	Disk    bool // runs on a simulated disk
}

// theKit is the kit of the property being checked, if it has one.
var theKit *Kit

func (k *Kit) libs() []string {
	if k == nil {
		return nil
	}
	return k.Libs
}

func (k *Kit) space() string {
	if k == nil || k.Space == "" {
		return "sim_prog"
	}
	return k.Space
}

func (k *Kit) cpp(t string) string {
	if k == nil {
		return ""
	}
	return k.Types[t]
}

func (k *Kit) types() []string {
	if k == nil {
		return leafTypes
	}
	out := []string{"string", "int", "stringlist", "stringmap"}
	for t := range k.Types {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

func (k *Kit) rec() string {
	if k == nil {
		return recCpp
	}
	return ""
}

func (k *Kit) context() string {
	if k == nil || k.Context == "" {
		return "vx_core::Type_context sim_context(const std::vector<std::string>& allow) { return vx_core::e_context; }\n"
	}
	return "vx_core::Type_context sim_context(const std::vector<std::string>& allow) {\n" + k.Context + "}\n"
}

// Op is one step of a kit program.
type Op struct {
	Op   string   `json:"op"`
	Args []string `json:"args,omitempty"`
	N    int      `json:"n,omitempty"`
}

const leafString = `(func leafstring : string
 [id : int
  value : string]
 (native
  :cpp "sim_prog::sim_leaf(vx_core::t_string, id, value);"
  :java "sim.Leaf.leaf(id, value);"
  :js "await globalThis.simleaf(id, value)")
 :async
 :doc "leaf")

`

const noteFunc = `(func note : boolean
 [what : string
  ok : boolean
  name : string
  value : any]
 (native
  :cpp "output = sim_prog::sim_note(what, ok, name, value);"
  :java "output = sim.Leaf.note(what, ok, name, value);"
  :js "globalThis.simnote(what, ok, name, value)")
 :doc "tells the simulator")

`

// ---- program state

// The functions that each do one operation and tell the simulator about it.
const stateFuncs = `(func ws : boolean
 [name : string
  value : string]
 (let : boolean
  [ok : boolean := (state/boolean-writestate<-name-value name value)]
  (note "w" ok name value))
 :context
 :doc "write")

(func rs : boolean
 [name : string]
 (let : boolean
  [value : string := (state/any-readstate<-name : string name)]
  (note "r" true name value))
 :context
 :doc "read")

(func wl : boolean
 [name : string
  value : string]
 (let : boolean
  [list : stringlist := (stringlist value "x")
   ok : boolean := (state/boolean-writestate<-name-value name list)]
  (note "w" ok name list))
 :context
 :doc "write")

(func rl : boolean
 [name : string]
 (let : boolean
  [value : stringlist := (state/any-readstate<-name : stringlist name)]
  (note "r" true name value))
 :context
 :doc "read")

(func wm : boolean
 [map : string
  name : string
  value : string]
 (let : boolean
  [ok : boolean := (state/boolean-writestate<-mapname-name-value map name value)]
  (note "w" ok (string map "/" name) value))
 :context
 :doc "write")

(func rm : boolean
 [map : string
  name : string]
 (let : boolean
  [value : string := (state/any-readstate<-mapname-name : string map name)]
  (note "r" true (string map "/" name) value))
 :context
 :doc "read")

(func x : boolean
 [name : string]
 (let : boolean
  [ok : boolean := (state/boolean-removestate<-name name)]
  (note "x" ok name ""))
 :context
 :doc "remove")

`

// opText writes the program. What follows the last call is a function of its
// own: in Java and C++ bindings after the call cannot use what came before.
func (p *Program) opText() string {
	f := p.Funcs[0]
	head := func(name string, more ...string) string {
		s := "(func " + name + " : boolean\n ["
		for i, q := range f.Params {
			if i > 0 {
				s += "\n  "
			}
			s += q.Name + " : " + q.T
		}
		for _, m := range more {
			s += "\n  " + m + " : string"
		}
		return s + "]\n (let : boolean\n  ["
	}
	last := 0
	args := ""
	for _, q := range f.Params {
		args += " " + q.Name
	}
	var more []string
	for i, o := range p.Ops {
		if o.Op == "leaf" {
			last = i
			more = append(more, fmt.Sprintf("z%d", o.N))
			args += fmt.Sprintf(" z%d", o.N)
		}
	}
	tail := head(f.Name+"t", more...)
	s := head(f.Name)
	for i, o := range p.Ops {
		switch {
		case o.Op == "leaf":
			s += fmt.Sprintf("z%d : string := (leafstring %d %s)\n   ", o.N, o.N, o.Args[0])
		case i < last:
			s += fmt.Sprintf("b%d : boolean := (%s %s)\n   ", i, o.Op, strings.Join(o.Args, " "))
		default:
			tail += fmt.Sprintf("b%d : boolean := (%s %s)\n   ", i, o.Op, strings.Join(o.Args, " "))
		}
	}
	fix := func(s string) string { return strings.TrimRight(s, " \n") + "]" }
	return fix(tail) + "\n  true)\n :context\n :doc \"p\")\n\n" + fix(s) + "\n  (" + f.Name + "t" + args + "))\n :async\n :context\n :doc \"p\")\n\n"
}

func opsSource(head string) func(ps []*Program, lang string) string {
	return func(ps []*Program, lang string) string {
		s := head
		for _, p := range ps {
			if p.in(lang) {
				s += p.opText()
			}
		}
		return s
	}
}

// Names of state values. Plain text, lists and maps each have their own.
var (
	textNames = []string{"a", "b", "A", "ab", "a:b", "b:", "name", "value", "é", "x y"}
	listNames = []string{"l", "la", "list"}
	mapNames  = []string{"m", "ma"}
	keyNames  = []string{"a", "b", "m", "m:", "k2"}
)

var stateKit = &Kit{
	Libs: []string{"vx/state"},
	Context: `  vx_core::Type_any map = new vx_core::Class_statelistenermap();
  vx_core::Type_any state = vx_core::t_state->vx_new({vx_core::vx_new_string(":statelistenermap"), map});
  return vx_core::vx_new(vx_core::t_context, {vx_core::vx_new_string(":state"), state});
`,
	Source: opsSource(`(package sim/prog
 :libs (lib javafuture)
       (lib state :path vx/state)
 :doc "simulated programs")

` + leafString + noteFunc + stateFuncs),
	Make: func(r *wire.Rand, name string, chain bool) *Program {
		f := &Func{Name: name, T: "boolean", Async: true, Context: true}
		texts := []string{}
		for i := 0; i < 3; i++ {
			f.Params = append(f.Params, Param{fmt.Sprintf("v%d", i), "string"})
			texts = append(texts, fmt.Sprintf("v%d", i))
		}
		p := &Program{Funcs: []*Func{f}, Chain: chain}
		op := func() Op {
			n := fmt.Sprintf("%q", textNames[r.N(len(textNames))])
			if r.Chance(2, 3) { // often the same few
				n = fmt.Sprintf("%q", textNames[r.N(3)])
			}
			l := fmt.Sprintf("%q", listNames[r.N(len(listNames))])
			m := fmt.Sprintf("%q", mapNames[r.N(len(mapNames))])
			k := fmt.Sprintf("%q", keyNames[r.N(len(keyNames))])
			v := texts[r.N(len(texts))]
			switch r.N(13) {
			case 0, 1, 2:
				return Op{Op: "ws", Args: []string{n, v}}
			case 3, 4, 5:
				return Op{Op: "rs", Args: []string{n}}
			case 6:
				return Op{Op: "wl", Args: []string{l, v}}
			case 7:
				return Op{Op: "rl", Args: []string{l}}
			case 8, 9:
				return Op{Op: "wm", Args: []string{m, k, v}}
			case 10, 11:
				return Op{Op: "rm", Args: []string{m, k}}
			}
			return Op{Op: "x", Args: []string{[]string{n, l, m}[r.N(3)]}}
		}
		leaves := 1
		if chain {
			leaves = 2 + r.N(2)
		}
		for i := 0; i <= leaves; i++ {
			n := r.N(4)
			if i == leaves {
				n++
			}
			for ; n > 0; n-- {
				p.Ops = append(p.Ops, op())
			}
			if i < leaves {
				p.Ops = append(p.Ops, Op{Op: "leaf", N: i + 1, Args: []string{texts[r.N(len(texts))]}})
				texts = append(texts, fmt.Sprintf("z%d", i+1))
			}
		}
		return p
	},
	Expect: opsExpect,
	Text:   (*Program).opText,
}

// opsExpect lists the operations and the calls the programs must make.
func opsExpect(b *Batch, sc *Scenario) *Expect {
	x := &Expect{}
	for _, t := range sc.Tasks {
		p := b.Programs[t.Prog]
		e := map[string]*Val{}
		for i, q := range p.Funcs[0].Params {
			e[q.Name] = t.Args[i]
		}
		get := func(a string) string {
			if v := e[a]; v != nil {
				return v.S
			}
			return strings.Trim(a, `"`)
		}
		in := &Interp{p: p, fails: sc.Fails}
		for _, o := range p.Ops {
			if o.Op == "leaf" {
				e[fmt.Sprintf("z%d", o.N)] = in.leaf(o.N, e[o.Args[0]])
				continue
			}
			n := Note{What: o.Op[:1], Name: get(o.Args[0])}
			switch o.Op {
			case "ws":
				n.Val = str(get(o.Args[1])).text()
			case "wl":
				n.Val = list("stringlist", str(get(o.Args[1])), str("x")).text()
			case "wm":
				n.Name += "/" + get(o.Args[1])
				n.Val = str(get(o.Args[2])).text()
			case "rm":
				n.Name += "/" + get(o.Args[1])
			case "x":
				n.Val = str("").text()
			}
			x.Notes = append(x.Notes, n)
		}
		x.Calls = append(x.Calls, in.calls...)
		x.Vals = append(x.Vals, boolean(true))
		x.Hard = append(x.Hard, in.hard)
	}
	x.Leaves = len(x.Calls)
	sort.Strings(x.Calls)
	return x
}

// Note is what a program tells about an operation it did.
type Note struct {
	What, Name, Val string
	OK              bool
}

func (n Note) String() string {
	switch n.What {
	case "w":
		return fmt.Sprintf("write of %q under %q", prettyText(n.Val), n.Name)
	case "x":
		return fmt.Sprintf("removal of %q", n.Name)
	}
	return fmt.Sprintf("read of %q", n.Name)
}

// judgeState compares every read with a dictionary that does the same.
func judgeState(sc *Scenario, x *Expect, h *Hist) *Violation {
	dict := map[string]string{}
	for i, n := range h.Notes {
		switch n.What {
		case "w":
			if !n.OK {
				return viol("write refused", "operation %d, %v, reports failure", i, n)
			}
			dict[n.Name] = n.Val
		case "x":
			if _, ok := dict[n.Name]; ok && !n.OK {
				return viol("removal refused", "operation %d, %v, reports failure", i, n)
			}
			delete(dict, n.Name)
			for k := range dict {
				if strings.HasPrefix(k, n.Name+"/") {
					delete(dict, k)
				}
			}
		case "r":
			want, ok := dict[n.Name]
			if !ok {
				want = str("").text()
				if strings.HasPrefix(n.Name, "l") {
					want = list("stringlist").text()
				}
			}
			if n.Val != want {
				return viol("wrong read", "operation %d, %v, gives %s, should be %s", i, n, prettyText(n.Val), prettyText(want))
			}
		}
	}
	// everything the programs do was done
	var got, must []string
	for _, n := range h.Notes {
		if n.What == "r" {
			n.Val = ""
		}
		got = append(got, n.String())
	}
	for _, n := range x.Notes {
		must = append(must, n.String())
	}
	sort.Strings(got)
	sort.Strings(must)
	if g, m := strings.Join(got, ", "), strings.Join(must, ", "); g != m {
		return viol("operations differ", "the programs did [%s], should be [%s]", g, m)
	}
	return nil
}
