package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Fail makes a leaf call fail: mode 1 delivers an error message with the
// value, mode 2 fails outright. An empty Arg matches every argument.
type Fail struct {
	ID   int    `json:"id"`
	Mode int    `json:"mode"`
	Arg  string `json:"arg,omitempty"`
}

// Interp is the reference: it runs a program with every asynchronous call
// returning at once.
type Interp struct {
	p     *Program
	fails []Fail
	calls []string // leaf calls as "id value"
	hard  int      // outright failures met
	steps int
}

var constants = map[string]*Val{
	"conrec":        {T: "rec", M: map[string]*Val{"a": str("con"), "n": num(4), "l": list("stringlist", str("c1"), str("c2"))}},
	"constringlist": list("stringlist", str("c3"), str("c4")),
}

var errTooBig = fmt.Errorf("too many steps")

type env map[string]*Val

func (in *Interp) call(name string, args []*Val) *Val {
	f := in.p.fn(name)
	e := env{}
	for i, p := range f.Params {
		e[p.Name] = args[i]
	}
	return in.eval(f.Body, e)
}

func (in *Interp) eval(x *Expr, e env) *Val {
	in.steps++
	if in.steps > 20000 {
		panic(errTooBig)
	}
	args := func(from int) []*Val {
		var out []*Val
		for _, a := range x.Args[from:] {
			out = append(out, in.eval(a, e))
		}
		return out
	}
	switch x.Op {
	case "str":
		return str(x.S)
	case "int":
		return num(x.N)
	case "bool":
		return boolean(x.N == 1)
	case "const":
		return constants[x.S]
	case "var":
		return e[x.S]
	case "string":
		out := str("")
		for _, a := range args(0) {
			switch kind(a.T) {
			case 's':
				out.S += a.S
			case 'i':
				out.S += strconv.Itoa(a.N)
			}
			out.addMsgs(a)
		}
		return out
	case "+", "-", "*":
		a := args(0)
		n := 0
		switch x.Op {
		case "+":
			n = a[0].N + a[1].N
		case "-":
			n = a[0].N - a[1].N
		case "*":
			n = a[0].N * a[1].N
		}
		return fits(num(n))
	case "=":
		a := args(0)
		return boolean(a[0].text() == a[1].text())
	case "length":
		return num(len(in.eval(x.Args[0], e).L))
	case "field":
		r := in.eval(x.Args[0], e)
		if v := r.M[x.S]; v != nil {
			return v
		}
		return &Val{T: x.T}
	case "index":
		l := in.eval(x.Args[0], e)
		if x.N <= len(l.L) {
			return l.L[x.N-1]
		}
		return &Val{T: x.T}
	case "mapget":
		m := in.eval(x.Args[0], e)
		if v := m.M[x.S]; v != nil {
			return v
		}
		return &Val{T: x.T}
	case "new":
		v := &Val{T: x.T}
		return in.fill(v, x.S, args(0))
	case "copy":
		a := args(0)
		v := a[0].copy()
		v.L = append([]*Val{}, a[0].L...)
		v.M = map[string]*Val{}
		for k, y := range a[0].M {
			v.M[k] = y
		}
		return in.fill(v, x.S, a[1:])
	case "note":
		v := in.eval(x.Args[0], e).copy()
		for _, n := range strings.Fields(x.S) {
			v.msg(n)
		}
		return v
	case "maplist":
		l := in.eval(x.Args[0], e)
		out := &Val{T: x.T}
		for _, y := range l.L {
			e2 := env{}
			for k, v := range e {
				e2[k] = v
			}
			e2[x.S] = y
			out.L = append(out.L, in.eval(x.Args[1], e2))
		}
		return out
	case "mapmap":
		m := in.eval(x.Args[0], e)
		out := &Val{T: x.T, M: map[string]*Val{}}
		for key, y := range m.M {
			e2 := env{}
			for k, v := range e {
				e2[k] = v
			}
			e2[x.Bind[0].Name] = str(key)
			e2[x.Bind[1].Name] = y
			out.M[key] = in.eval(x.Args[1], e2)
		}
		return out
	case "reduce":
		l := in.eval(x.Args[0], e)
		acc := in.eval(x.Args[1], e)
		for _, y := range l.L {
			e2 := env{}
			for k, v := range e {
				e2[k] = v
			}
			e2[x.Bind[0].Name] = acc
			e2[x.Bind[1].Name] = y
			acc = in.eval(x.Args[2], e2)
		}
		return acc
	case "if":
		if in.eval(x.Args[0], e).N == 1 {
			return in.eval(x.Args[1], e)
		}
		return in.eval(x.Args[2], e)
	case "switch":
		s := in.eval(x.Args[0], e).text()
		for i := 1; i+1 < len(x.Args); i += 2 {
			if in.eval(x.Args[i], e).text() == s {
				return in.eval(x.Args[i+1], e)
			}
		}
		return in.eval(x.Args[len(x.Args)-1], e)
	case "call":
		a := args(0)
		if x.Multi {
			ps := in.p.fn(x.S).Params
			n := len(ps) - 1
			l := &Val{T: ps[n].T}
			l.L = append(l.L, a[n:]...)
			a = append(a[:n:n], l)
		}
		return in.call(x.S, a)
	case "leaf":
		return in.leaf(x.N, in.eval(x.Args[0], e))
	case "amap":
		l := in.eval(x.Args[0], e)
		out := &Val{T: x.T}
		for _, y := range l.L {
			out.L = append(out.L, in.call(x.S, []*Val{y}))
		}
		return out
	case "let":
		e2 := env{}
		for k, v := range e {
			e2[k] = v
		}
		for _, b := range x.Bind {
			e2[b.Name] = in.eval(b.E, e2)
		}
		return in.eval(x.Args[0], e2)
	}
	panic("expression " + x.Op)
}

// fill adds values to a container the way construction and copying do: a list
// of the same type is appended item by item.
func (in *Interp) fill(v *Val, keys string, args []*Val) *Val {
	ks := strings.Fields(keys)
	for i, a := range args {
		switch kind(v.T) {
		case 'L':
			if a.T == v.T {
				v.L = append(v.L, a.L...)
			} else {
				v.L = append(v.L, a)
			}
		default:
			if v.M == nil {
				v.M = map[string]*Val{}
			}
			v.M[ks[i]] = a
		}
	}
	return v
}

func (in *Interp) leaf(id int, a *Val) *Val {
	in.calls = append(in.calls, fmt.Sprintf("%d %s", id, a.text()))
	out := tag(id, a)
	for _, f := range in.fails {
		if f.ID == id && (f.Arg == "" || f.Arg == a.text()) {
			if f.Mode == 2 {
				in.hard++
			}
			out = out.copy()
			out.msg(fmt.Sprintf("leaf%d:%s", id, a.text()))
			break
		}
	}
	return out
}

// fits gives up on numbers that the languages represent differently.
func fits(v *Val) *Val {
	if v.N > 1<<30 || v.N < -1<<30 {
		panic(errTooBig)
	}
	return v
}

// tag is what a leaf call delivers for its argument.
func tag(id int, a *Val) *Val {
	t := fmt.Sprintf("#%d", id)
	out := a.copy()
	switch a.T {
	case "string":
		out.S += t
	case "int":
		out.N = out.N*3 + id
		fits(out)
	case "stringlist":
		out.L = append(append([]*Val{}, a.L...), str(t))
	case "rec":
		out.M = map[string]*Val{}
		for k, v := range a.M {
			out.M[k] = v
		}
		s := ""
		if v := a.M["a"]; v != nil {
			s = v.S
		}
		out.M["a"] = str(s + t)
	}
	return out
}
