package main

import (
	"fmt"

	"gosim/wire"
)

// Profile says what programs may contain.
type Profile struct {
	Ops      map[string]bool
	LeafT    []string
	MaxFuncs int
	NoInt    bool // no asynchronous integers
}

type gen struct {
	r    *wire.Rand
	pf   *Profile
	name string
	nf   int
	leaf int
	nvar int
	note int
	sigs []*Func
	subs []*Func // without asynchronous calls
	many string  // the parameter that takes any number
	// Java rejects a function value ahead of the asynchronous call
	ahead   bool
	chained bool
}

var anyT = []string{"string", "int", "stringlist", "rec", "reclist", "stringmap", "recmap", "box"}

func (g *gen) v(prefix string) string {
	g.nvar++
	return fmt.Sprintf("%s%d", prefix, g.nvar)
}

func elemT(t string) string {
	switch t {
	case "stringlist", "stringmap":
		return "string"
	}
	return "rec"
}

type scope []Param

func (s scope) of(t string) []string {
	var out []string
	for _, p := range s {
		if p.T == t {
			out = append(out, p.Name)
		}
	}
	return out
}

func ev(p Param) *Expr { return &Expr{Op: "var", T: p.T, S: p.Name} }

func (g *gen) can(op string) bool { return g.pf.Ops[op] }

var words = []string{"a", "b", "xy", "q", "hello", "z9", "w w"}

// sync makes an expression without asynchronous calls. Texts are never empty
// and structures always have a text, so that no list or map holds an empty
// value.
func (g *gen) sync(t string, s scope, depth int) *Expr {
	var vars []string
	for _, v := range s.of(t) {
		// JavaScript takes such a parameter apart unless it is an argument
		if v != g.many {
			vars = append(vars, v)
		}
	}
	if len(vars) > 0 && (depth <= 0 || g.r.Chance(2, 5)) {
		return &Expr{Op: "var", T: t, S: g.r.Pick(vars)}
	}
	for try := 0; try < 30; try++ {
		if e := g.syncOp(t, s, depth); e != nil {
			return e
		}
	}
	switch kind(t) {
	case 's':
		return &Expr{Op: "str", T: t, S: g.r.Pick(words)}
	case 'i':
		return &Expr{Op: "int", T: t, N: 1 + g.r.N(9)}
	case 'L':
		return &Expr{Op: "new", T: t, Args: []*Expr{g.sync(elemT(t), s, 0)}}
	case 'M':
		return &Expr{Op: "new", T: t, S: "a", Args: []*Expr{g.sync(elemT(t), s, 0)}}
	}
	return &Expr{Op: "new", T: t, S: "a", Args: []*Expr{{Op: "str", T: "string", S: g.r.Pick(words)}}}
}

func (g *gen) syncOp(t string, s scope, depth int) *Expr {
	if depth <= 0 {
		return nil
	}
	sub := func(t string) *Expr { return g.sync(t, s, depth-1) }
	if g.r.Chance(1, 4) {
		if e := g.general(t, s, depth); e != nil {
			return e
		}
	}
	fromVar := func(t string) *Expr {
		vs := s.of(t)
		if len(vs) == 0 {
			return nil
		}
		return &Expr{Op: "var", T: t, S: g.r.Pick(vs)}
	}
	switch t {
	case "string":
		switch g.r.N(8) {
		case 0:
			return &Expr{Op: "str", T: t, S: g.r.Pick(words)}
		case 1, 2, 3:
			if !g.can("string") {
				return nil
			}
			e := &Expr{Op: "string", T: t, Args: []*Expr{sub("string")}}
			for n := 1 + g.r.N(2); n > 0; n-- {
				if g.r.Chance(1, 3) && g.can("int") {
					e.Args = append(e.Args, sub("int"))
				} else {
					e.Args = append(e.Args, sub("string"))
				}
			}
			return e
		case 4:
			if v := fromVar(g.r.Pick([]string{"rec", "box"})); v != nil && g.can("field") {
				return &Expr{Op: "field", T: t, S: "a", Args: []*Expr{v}}
			}
		case 5:
			if v := fromVar("stringmap"); v != nil && g.can("mapget") {
				return &Expr{Op: "mapget", T: t, S: "a", Args: []*Expr{v}}
			}
		case 6:
			if l := fromVar("stringlist"); l != nil && g.can("reduce") && !g.ahead {
				acc, x := g.v("r"), g.v("r")
				s2 := append(append(scope{}, s...), Param{acc, "string"}, Param{x, "string"})
				body := &Expr{Op: "string", T: t, Args: []*Expr{{Op: "var", T: t, S: acc}, {Op: "var", T: t, S: x}, g.sync("string", s2, 0)}}
				return &Expr{Op: "reduce", T: t, Args: []*Expr{l, sub("string"), body}, Bind: []*Bind{{Name: acc, T: "string"}, {Name: x, T: "string"}}}
			}
		}
	case "int":
		if !g.can("int") {
			return nil
		}
		switch g.r.N(5) {
		case 0:
			return &Expr{Op: "int", T: t, N: 1 + g.r.N(9)}
		case 1, 2:
			return &Expr{Op: g.r.Pick([]string{"+", "+", "*"}), T: t, Args: []*Expr{sub("int"), sub("int")}}
		case 3:
			if v := fromVar("rec"); v != nil && g.can("field") {
				return &Expr{Op: "field", T: t, S: "n", Args: []*Expr{v}}
			}
		case 4:
			if v := fromVar(g.r.Pick([]string{"stringlist", "reclist"})); v != nil {
				return &Expr{Op: "length", T: t, Args: []*Expr{v}}
			}
		}
	case "stringlist", "reclist":
		switch g.r.N(8) {
		case 7:
			if v := fromVar("box"); v != nil && t == "reclist" && g.can("field") {
				return &Expr{Op: "field", T: t, S: "rs", Args: []*Expr{v}}
			}
		case 0, 1:
			e := &Expr{Op: "new", T: t}
			for n := 1 + g.r.N(3); n > 0; n-- {
				if g.r.Chance(1, 4) && g.can("listoflist") {
					e.Args = append(e.Args, sub(t))
				} else {
					e.Args = append(e.Args, sub(elemT(t)))
				}
			}
			return e
		case 2, 3, 4:
			if v := fromVar(t); v != nil {
				e := &Expr{Op: "copy", T: t, Args: []*Expr{v}}
				for n := 1 + g.r.N(2); n > 0; n-- {
					e.Args = append(e.Args, sub(elemT(t)))
				}
				return e
			}
		case 5:
			if t == "stringlist" && g.can("field") {
				if v := fromVar("rec"); v != nil {
					return &Expr{Op: "field", T: t, S: "l", Args: []*Expr{v}}
				}
			}
		case 6:
			if !g.can("maplist") || g.ahead {
				return nil
			}
			from := g.r.Pick([]string{"stringlist", "reclist"})
			if v := fromVar(from); v != nil {
				x := g.v("y")
				s2 := append(append(scope{}, s...), Param{x, elemT(from)})
				return &Expr{Op: "maplist", T: t, S: x, Bind: []*Bind{{Name: x, T: elemT(from)}}, Args: []*Expr{v, g.mention(elemT(t), s2, x)}}
			}
		}
	case "rec":
		switch g.r.N(7) {
		case 6:
			if v := fromVar("box"); v != nil && g.can("field") {
				// never without a text
				return &Expr{Op: "copy", T: t, S: "a", Args: []*Expr{{Op: "field", T: t, S: "r", Args: []*Expr{v}}, sub("string")}}
			}
		case 0, 1:
			e := &Expr{Op: "new", T: t, S: "a", Args: []*Expr{sub("string")}}
			g.fields(e, s, depth)
			return e
		case 2, 3, 4:
			if v := fromVar("rec"); v != nil {
				e := &Expr{Op: "copy", T: t, S: "a", Args: []*Expr{v, sub("string")}}
				g.fields(e, s, depth)
				return e
			}
		case 5:
			if v := fromVar("recmap"); v != nil && g.can("mapget") {
				return &Expr{Op: "mapget", T: t, S: "a", Args: []*Expr{v}}
			}
		}
	case "box":
		e := &Expr{Op: "new", T: t, S: "a", Args: []*Expr{sub("string")}}
		if v := fromVar(t); v != nil && g.r.Chance(2, 3) {
			e = &Expr{Op: "copy", T: t, S: "a", Args: []*Expr{v, sub("string")}}
		}
		for _, f := range [][2]string{{"r", "rec"}, {"m", "stringmap"}, {"rs", "reclist"}, {"b", "boolean"}} {
			if g.r.Chance(1, 2) {
				continue
			}
			a := &Expr{Op: "bool", T: "boolean", N: g.r.N(2)}
			if f[1] != "boolean" {
				a = sub(f[1])
			}
			e.S += " " + f[0]
			e.Args = append(e.Args, a)
		}
		return e
	case "stringmap", "recmap":
		if v := fromVar("box"); v != nil && t == "stringmap" && g.can("field") && g.r.Chance(1, 3) {
			// never without an entry
			return &Expr{Op: "copy", T: t, S: "a", Args: []*Expr{{Op: "field", T: t, S: "m", Args: []*Expr{v}}, sub("string")}}
		}
		if v := fromVar(t); v != nil && g.can("mapmap") && !g.ahead && g.r.Chance(1, 4) {
			k, x := g.v("k"), g.v("y")
			s2 := append(append(scope{}, s...), Param{k, "string"}, Param{x, elemT(t)})
			return &Expr{Op: "mapmap", T: t, Args: []*Expr{v, g.mention(elemT(t), s2, x)}, Bind: []*Bind{{Name: k, T: "string"}, {Name: x, T: elemT(t)}}}
		}
		switch g.r.N(3) {
		case 0:
			e := &Expr{Op: "new", T: t, S: "a", Args: []*Expr{sub(elemT(t))}}
			if g.r.Chance(1, 2) {
				e.S += " " + g.r.Pick([]string{"c", "d"})
				e.Args = append(e.Args, sub(elemT(t)))
			}
			return e
		case 1, 2:
			if v := fromVar(t); v != nil {
				e := &Expr{Op: "copy", T: t, S: g.r.Pick([]string{"a", "c", "d"}), Args: []*Expr{v, sub(elemT(t))}}
				return e
			}
		}
	}
	return nil
}

// general makes an expression of a kind that any type has.
func (g *gen) general(t string, s scope, depth int) *Expr {
	sub := func(t string) *Expr { return g.sync(t, s, depth-1) }
	if g.can("note") && t != "int" && g.r.Chance(1, 8) {
		g.note++
		e := &Expr{Op: "note", T: t, S: fmt.Sprintf("note%d", g.note), Args: []*Expr{sub(t)}}
		if g.r.Chance(1, 3) {
			g.note++
			e.S += fmt.Sprintf(" note%d", g.note)
		}
		return e
	}
	switch g.r.N(7) {
	case 0, 1, 2:
		var fs []*Func
		for _, f := range g.subs {
			if f.T == t {
				fs = append(fs, f)
			}
		}
		if len(fs) > 0 && g.can("sub") {
			f := fs[g.r.N(len(fs))]
			e := &Expr{Op: "call", T: t, S: f.Name}
			for i, p := range f.Params {
				if f.Multi && i == len(f.Params)-1 {
					e.Multi = true
					for n := 1 + g.r.N(3); n > 0; n-- {
						e.Args = append(e.Args, sub(elemT(p.T)))
					}
					continue
				}
				e.Args = append(e.Args, sub(p.T))
			}
			return e
		}
	case 3:
		if g.can("let") && !g.ahead {
			return g.plainLet(t, s, depth)
		}
	case 4:
		if g.can("switch") && !g.ahead {
			e := &Expr{Op: "switch", T: t, Args: []*Expr{sub("string")}}
			for n := 1 + g.r.N(2); n > 0; n-- {
				e.Args = append(e.Args, &Expr{Op: "str", T: "string", S: g.r.Pick([]string{"b", "x", "a", "n1"})}, sub(t))
			}
			e.Args = append(e.Args, sub(t))
			return e
		}
	case 5:
		if g.can("subif") && !g.ahead {
			return &Expr{Op: "if", T: t, Args: []*Expr{{Op: "=", T: "boolean", Args: []*Expr{sub("string"), sub("string")}}, sub(t), sub(t)}}
		}
	case 6:
		if g.can("const") && (t == "rec" || t == "stringlist") {
			return &Expr{Op: "const", T: t, S: "con" + t}
		}
	}
	return nil
}

// wholes are the types that have a part of a type, parts the names of those
// parts.
var (
	wholes = map[string][]string{
		"string":     {"rec", "box", "stringmap"},
		"int":        {"rec"},
		"stringlist": {"rec"},
		"rec":        {"recmap"},
		"reclist":    {"box"},
	}
	parts = map[string]string{"rec string": "a", "box string": "a", "rec int": "n", "rec stringlist": "l", "box reclist": "rs"}
)

// plainLet binds what no asynchronous call delivers.
func (g *gen) plainLet(t string, s scope, depth int) *Expr {
	let := &Expr{Op: "let", T: t}
	s = append(scope{}, s...)
	if g.r.Chance(1, 3) {
		// the body gives back what it bound, or a part of it
		from := g.r.Pick(append([]string{t}, wholes[t]...))
		if from == t || g.can("field") && g.can("mapget") {
			b := &Bind{Name: g.v("l"), T: from, E: g.sync(from, s, max(depth-1, 1))}
			let.Bind = append(let.Bind, b)
			body := &Expr{Op: "var", T: from, S: b.Name}
			switch {
			case from == t:
			case from == "recmap", from == "stringmap":
				body = &Expr{Op: "mapget", T: t, S: "a", Args: []*Expr{body}}
			default:
				body = &Expr{Op: "field", T: t, S: parts[from+" "+t], Args: []*Expr{body}}
			}
			let.Args = []*Expr{body}
			return let
		}
	}
	for n := 1 + g.r.N(2); n > 0; n-- {
		bt := g.r.Pick(g.types())
		b := &Bind{Name: g.v("l"), T: bt, E: g.sync(bt, s, depth-1)}
		let.Bind = append(let.Bind, b)
		s = append(s, Param{b.Name, b.T}, Param{b.Name, b.T})
	}
	body := g.sync(t, s, max(depth-1, 1))
	for try := 0; try < 8 && body.Op == "var"; try++ {
		body = g.sync(t, s, 1)
	}
	if body.Op == "var" {
		// C++ does not pass a variable that is the whole body
		return nil
	}
	let.Args = []*Expr{body}
	return let
}

// mention makes an expression of type t that uses variable x.
func (g *gen) mention(t string, s scope, x string) *Expr {
	xt := ""
	for _, p := range s {
		if p.Name == x {
			xt = p.T
		}
	}
	xv := &Expr{Op: "var", T: xt, S: x}
	var s1 *Expr
	switch xt {
	case "string":
		s1 = xv
	case "rec":
		s1 = &Expr{Op: "field", T: "string", S: "a", Args: []*Expr{xv}}
	}
	switch t {
	case "string":
		return &Expr{Op: "string", T: t, Args: []*Expr{s1, g.sync("string", s, 1)}}
	case "rec":
		if xt == "rec" {
			return &Expr{Op: "copy", T: t, S: "a", Args: []*Expr{xv, g.sync("string", s, 1)}}
		}
		return &Expr{Op: "new", T: t, S: "a", Args: []*Expr{s1}}
	}
	return nil
}

func (g *gen) fields(e *Expr, s scope, depth int) {
	if g.r.Chance(1, 2) && g.can("int") {
		e.S += " n"
		e.Args = append(e.Args, g.sync("int", s, depth-1))
	}
	if g.r.Chance(1, 2) {
		e.S += " l"
		e.Args = append(e.Args, g.sync("stringlist", s, depth-1))
	}
}

// asText gives a text that depends on the variable.
func (g *gen) asText(p Param) *Expr {
	switch p.T {
	case "stringlist", "reclist":
		return &Expr{Op: "length", T: "int", Args: []*Expr{ev(p)}}
	case "rec", "box":
		return &Expr{Op: "field", T: "string", S: "a", Args: []*Expr{ev(p)}}
	case "stringmap":
		return &Expr{Op: "mapget", T: "string", S: "a", Args: []*Expr{ev(p)}}
	}
	return ev(p)
}

func free(e *Expr, out map[string]bool) {
	if e.Op == "var" {
		out[e.S] = true
	}
	for _, a := range e.Args {
		free(a, out)
	}
	for _, b := range e.Bind {
		if b.E != nil {
			free(b.E, out)
		}
	}
}

// async makes an asynchronous call of the wanted type: a leaf call, a call of
// a later function, or one call per item of a list.
func (g *gen) async(t string, s scope) *Expr {
	var opts []*Expr
	for _, lt := range g.pf.LeafT {
		if lt == t {
			g.leaf++
			opts = append(opts, &Expr{Op: "leaf", T: t, N: g.leaf, Args: []*Expr{g.sync(t, s, 2)}})
		}
	}
	for _, f := range g.sigs {
		if f.T == t {
			e := &Expr{Op: "call", T: t, S: f.Name}
			for _, p := range f.Params {
				e.Args = append(e.Args, g.sync(p.T, s, 2))
			}
			opts = append(opts, e, e, e)
		}
		if kind(t) == 'L' && f.T == elemT(t) && len(f.Params) == 1 && (f.Params[0].T == "string" || f.Params[0].T == "rec") {
			from := "stringlist"
			if f.Params[0].T == "rec" {
				from = "reclist"
			}
			e := &Expr{Op: "amap", T: t, S: f.Name, Args: []*Expr{g.sync(from, s, 1)}}
			opts = append(opts, e, e, e, e)
		}
	}
	if len(opts) == 0 {
		return nil
	}
	return opts[g.r.N(len(opts))]
}

// chain makes a body in which calls use the results of earlier calls.
func (g *gen) chain(f *Func, t string) bool {
	s := append(scope{}, f.Params...)
	let := &Expr{Op: "let", T: t}
	for n := 2 + g.r.N(4); n > 0; n-- {
		// what was bound last is favoured
		s2 := append(scope{}, s...)
		for i := len(s) - 1; i >= 0 && i > len(s)-3; i-- {
			s2 = append(s2, s[i], s[i])
		}
		bt := g.r.Pick(g.types())
		b := &Bind{Name: g.v("z"), T: bt}
		if g.r.Chance(2, 3) {
			b.E, b.Async = g.async(bt, s2), true
		}
		if b.E == nil {
			b.E, b.Async = g.sync(bt, s2, 2), false
		} else if b.Async && b.E.Op != "amap" && g.r.Chance(1, 4) {
			// the argument is itself an asynchronous call
			i := g.r.N(len(b.E.Args))
			if e := g.async(b.E.Args[i].T, s2); e != nil && b.E.Args[i].T != "" {
				b.E.Args[i] = e
			}
		}
		let.Bind = append(let.Bind, b)
		s = append(s, Param{b.Name, b.T})
	}
	s2 := append(scope{}, s...)
	for i := len(s) - 1; i >= 0 && i > len(s)-4; i-- {
		s2 = append(s2, s[i], s[i])
	}
	var body *Expr
	if g.r.Chance(1, 3) {
		body = g.async(t, s2)
	}
	if body == nil {
		body = g.sync(t, s2, 2)
	}
	let.Args = []*Expr{body}
	f.T, f.Body = t, let
	return true
}

func (g *gen) body(f *Func, t string) bool {
	g.ahead = false
	if g.chained && g.r.Chance(3, 4) {
		return g.chain(f, t)
	}
	var s scope
	s = append(s, f.Params...)
	g.ahead = true
	if g.r.Chance(1, 5) {
		e := g.async(t, s)
		if e != nil {
			f.T, f.Body = t, e
			return true
		}
	}
	let := &Expr{Op: "let", T: t}
	for n := g.r.N(3); n > 0; n-- {
		bt := g.r.Pick(g.types())
		b := &Bind{Name: g.v("x"), T: bt, E: g.sync(bt, s, 2)}
		let.Bind = append(let.Bind, b)
		s = append(s, Param{b.Name, b.T})
	}
	// which type does the asynchronous binding have?
	var ab *Bind
	for try := 0; try < 10 && ab == nil; try++ {
		at := g.r.Pick(g.types())
		if len(g.sigs) > 0 && g.r.Chance(3, 4) {
			f := g.sigs[g.r.N(len(g.sigs))]
			at = f.T
			if g.r.Chance(1, 2) && (at == "string" || at == "rec") && len(f.Params) == 1 {
				at += "list"
			}
		}
		if e := g.async(at, s); e != nil {
			ab = &Bind{Name: g.v("z"), T: at, E: e, Async: true}
		}
	}
	if ab == nil {
		return false
	}
	let.Bind = append(let.Bind, ab)
	ap := Param{ab.Name, ab.T}
	s = append(s, ap)
	g.ahead = false
	var post []*Bind
	for n := g.r.N(3); n > 0; n-- {
		bt := g.r.Pick(g.types())
		// the delivered value is favoured
		s2 := append(append(scope{}, s...), ap, ap)
		b := &Bind{Name: g.v("w"), T: bt, E: g.sync(bt, s2, 2)}
		post = append(post, b)
		s = append(s, Param{b.Name, b.T}, Param{b.Name, b.T})
	}
	let.Bind = append(let.Bind, post...)
	body := g.sync(t, append(append(scope{}, s...), ap, ap), 2)
	if g.can("if") && g.r.Chance(1, 4) {
		cond := &Expr{Op: "=", T: "boolean", Args: []*Expr{g.asText(ap), g.asText(ap)}}
		if g.r.Chance(1, 2) {
			cond.Args[1] = &Expr{Op: "str", T: "string", S: "b"}
			if cond.Args[0].T == "int" {
				cond.Args[1] = &Expr{Op: "int", T: "int", N: 2}
			}
		}
		if ab.T != "recmap" {
			body = &Expr{Op: "if", T: t, Args: []*Expr{cond, body, g.sync(t, s, 2)}}
		}
	}
	// What the later bindings use must be used by the body as well: the
	// compiler passes the body's variables into the continuation.
	used := map[string]bool{}
	free(body, used)
	need := map[string]bool{}
	for _, b := range post {
		free(b.E, need)
	}
	inner := map[string]bool{}
	for _, b := range post {
		inner[b.Name] = true
	}
	var must []Param
	done := map[string]bool{}
	for _, p := range s {
		if need[p.Name] && !used[p.Name] && !inner[p.Name] && !done[p.Name] {
			done[p.Name] = true
			must = append(must, p)
		}
	}
	if !used[ab.Name] && !done[ab.Name] {
		must = append(must, ap)
	}
	if len(must) > 0 {
		txt := &Expr{Op: "string", T: "string", Args: []*Expr{{Op: "str", T: "string", S: "_"}}}
		for _, p := range must {
			if p.T == "recmap" {
				return false
			}
			txt.Args = append(txt.Args, g.asText(p))
		}
		if body.Op == "if" && t != "string" {
			return false
		}
		switch kind(t) {
		case 's':
			if body.Op == "if" {
				return false
			}
			txt.Args[0] = body
			body = txt
		case 'i':
			body = &Expr{Op: "+", T: "int", Args: []*Expr{body, {Op: "length", T: "int", Args: []*Expr{{Op: "new", T: "stringlist", Args: []*Expr{txt}}}}}}
		case 'L':
			if elemT(t) == "string" {
				body = &Expr{Op: "copy", T: t, Args: []*Expr{body, txt}}
			} else {
				body = &Expr{Op: "copy", T: t, Args: []*Expr{body, {Op: "new", T: "rec", S: "a", Args: []*Expr{txt}}}}
			}
		case 'R':
			body = &Expr{Op: "copy", T: t, S: "a", Args: []*Expr{body, txt}}
		case 'M':
			if elemT(t) == "string" {
				body = &Expr{Op: "copy", T: t, S: "e", Args: []*Expr{body, txt}}
			} else {
				body = &Expr{Op: "copy", T: t, S: "e", Args: []*Expr{body, {Op: "new", T: "rec", S: "a", Args: []*Expr{txt}}}}
			}
		}
	}
	let.Args = []*Expr{body}
	f.T, f.Body = t, let
	return true
}

func (g *gen) types() []string {
	if g.can("int") {
		return anyT
	}
	return []string{"string", "stringlist", "rec", "reclist", "stringmap", "recmap", "box"}
}

// program makes one program, last function first.
func program(r *wire.Rand, name string, pf *Profile, chained bool) *Program {
	g := &gen{r: r, pf: pf, name: name, chained: chained}
	p := &Program{Chain: chained}
	var subs []*Func
	for i := r.N(4); i > 0 && g.can("sub"); i-- {
		f := &Func{Name: fmt.Sprintf("%ss%d", name, i), T: r.Pick(g.types())}
		for np := 1 + r.N(3); np > 0; np-- {
			f.Params = append(f.Params, Param{g.v("a"), r.Pick(g.types())})
		}
		if last := f.Params[len(f.Params)-1].T; r.Chance(1, 2) && kind(last) == 'L' && g.can("multi") {
			f.Multi = true
			g.many = f.Params[len(f.Params)-1].Name
		}
		s := append(scope{}, f.Params...)
		if g.can("let") && r.Chance(1, 2) {
			f.Body = g.plainLet(f.T, s, 2)
		}
		if f.Body == nil {
			f.Body = g.sync(f.T, s, 3)
		}
		g.subs = append(g.subs, f)
		subs = append([]*Func{f}, subs...)
	}
	n := 1 + r.N(pf.MaxFuncs)
	if n < 3 && r.Chance(2, 3) {
		n += 2
	}
	for i := n - 1; i >= 0; i-- {
		f := &Func{Name: fmt.Sprintf("%sf%d", name, i), Async: true}
		np := 1 + r.N(3)
		if i > 0 && r.Chance(1, 2) {
			np = 1
		}
		for k := 0; k < np; k++ {
			t := r.Pick(g.types())
			if i > 0 && np == 1 {
				t = r.Pick([]string{"string", "rec"})
			}
			f.Params = append(f.Params, Param{g.v("a"), t})
		}
		ok := false
		for try := 0; try < 20 && !ok; try++ {
			t := r.Pick(g.types())
			if i > 0 && np == 1 && r.Chance(2, 3) {
				t = r.Pick([]string{"string", "rec"})
			}
			ok = g.body(f, t)
		}
		if !ok {
			// always possible
			g.leaf++
			f.T = "string"
			f.Body = &Expr{Op: "leaf", T: "string", N: g.leaf, Args: []*Expr{{Op: "str", T: "string", S: "k"}}}
		}
		g.sigs = append(g.sigs, f)
		p.Funcs = append([]*Func{f}, p.Funcs...)
	}
	p.Funcs = append(p.Funcs, subs...)
	g.mark(p)
	return p
}

// mark makes some functions catch what they fail with.
func (g *gen) mark(p *Program) {
	if g.can("messages") && g.r.Chance(1, 2) {
		for i, f := range p.Funcs {
			// only JavaScript accepts asynchronous ones; what an inner one
			// catches need not be used
			f.Messages = (!f.Async || p.Chain && i == 0) && g.r.Chance(1, 3)
		}
	}
}

// pick makes a few programs and takes the one that makes most calls whose
// results matter. Some programs are taken whatever they do.
func pick(r *wire.Rand, name string, pf *Profile, chained bool) *Program {
	var best *Program
	top := -1
	tries := 20
	if r.Chance(1, 6) {
		tries = 1
	}
	for ; tries > 0; tries-- {
		p := prune(program(r, name, pf, chained))
		t := &Task{}
		for _, a := range p.Funcs[0].Params {
			t.Args = append(t.Args, value(r, a.T, 2))
		}
		sc := &Scenario{Tasks: []*Task{t}}
		for id := 1; id < 80; id++ {
			sc.Fails = append(sc.Fails, Fail{ID: id, Mode: 1})
		}
		score := 0
		if x, err := expect(&Batch{Programs: []*Program{p}}, sc); err == nil {
			ms := map[string]bool{}
			x.Vals[0].deep(ms)
			score = min(x.Leaves, 6) + 2*min(len(ms), 3) + r.N(3)
		}
		if score > top {
			best, top = p, score
		}
	}
	return best
}

// value makes an argument.
func value(r *wire.Rand, t string, depth int) *Val {
	switch t {
	case "string":
		return str(r.Pick([]string{"b", "x", "long text", "é☃", "n1", "q\"q"}))
	case "int":
		return num(1 + r.N(5))
	case "stringlist", "reclist":
		v := &Val{T: t}
		n := 1 + r.N(4)
		if r.Chance(1, 8) {
			n = 0
		}
		for ; n > 0; n-- {
			v.L = append(v.L, value(r, elemT(t), depth-1))
		}
		return v
	case "stringmap", "recmap":
		v := &Val{T: t, M: map[string]*Val{"a": value(r, elemT(t), depth-1)}}
		if r.Chance(1, 2) {
			v.M["c"] = value(r, elemT(t), depth-1)
		}
		return v
	}
	v := &Val{T: t, M: map[string]*Val{"a": value(r, "string", 0)}}
	if t == "box" {
		for _, f := range [][2]string{{"r", "rec"}, {"m", "stringmap"}, {"rs", "reclist"}} {
			if r.Chance(1, 2) {
				v.M[f[0]] = value(r, f[1], 0)
			}
		}
		if r.Chance(1, 2) {
			v.M["b"] = boolean(r.Chance(1, 2))
		}
		return v
	}
	if r.Chance(1, 2) {
		v.M["n"] = num(1 + r.N(5))
	}
	if r.Chance(1, 2) {
		v.M["l"] = value(r, "stringlist", 0)
	}
	return v
}
