package main

import (
	"fmt"
	"strconv"
	"strings"

	"gosim/wire"
)

// ---- user interface

const uiFuncs = `(func page : boolean
 [what : string
  uid  : string
  text : string]
 (native
  :js "globalThis.simpage(what, uid, text)")
 :doc "tells the simulator")

(func fire : boolean
 [uid  : string
  name : string]
 (native
  :js "globalThis.simfire(uid, name)")
 :doc "a user does something")

(func sel : boolean
 [uid : string
  on : boolean
  text : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)
   parent : ui/ui := (ui/ui-readstate<-uid (ui/string-parentuid<-uid uid))]
  (if : boolean
   (then (is-empty it) (page "none" uid "sel"))
   (else
    (let : boolean
     [b : boolean := (ui/boolean-layout<-ui-parent-selected it parent on)]
     (page "sel" uid text)))))
 :context
 :doc "select")

(func vis : boolean
 [uid : string
  on : boolean
  text : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)
   parent : ui/ui := (ui/ui-readstate<-uid (ui/string-parentuid<-uid uid))]
  (if : boolean
   (then (is-empty it) (page "none" uid "vis"))
   (else
    (let : boolean
     [b : boolean := (ui/boolean-layout<-ui-parent-visible it parent on)]
     (page "vis" uid text)))))
 :context
 :doc "show or hide")

(func selone : boolean
 [uid : string
  pos : int
  text : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)
   parent : ui/ui := (ui/ui-readstate<-uid (ui/string-parentuid<-uid uid))]
  (if : boolean
   (then (is-empty it) (page "none" uid "selone"))
   (else
    (let : boolean
     [b : ui/ui := (ui/ui-layout<-ui-parent-selected it parent pos)]
     (page "selone" uid text)))))
 :context
 :doc "select one child")

(func visone : boolean
 [uid : string
  pos : int
  text : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)
   parent : ui/ui := (ui/ui-readstate<-uid (ui/string-parentuid<-uid uid))]
  (if : boolean
   (then (is-empty it) (page "none" uid "visone"))
   (else
    (let : boolean
     [b : ui/ui := (ui/ui-layout<-ui-parent-visible it parent pos)]
     (page "visone" uid text)))))
 :context
 :doc "show one child")

(func add : boolean
 [uid : string
  fresh : ui/ui
  text : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)]
  (if : boolean
   (then (is-empty it) (page "none" uid "add"))
   (else
    (let : boolean
     [b : boolean := (ui/boolean-layoutaddchild<-ui-parent fresh it)]
     (page "add" uid text)))))
 :context
 :doc "add a child")

(func rem : boolean
 [uid : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)
   parent : ui/ui := (ui/ui-readstate<-uid (ui/string-parentuid<-uid uid))]
  (if : boolean
   (then (is-empty it) (page "none" uid "rem"))
   (else
    (let : boolean
     [b : boolean := (ui/boolean-layoutremove<-ui-parent it parent)]
     (page "rem" uid "")))))
 :context
 :doc "remove")

(func ask : boolean
 [uid : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)]
  (if : boolean
   (then (is-empty it) (page "none" uid "ask"))
   (else
    (let : boolean
     [chosen : ui/ui := (ui/ui-selected<-ui it)
      shown : ui/ui := (ui/ui-visible<-ui it)]
     (page "ask" uid
      (string
       (:uid chosen) " "
       (ui/int-selected<-ui it) " "
       (:uid shown)))))))
 :context
 :doc "what is selected and shown")

(func remsome : boolean
 [uid : string
  start : int
  end : int
  text : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)]
  (if : boolean
   (then (is-empty it) (page "none" uid "remsome"))
   (else
    (let : boolean
     [b : boolean := (ui/boolean-layoutremove<-ui-start-end it start end)]
     (page "remsome" uid text)))))
 :context
 :doc "remove some children")

(func set : boolean
 [uid : string
  text : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)
   parent : ui/ui := (ui/ui-readstate<-uid (ui/string-parentuid<-uid uid))]
  (if : boolean
   (then (is-empty it) (page "none" uid "set"))
   (else
    (let : boolean
     [fresh : ui/ui := (copy it :data text)
      ok : boolean := (ui/boolean-writestate<-ui fresh)
      b : ui/ui := (ui/ui-layout<-ui-orig-parent fresh it parent)]
     (page "set" uid text)))))
 :context
 :doc "new text")

(func relay : boolean
 [uid : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)
   parent : ui/ui := (ui/ui-readstate<-uid (ui/string-parentuid<-uid uid))]
  (if : boolean
   (then (is-empty it) (page "none" uid "relay"))
   (else
    (let : boolean
     [b : ui/ui := (ui/ui-layout<-ui-orig-parent it (empty ui/ui) parent)]
     (page "relay" uid "")))))
 :context
 :doc "lay out again")

(func again : boolean
 [uid : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate-uiapp)
   engine : ui/uiengine := (ui/uiengine-readstate)]
  (if : boolean
   (then (is-empty it) (page "none" uid "again"))
   (else
    (let : boolean
     [b : ui/uiengine := (ui/uiengine-render (copy engine :ui it))]
     (page "again" uid "")))))
 :context
 :doc "render again")

(func rewire : boolean
 [uid : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)]
  (if : boolean
   (then (is-empty it) (page "none" uid "rewire"))
   (else
    (let : boolean
     [b : boolean := (uihtml/boolean-writeeventsall<-ui it)]
     (page "rewire" uid "")))))
 :context
 :doc "write events again")

(func setev : boolean
 [uid : string
  ev : int
  text : string]
 (let : boolean
  [it : ui/ui := (ui/ui-readstate<-uid uid)]
  (if : boolean
   (then (is-empty it) (page "none" uid "setev"))
   (else
    (let : boolean
     [fresh : ui/ui := (copy it :eventmap (events ev))
      ok : boolean := (ui/boolean-writestate<-ui fresh)
      b : boolean := (uihtml/boolean-writeeventsall<-ui fresh)]
     (page "setev" uid text)))))
 :context
 :doc "other handlers")

(func on-one : event/event
 [evt : event/event]
 (let : event/event
  [b : boolean := (page "on" (:from evt) "one")]
  evt)
 :context
 :doc "handler")

(func on-two : event/event
 [evt : event/event]
 (let : event/event
  [b : boolean := (page "on" (:from evt) "two")
   c : boolean := (sel (:from evt) true "true")]
  evt)
 :context
 :doc "handler that selects its element")

(func on-slow : event/event
 [evt : event/event]
 (let : event/event
  [b : boolean := (page "on" (:from evt) "slow")
   z : string := (leafstring 100 (:from evt))
   c : boolean := (page "done" (:from evt) "slow")
   d : boolean := (vis (:from evt) false "false")]
  evt)
 :async
 :context
 :doc "handler that takes a while and hides its element")

(const evt-one : event/event
 (event/event :name "click" :event<-event on-one))

(const evt-slow : event/event
 (event/event :name "click" :event<-event-async on-slow))

(func events : event/eventmap
 [ev : int]
 (switch : event/eventmap
  ev
  (case 1 (event/eventmap<-eventlist (event/eventlist
   evt-one)))
  (case 2 (event/eventmap<-eventlist (event/eventlist
   (event/event :name "click" :event<-event on-two))))
  (case 3 (event/eventmap<-eventlist (event/eventlist
   evt-slow)))
  (case 4 (event/eventmap<-eventlist (event/eventlist
   (event/event :name "click" :event<-event on-two)
   (event/event :name "change" :event<-event on-one))))
  (case 5 (event/eventmap<-eventlist (event/eventlist
   (event/event :name "change" :event<-event-async on-slow)
   evt-one)))
  (else (empty event/eventmap)))
 :doc "handlers")

(func style : ui/style
 [kind : int]
 (switch : ui/style
  kind
  (case 1 (ui/style :layout ui/layout-label))
  (case 2 (ui/style :layout ui/layout-image))
  (case 3 (ui/style :layout ui/layout-app))
  (else (empty ui/style)))
 :doc "style")

(const style-s1 : ui/style
 (ui/style :name "s1" :type ui/styletype-shared))

(const style-s2 : ui/style
 (ui/style :name "s2" :type ui/styletype-shared))

(func styles : ui/stylelist
 [sty : int]
 (switch : ui/stylelist
  sty
  (case 1 (ui/stylelist style-s1))
  (case 2 (ui/stylelist style-s2))
  (case 3 (ui/stylelist style-s1 style-s2))
  (else (empty ui/stylelist)))
 :doc "styles")

(func el : ui/ui
 [uid  : string
  kind : int
  ev   : int
  sty  : int
  selected : boolean
  hidden : boolean
  data : any
  kids : ui/uimap]
 (ui/ui
  :uid       uid
  :style     (style kind)
  :stylelist (styles sty)
  :eventmap  (events ev)
  :selected  selected
  :hidden    hidden
  :data      data
  :uimap     kids)
 :doc "element")

(func start : boolean
 [root : ui/ui
  text : string]
 (let : boolean
  [c : context := (uihtml/context-write)
   done : ui/uiengine := (ui/uiengine-render (ui/uiengine :layoutengine uihtml/layoutenginehtml :ui root))]
  (page "start" "app" text))
 :context
 :doc "start")

`

// El is an element of the interface.
type El struct {
	Name     string
	Kind     int // 0 container, 1 label, 2 image, 3 application
	Ev, Sty  int
	Text     string
	Sel, Hid bool
	Kids     []*El
}

// spec is the element in one word per field; text has no spaces in it.
func (e *El) spec() string {
	s := fmt.Sprintf("%s %d %d %d %v %v %s %d", e.Name, e.Kind, e.Ev, e.Sty, e.Sel, e.Hid, "."+e.Text, len(e.Kids))
	for _, k := range e.Kids {
		s += " " + k.spec()
	}
	return s
}

func parseEl(t *toks) *El {
	e := &El{Name: t.next(), Kind: t.num(), Ev: t.num(), Sty: t.num(), Sel: t.next() == "true", Hid: t.next() == "true", Text: t.next()[1:]}
	for n := t.num(); n > 0; n-- {
		e.Kids = append(e.Kids, parseEl(t))
	}
	return e
}

// source writes the element as an expression.
func (e *El) source(parent string) string {
	uid := e.Name
	if parent != "" {
		uid = parent + "/" + e.Name
	}
	data := strconv.Quote(e.Text)
	if e.Kind == 2 {
		data = fmt.Sprintf("(file/file :path \"img\" :name %q)", e.Text)
	}
	kids := "(empty ui/uimap)"
	if len(e.Kids) > 0 {
		kids = "(ui/uimap<-uilist"
		for _, k := range e.Kids {
			kids += " " + k.source(uid)
		}
		kids += ")"
	}
	return fmt.Sprintf("(el %q %d %d %d %v %v %s %s)", uid, e.Kind, e.Ev, e.Sty, e.Sel, e.Hid, data, kids)
}

// seen is what the page must show of the element.
func (e *El) seen(parent string) string {
	uid := e.Name
	if parent != "" {
		uid = parent + "/" + e.Name
	}
	s := "<" + []string{"div", "p", "img", "div"}[e.Kind] + " " + uid
	var cs []string
	if e.Kind != 3 {
		if e.Sty&1 > 0 {
			cs = append(cs, "s1")
		}
		if e.Sty&2 > 0 {
			cs = append(cs, "s2")
		}
		if e.Hid {
			cs = append(cs, "style-hidden")
		} else if e.Sel {
			cs = append(cs, "style-selected")
		}
	}
	if len(cs) > 0 {
		s += " ." + strings.Join(cs, ".")
	}
	switch e.Kind {
	case 1:
		return s + ">" + e.Text + "</>"
	case 2:
		return s + " img/" + e.Text + "></>"
	}
	s += ">"
	for _, k := range e.Kids {
		s += k.seen(uid)
	}
	return s + "</>"
}

func (e *El) child(name string) *El {
	for _, k := range e.Kids {
		if k.Name == name {
			return k
		}
	}
	return nil
}

// find gives the element and the one it is in.
func (e *El) find(uid string) (it, parent *El) {
	parts := strings.Split(uid, "/")
	if e == nil || parts[0] != e.Name {
		return nil, nil
	}
	it = e
	for _, p := range parts[1:] {
		parent, it = it, it.child(p)
		if it == nil {
			return nil, parent
		}
	}
	return it, parent
}

// handler is what an element of that kind does on an event.
func handler(ev int, name string) string {
	return map[string]string{"1click": "one", "2click": "two", "3click": "slow", "4click": "two", "4change": "one", "5change": "slow", "5click": "one"}[fmt.Sprint(ev)+name]
}

var texts = []string{"x", "one", "two", "Three", "a.b", "z9", "0", "true", "a<b>c", "&amp;", "<p>", "x&y;", "it's", "é☃", "a-long-text-that-goes-on"}

var elNames = []string{"ca", "cb", "la", "lb", "ia"}

func randEl(r *wire.Rand, name string, depth int) *El {
	e := &El{Name: name, Ev: r.N(7) % 6, Sty: r.N(4), Sel: r.Chance(1, 5), Hid: r.Chance(1, 5)}
	e.Text = texts[r.N(len(texts))]
	switch name[0] {
	case 'l':
		e.Kind = 1
	case 'i':
		e.Kind, e.Text = 2, []string{"x", "one.png", "two.png"}[r.N(3)]
	default:
		e.Text = ""
		if depth > 0 {
			for _, n := range elNames {
				if r.Chance(1, 2) {
					e.Kids = append(e.Kids, randEl(r, n, depth-1))
				}
			}
			for i := range e.Kids {
				k := r.N(i + 1)
				e.Kids[i], e.Kids[k] = e.Kids[k], e.Kids[i]
			}
		}
	}
	return e
}

func randUid(r *wire.Rand, container bool) string {
	uid := "app"
	for d := r.N(3); d > 0; d-- {
		uid += "/" + elNames[r.N(2)]
	}
	if !container {
		uid += "/" + elNames[r.N(len(elNames))]
	}
	return uid
}

// Programs 0-5 of a batch put a first page up.
const firstPages = 6

var uiKit = &Kit{
	Libs: []string{"vx/event", "vx/ui/ui", "vx/web/htmldoc"},
	Source: opsSource(`(package sim/prog
 :libs (lib event  :path vx/event)
       (lib file   :path vx/data/file)
       (lib ui     :path vx/ui/ui)
       (lib uihtml :path vx/ui/html/uihtml)
 :doc "simulated programs")

` + leafString + uiFuncs),
	Make: func(r *wire.Rand, name string, chain bool) *Program {
		f := &Func{Name: name, T: "boolean", Async: true, Context: true, Params: []Param{{"v0", "string"}}}
		p := &Program{Funcs: []*Func{f}, Chain: true}
		if n, _ := strconv.Atoi(name[1:]); n < firstPages {
			e := randEl(r, "app", 2)
			e.Hid, e.Sel, e.Kind, e.Ev = false, false, 3*(n%2), e.Ev%2 // nothing is around it, so it is not hidden nor selected
			p.Ops = []Op{{Op: "start", Args: []string{e.source(""), strconv.Quote(e.spec())}}}
			return p
		}
		q := strconv.Quote
		op := func() Op {
			any, box := randUid(r, false), randUid(r, true)
			sub := box
			for sub == "app" {
				sub = randUid(r, true)
			}
			b := fmt.Sprint(r.Chance(1, 2))
			n := fmt.Sprint(r.N(5))
			switch r.N(28) {
			case 26, 27:
				return Op{Op: "ask", Args: []string{q(box)}}
			case 0, 1, 2:
				return Op{Op: "sel", Args: []string{q(any), b, q(b)}}
			case 3, 4, 5:
				return Op{Op: "vis", Args: []string{q(any), b, q(b)}}
			case 6, 7:
				return Op{Op: "selone", Args: []string{q(sub), n, q(n)}}
			case 8, 9:
				return Op{Op: "visone", Args: []string{q(box), n, q(n)}}
			case 10, 11, 12:
				e := randEl(r, elNames[r.N(len(elNames))], 1)
				return Op{Op: "add", Args: []string{q(box), e.source(box), q(e.spec())}}
			case 13:
				return Op{Op: "rem", Args: []string{q(any)}}
			case 14:
				from := 1 + r.N(3)
				to := from + r.N(3) - 1
				return Op{Op: "remsome", Args: []string{q(box), fmt.Sprint(from), fmt.Sprint(to), q(fmt.Sprint(from, " ", to))}}
			case 15, 16:
				return Op{Op: "set", Args: []string{q(box + "/" + elNames[2+r.N(2)]), q(texts[r.N(len(texts))])}}
			case 17:
				return Op{Op: "relay", Args: []string{q([]string{any, box}[r.N(2)])}}
			case 18:
				return Op{Op: "again", Args: []string{q("app")}}
			case 19:
				return Op{Op: "rewire", Args: []string{q([]string{any, box}[r.N(2)])}}
			case 20, 21:
				n = fmt.Sprint(r.N(6))
				return Op{Op: "setev", Args: []string{q(any), n, q(n)}}
			}
			return Op{Op: "fire", Args: []string{q(any), q([]string{"click", "click", "change"}[r.N(3)])}}
		}
		leaves := 1 + r.N(3)
		for i := 0; i <= leaves; i++ {
			n := r.N(5)
			if i == leaves {
				n++
			}
			for ; n > 0; n-- {
				p.Ops = append(p.Ops, op())
			}
			if i < leaves {
				p.Ops = append(p.Ops, Op{Op: "leaf", N: i + 1, Args: []string{"v0"}})
			}
		}
		return p
	},
	Expect: func(b *Batch, sc *Scenario) *Expect {
		x := &Expect{}
		for _, t := range sc.Tasks {
			in := &Interp{p: b.Programs[t.Prog], fails: sc.Fails}
			for _, o := range b.Programs[t.Prog].Ops {
				if o.Op == "leaf" {
					in.leaf(o.N, t.Args[0])
					if in.hard > 0 {
						break
					}
				}
			}
			x.Vals = append(x.Vals, boolean(true))
			x.Hard = append(x.Hard, in.hard)
		}
		return x
	},
	Text: (*Program).opText,
}

// Page is what happened on the page.
type Page struct {
	What, Uid, Arg string
	Seen           string
}

func uiScenario(r *wire.Rand, b *Batch, p int) *Scenario {
	for p < firstPages {
		p = firstPages + r.N(len(b.Programs)-firstPages)
	}
	sc := basic(r, b, p, 4)
	for _, t := range sc.Tasks {
		for t.Prog < firstPages {
			t.Prog = firstPages + r.N(len(b.Programs)-firstPages)
		}
		t.Hold = false
	}
	sc.Tasks = append([]*Task{{Prog: r.N(firstPages), Args: []*Val{str("s")}}}, sc.Tasks...)
	if r.Chance(1, 4) {
		id := 1 + r.N(3)
		if r.Chance(1, 2) {
			id = 100
		}
		sc.Fails = append(sc.Fails, Fail{ID: id, Mode: 2})
	}
	return sc
}

// follow runs the model along the history and calls back before each event is
// applied to it and after.
func follow(h *Hist, before func(i int, root *El) *Violation, after func(i int, root *El) *Violation) *Violation {
	var root *El
	for i, g := range h.Pages {
		if v := before(i, root); v != nil {
			return v
		}
		it, parent := root.find(g.Uid)
		gone := func(want string) *Violation {
			return viol("element lost", "event %d, %s of %s: %s", i, g.What, g.Uid, want)
		}
		switch g.What {
		case "start":
			root = parseEl(&toks{t: strings.Fields(g.Arg)})
		case "fire", "fired", "on", "done", "end", "error":
		case "none":
			if it != nil {
				return gone("the element is there but is not found for " + g.Arg)
			}
		default:
			if it == nil {
				return gone("no such element exists at that moment")
			}
			switch g.What {
			case "sel":
				it.Sel = g.Arg == "true"
			case "vis":
				it.Hid = g.Arg != "true"
			case "selone", "visone":
				n, _ := strconv.Atoi(g.Arg)
				for k, c := range it.Kids {
					if n > 0 && g.What == "selone" {
						c.Sel = k == n-1
					} else if n > 0 {
						c.Hid = k != n-1
					}
				}
			case "add":
				e := parseEl(&toks{t: strings.Fields(g.Arg)})
				done := false
				for k, c := range it.Kids {
					if c.Name == e.Name {
						it.Kids[k], done = e, true
					}
				}
				if !done {
					it.Kids = append(it.Kids, e)
				}
			case "rem":
				for k, c := range parent.Kids {
					if c == it {
						parent.Kids = append(parent.Kids[:k:k], parent.Kids[k+1:]...)
						break
					}
				}
			case "remsome":
				t := &toks{t: strings.Fields(g.Arg)}
				from, to := t.num(), t.num()
				var keep []*El
				for k, c := range it.Kids {
					if k+1 < from || k+1 > to {
						keep = append(keep, c)
					}
				}
				it.Kids = keep
			case "set":
				it.Text = g.Arg
			case "setev":
				it.Ev, _ = strconv.Atoi(g.Arg)
			case "relay", "again", "rewire":
			case "ask":
				sel, vis, at := "", "", 0
				for k, c := range it.Kids {
					if c.Sel && at == 0 {
						sel, at = g.Uid+"/"+c.Name, k+1
					}
					if !c.Hid && vis == "" {
						vis = g.Uid + "/" + c.Name
					}
				}
				if want := fmt.Sprint(sel, " ", at, " ", vis); g.Arg != want {
					return viol("answer differs", "event %d: asked what is selected and shown in %s the answer is %q, should be %q", i, g.Uid, g.Arg, want)
				}
			default:
				return viol("unknown event", "%s", g.What)
			}
		}
		if v := after(i, root); v != nil {
			return v
		}
	}
	return nil
}

func noCheck(i int, root *El) *Violation { return nil }

// judgePage: the page shows the current interface.
func judgePage(h *Hist) *Violation {
	if len(h.Changed) > 0 {
		return viol("shared value changed", "a value shared by all elements was changed: %s", clip(h.Changed[0], 300))
	}
	return follow(h, noCheck, func(i int, root *El) *Violation {
		want := "<div app></>"
		if root != nil {
			want = root.seen("")
		}
		g := h.Pages[i]
		if g.Seen != want {
			return viol("page differs", "after event %d, %s of %s (%s), the page shows\n %s\nshould be\n %s", i, g.What, g.Uid, clip(g.Arg, 60), g.Seen, want)
		}
		return nil
	})
}

// judgeEvents: each event reaches the handler of its element once.
func judgeEvents(sc *Scenario, h *Hist) *Violation {
	type firing struct {
		uid, name, want string
		who             map[string]string // handlers of the element and those around it
		ran             map[string]int
	}
	var open []*firing
	slow, failing := map[string]int{}, false
	for _, f := range sc.Fails {
		failing = failing || f.ID == 100
	}
	var bad *Violation
	fails := func(v *Violation) *Violation {
		bad = v
		return v
	}
	v := follow(h, func(i int, root *El) *Violation {
		g := h.Pages[i]
		switch g.What {
		case "fire":
			f := &firing{uid: g.Uid, name: g.Arg, who: map[string]string{}, ran: map[string]int{}}
			uid := g.Uid
			if it, _ := root.find(uid); it != nil {
				for uid != "" {
					if a, _ := root.find(uid); a != nil {
						f.who[uid] = handler(a.Ev, g.Arg)
					}
					k := strings.LastIndex(uid, "/")
					if k < 0 {
						k = 0
					}
					uid = uid[:k]
				}
				f.want = f.who[g.Uid]
			}
			open = append(open, f)
		case "on":
			if len(open) == 0 {
				return fails(viol("handler without event", "event %d: handler %s of %s runs although nothing happened to it", i, g.Arg, g.Uid))
			}
			f := open[len(open)-1]
			if w, ok := f.who[g.Uid]; !ok || w != g.Arg {
				return fails(viol("wrong handler", "event %d: %s of %s runs handler %s of %s, which the interface does not have there", i, f.name, f.uid, g.Arg, g.Uid))
			}
			f.ran[g.Uid]++
			if f.ran[g.Uid] > 1 {
				return fails(viol("handler twice", "event %d: %s of %s runs the handler of %s %d times", i, f.name, f.uid, g.Uid, f.ran[g.Uid]))
			}
			if g.Arg == "slow" {
				slow[g.Uid]++
			}
		case "done":
			slow[g.Uid]--
			if slow[g.Uid] < 0 {
				return fails(viol("handler twice", "event %d: a handler of %s ends more often than it began", i, g.Uid))
			}
		case "error":
			return fails(viol("handler fails", "event %d: the event of %s ends with %s", i, g.Uid, g.Arg))
		case "fired":
			f := open[len(open)-1]
			open = open[:len(open)-1]
			if f.want != "" && f.ran[f.uid] == 0 {
				return fails(viol("handler missed", "event %d: %s of %s never runs its handler %s", i, f.name, f.uid, f.want))
			}
		}
		return nil
	}, func(i int, root *El) *Violation {
		if root != nil && h.Pages[i].Seen != root.seen("") {
			return viol("page differs", "")
		}
		return nil
	})
	if bad != nil || v != nil { // what is on a wrong page is not judged
		return bad
	}
	if !failing {
		for uid, n := range slow {
			if n != 0 {
				return viol("handler unfinished", "%d handlers of %s began but never ended", n, uid)
			}
		}
		if len(h.Unhandled) > 0 {
			return viol("handler fails", "a handler ends with %s", h.Unhandled[0])
		}
	}
	return nil
}

// judgeDone: the programs ran to their end and did all their operations.
func judgeDone(b *Batch, sc *Scenario, x *Expect, h *Hist) *Violation {
	if v := finished(sc, h); v != nil {
		return v
	}
	must, got := map[string]int{}, map[string]int{}
	for i, t := range sc.Tasks {
		r := h.Results[i][0]
		if r.Failed && x.Hard[i] == 0 {
			return viol("failed", "program %d fails although nothing it called failed: %s", i, r.Msgs[0])
		}
		if !r.Failed && r.Val != x.Vals[i].text() {
			return viol("wrong result", "program %d delivers %s", i, r.Val)
		}
		if x.Hard[i] > 0 {
			return nil
		}
		for _, o := range b.Programs[t.Prog].Ops {
			must[o.Op]++
		}
	}
	for _, g := range h.Pages {
		w := g.What
		if w == "none" {
			w = g.Arg
		}
		got[w]++
	}
	for w, n := range must {
		if w != "leaf" && (got[w] < n || w != "sel" && w != "vis" && got[w] > n) {
			return viol("operations differ", "%s was done %d times, should be %d", w, got[w], n)
		}
	}
	return nil
}
