package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"gosim/wire"
)

// ---- files and permissions

// Disk is the simulated disk a scenario starts with and what goes wrong on it.
type Disk struct {
	Files  map[string]string `json:"files,omitempty"` // hex content by name
	Faults []DiskFault       `json:"faults,omitempty"`
	Cap    int               `json:"cap,omitempty"` // bytes, if not zero
}

// DiskFault makes the Nth call of an operation fail or transfer only a part.
type DiskFault struct {
	Op   string `json:"op"`
	Nth  int    `json:"nth"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
}

const diskDir = "/sim/d"

func (d *Disk) control() string {
	s := "reset\ndir " + diskDir + "\ndir " + diskDir + "/sub\n"
	var names []string
	for n := range d.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s += "file " + diskDir + "/" + n + " " + d.Files[n] + "\n"
		if n == "ro" {
			s += "ro " + diskDir + "/" + n + "\n"
		}
	}
	if d.Cap > 0 {
		s += fmt.Sprintf("cap %d\n", d.Cap)
	}
	for _, f := range d.Faults {
		s += fmt.Sprintf("fault %s %d %s %d\n", f.Op, f.Nth, f.Kind, f.Arg)
	}
	return s
}

// Report is a library operation, its result and what it did on the disk.
type Report struct {
	Who, What, Name, Text string
	Result                Result
	Ran                   int // notes so far
	Ops                   []string
	Faults                []string
	Files                 map[string]string
	OnDisk                bool
}

func (p *Report) disk(t *toks) {
	p.Files = map[string]string{}
	p.OnDisk = true
	t.next()
	for t.at < len(t.t) {
		x := t.next()
		if x == "open" {
			break
		}
		if x[0] == '!' {
			p.Faults = append(p.Faults, x[1:])
		} else {
			p.Ops = append(p.Ops, x)
		}
	}
	t.next()
	for t.at < len(t.t) {
		t.next()
		name := strings.TrimPrefix(t.next(), diskDir+"/")
		p.Files[name] = unhex(strings.TrimPrefix(t.next(), "s"))
	}
}

func (p *Report) String() string {
	switch p.What {
	case "w":
		return fmt.Sprintf("write of %s to %q", quote(p.Text), p.Name)
	case "r", "g":
		return fmt.Sprintf("read of %q", p.Name)
	case "e":
		return fmt.Sprintf("look for %q", p.Name)
	}
	return fmt.Sprintf("call of %s with %s", p.Name, quote(p.Text))
}

func quote(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", s[:50], len(s))
	}
	return fmt.Sprintf("%q", s)
}

const reportFunc = `(func report : boolean
 [who : string
  what : string
  name : string
  text : string
  value : any]
 (native
  :cpp "output = sim_prog::sim_report(who, what, name, text, value);"
  :java "output = sim.Leaf.report(who, what, name, text, value);"
  :js "globalThis.simreport(who, what, name, text, value)")
 :doc "tells the simulator")

`

const fileFuncs = `(func filenamed : file/file
 [name : string]
 (file/file
  :name name
  :path "` + diskDir + `")
 :doc "file")

(func fw : boolean
 [who : string
  name : string
  text : string]
 (let : boolean
  [f : file/file := (filenamed name)
   ok : boolean := (file/boolean-write<-file-string f text)]
  (report who "w" name text ok))
 :context
 :doc "write")

(func fa : boolean
 [who : string
  name : string
  text : string]
 (let : boolean
  [f : file/file := (filenamed name)
   list : stringlist := (stringlist text "x")
   ok : boolean := (file/boolean-write<-file-any f list)]
  (report who "w" name (string<-any list) ok))
 :context
 :doc "write")

(func ff : boolean
 [who : string
  name : string
  text : string]
 (let : boolean
  [f : file/file := (copy (filenamed name) :text text)
   ok : boolean := (file/boolean-write<-file f)]
  (report who "w" name text ok))
 :context
 :doc "write")

(func fr : boolean
 [who : string
  name : string]
 (let : boolean
  [f : file/file := (filenamed name)
   value : string := (file/string-read<-file f)]
  (report who "r" name "" value))
 :context
 :doc "read")

(func fg : boolean
 [who : string
  name : string]
 (let : boolean
  [f : file/file := (filenamed name)
   value : file/file := (file/file-read<-file f)]
  (report who "g" name "" value))
 :context
 :doc "read")

(func fe : boolean
 [who : string
  name : string]
 (let : boolean
  [f : file/file := (filenamed name)
   value : boolean := (file/boolean-exists<-file f)]
  (report who "e" name "" value))
 :context
 :doc "look")

`

// The functions of the program that need permission. The last has the name of
// the one before and other parameters, and needs a permission of its own.
var guards = []string{"guard0", "guard1", "guard2", "guard2_1"}

// functions of the program that need permission, and operations calling them
func guardFuncs() string {
	s := ""
	for i, name := range guards {
		fn, more, arg := name, "", ""
		if k := strings.Index(name, "_"); k > 0 {
			fn, more, arg = name[:k], "\n  more : int", " 1"
		}
		s += fmt.Sprintf(`(func %s : string
 [value : string%s]
 (let : string
  [ok : boolean := (note "ran" true "%s" value)]
  (string value "!%d"))
 :context
 :permission
 :doc "guarded")

(func q%d : boolean
 [who : string
  text : string]
 (let : boolean
  [value : string := (%s text%s)]
  (report who "q" "%s" text value))
 :context
 :doc "call")

`, fn, more, name, i, i, fn, arg, name)
	}
	return s
}

const (
	permWrite = "boolean_write_from_file_string"
	permRead  = "string_read_from_file"
	permFile  = "file_read_from_file"
)

var permNames = append([]string{permWrite, permRead, permFile}, guards...)

const userContext = `  vx_core::vx_Type_listany l;
  for (auto& n : allow) l.push_back(sim_type(n));
  vx_core::Type_any list = l.empty() ? vx_core::t_funclist->vx_empty() : vx_core::t_funclist->vx_new(l);
  vx_core::Type_any security = vx_core::t_security->vx_new({vx_core::vx_new_string(":allowfuncs"), list});
  vx_core::Type_any user = vx_core::t_user->vx_new({vx_core::vx_new_string(":security"), security});
  vx_core::Type_any session = vx_core::t_session->vx_new({vx_core::vx_new_string(":user"), user});
  return vx_core::vx_new(vx_core::t_context, {vx_core::vx_new_string(":session"), session});
`

func fileTypes() map[string]string {
	m := map[string]string{}
	for _, n := range permNames {
		if strings.HasPrefix(n, "guard") {
			m[n] = "sim_prog::t_" + n
		} else {
			m[n] = "vx_data_file::t_" + n
		}
	}
	return m
}

var diskNames = []string{"a", "b", "c.txt", "sub", "none/x", "ro", "new"}

// guarded: the share of calls of guarded functions, in eighths
func fileKit(guarded int) *Kit {
	return &Kit{
		Disk:    true,
		Libs:    []string{"vx/data/file"},
		Types:   fileTypes(),
		Context: userContext,
		Source: opsSource(`(package sim/prog
 :libs (lib javafuture)
       (lib file :path vx/data/file)
 :doc "simulated programs")

` + leafString + noteFunc + reportFunc + fileFuncs + guardFuncs()),
		Make: func(r *wire.Rand, name string, chain bool) *Program {
			f := &Func{Name: name, T: "boolean", Async: true, Context: true}
			f.Params = append(f.Params, Param{"who", "string"})
			var texts []string
			for i := 0; i < 3; i++ {
				f.Params = append(f.Params, Param{fmt.Sprintf("v%d", i), "string"})
				texts = append(texts, fmt.Sprintf("v%d", i))
			}
			p := &Program{Funcs: []*Func{f}, Chain: chain}
			op := func() Op {
				v := texts[r.N(len(texts))]
				if r.N(8) < guarded || chain {
					return Op{Op: fmt.Sprintf("q%d", r.N(len(guards))), Args: []string{"who", v}}
				}
				n := fmt.Sprintf("%q", diskNames[r.N(len(diskNames))])
				if r.Chance(2, 3) { // often the same few
					n = fmt.Sprintf("%q", diskNames[r.N(3)])
				}
				switch r.N(10) {
				case 0, 1, 2:
					return Op{Op: "fw", Args: []string{"who", n, v}}
				case 3:
					return Op{Op: "ff", Args: []string{"who", n, v}}
				case 4:
					return Op{Op: "fa", Args: []string{"who", n, v}}
				case 5, 6, 7:
					return Op{Op: "fr", Args: []string{"who", n}}
				case 8:
					return Op{Op: "fg", Args: []string{"who", n}}
				}
				return Op{Op: "fe", Args: []string{"who", n}}
			}
			leaves := 1
			if chain {
				leaves = 2 + r.N(2)
			}
			for i := 0; i <= leaves; i++ {
				n := r.N(4)
				if i == leaves {
					n++
				}
				for ; n > 0; n-- {
					p.Ops = append(p.Ops, op())
				}
				if i < leaves {
					p.Ops = append(p.Ops, Op{Op: "leaf", N: i + 1, Args: []string{texts[r.N(len(texts))]}})
					texts = append(texts, fmt.Sprintf("z%d", i+1))
				}
			}
			return p
		},
		Expect: fileExpect,
		Text:   (*Program).opText,
	}
}

// fileExpect lists the operations the programs must do.
func fileExpect(b *Batch, sc *Scenario) *Expect {
	x := &Expect{}
	for _, t := range sc.Tasks {
		p := b.Programs[t.Prog]
		in := &Interp{p: p, fails: sc.Fails}
		for _, o := range p.Ops {
			if o.Op == "leaf" {
				in.calls = append(in.calls, fmt.Sprintf("%d", o.N))
				continue
			}
			n := Note{Name: strings.Trim(o.Args[1], `"`)}
			switch o.Op {
			case "fw", "ff", "fa":
				n.What = "w"
			case "fr":
				n.What = "r"
			case "fg":
				n.What = "g"
			case "fe":
				n.What = "e"
			default:
				n.What, n.Name = "q", guards[o.Op[1]-'0']
			}
			x.Notes = append(x.Notes, n)
		}
		x.Calls = append(x.Calls, in.calls...)
		x.Vals = append(x.Vals, boolean(true))
		x.Hard = append(x.Hard, 0)
	}
	x.Leaves = len(x.Calls)
	return x
}

// fileText makes texts that disks and encodings may treat badly.
func fileText(r *wire.Rand) *Val {
	switch r.N(11) {
	case 0:
		return str("")
	case 1:
		return str("line\n")
	case 2:
		return str("one\r\ntwo\n\n")
	case 3:
		return str("é☃ \U0001F600 ü")
	case 4:
		return str("\n")
	case 5:
		return str(strings.Repeat("0123456789abcde\n", 256*(1+r.N(5))+r.N(3)-1) + "tail")
	case 6:
		return str(strings.Repeat("é", 2000+r.N(5000)))
	case 7:
		return str("\ufeffmark\tand space ")
	case 8:
		return str("zero\x00byte\x01")
	}
	return value(r, "string", 2)
}

// fileScenario sets up a disk, its faults and what the users may do.
func fileScenario(r *wire.Rand, b *Batch, p int, deny bool) *Scenario {
	sc := basic(r, b, p, 4)
	d := &Disk{Files: map[string]string{}}
	for _, n := range []string{"a", "b", "c.txt", "ro"} {
		if r.Chance(1, 2) {
			d.Files[n] = fmt.Sprintf("%x", fileText(r).S)
		}
	}
	for k, t := range sc.Tasks {
		t.Args[0] = str(fmt.Sprintf("u%d", k))
		for i := 1; i < len(t.Args); i++ {
			t.Args[i] = fileText(r)
		}
		t.Allow = append([]string{}, permNames...)
		if deny {
			t.Allow = t.Allow[:0]
			for _, n := range permNames {
				if r.Chance(1, 2) {
					t.Allow = append(t.Allow, n)
				}
			}
			for i := range t.Allow { // in any order
				k := r.N(i + 1)
				t.Allow[i], t.Allow[k] = t.Allow[k], t.Allow[i]
			}
		}
	}
	kinds := map[string][]string{
		"open":  {"EACCES", "EMFILE", "ENOSPC", "EIO", "EINTR"},
		"read":  {"EIO", "EINTR", "short", "short"},
		"write": {"EIO", "ENOSPC", "EDQUOT", "EINTR", "short", "short"},
		"close": {"EIO", "ENOSPC"},
		"stat":  {"EACCES", "EIO"},
	}
	n := r.N(4)
	if deny && n > 1 {
		n = 1
	}
	for ; n > 0; n-- {
		op := []string{"open", "read", "read", "write", "write", "close", "stat"}[r.N(7)]
		k := kinds[op]
		f := DiskFault{Op: op, Nth: r.N(6), Kind: k[r.N(len(k))]}
		if f.Kind == "short" {
			f.Arg = r.N(5000)
			if r.Chance(1, 2) { // the next transfer fails or is short too
				k = k[:len(k)-1]
				d.Faults = append(d.Faults, f)
				f = DiskFault{Op: op, Nth: f.Nth + 1, Kind: k[r.N(len(k))], Arg: r.N(5000)}
			}
		}
		d.Faults = append(d.Faults, f)
	}
	if r.Chance(1, 8) {
		d.Cap = 1 + r.N(9000)
	}
	sc.Disk = d
	return sc
}

func clean(r Result) bool { return len(r.Msgs) == 0 }

// judgeFiles follows the disk and judges every operation on it.
func judgeFiles(sc *Scenario, h *Hist) *Violation {
	before := map[string]string{}
	for n, x := range sc.Disk.Files {
		before[n] = unhex(x)
	}
	_, readonly := before["ro"]
	for i := range h.Reports {
		p := &h.Reports[i]
		if !p.OnDisk {
			continue
		}
		old, exists := before[p.Name]
		exists = exists || p.Name == "sub"
		for n, x := range before {
			now, ok := p.Files[n]
			if (n != p.Name || p.What != "w") && (!ok || now != x) {
				return viol("other file changed", "operation %d, %v, changes %q", i, p, n)
			}
		}
		r := p.Result
		faulted := len(p.Faults) > 0
		ok := clean(r) && r.Val == "b1"
		got := r.Val
		if p.What == "g" {
			v, err := parseVal(&toks{t: strings.Fields(r.Val)})
			if err != nil {
				return viol("wrong result", "operation %d, %v, gives %s", i, p, r.Val)
			}
			got = str("").text()
			if t := v.M["text"]; t != nil {
				got = t.text()
			}
		}
		switch p.What {
		case "w":
			bad := p.Name == "sub" || strings.HasPrefix(p.Name, "none/") || p.Name == "ro" && readonly
			if r.Val == "b1" && p.Files[p.Name] != p.Text {
				return viol("wrong content", "operation %d, %v, reports success but the file contains %s (faults %v)", i, p, quote(p.Files[p.Name]), p.Faults)
			}
			if r.Val == "b1" && bad {
				return viol("impossible success", "operation %d, %v, reports success", i, p)
			}
			if !ok && !bad && !faulted {
				return viol("write refused", "operation %d, %v, reports failure although nothing went wrong: %q", i, p, r.Msgs)
			}
		case "r", "g":
			bad := !exists || p.Name == "sub"
			if clean(r) && bad {
				return viol("failure hidden", "operation %d, %v, which cannot be read, gives %s without an error message", i, p, prettyText(got))
			}
			if clean(r) && utf8.ValidString(old) && got != str(old).text() {
				return viol("wrong text", "operation %d, %v, gives %s without an error message, the file contains %s (faults %v)", i, p, clip(prettyText(got), 100), quote(old), p.Faults)
			}
			if !clean(r) && !bad && !faulted {
				return viol("read refused", "operation %d, %v, reports failure although nothing went wrong: %q", i, p, r.Msgs)
			}
		case "e":
			if !faulted && (got == "b1") != exists {
				return viol("wrong answer", "operation %d, %v, gives %s", i, p, prettyText(got))
			}
		}
		before = p.Files
	}
	return nil
}

// judgePermissions: nothing guarded runs for a user who may not do it, and
// everything runs for one who may.
func judgePermissions(sc *Scenario, h *Hist) *Violation {
	may := map[string]map[string]bool{}
	for _, t := range sc.Tasks {
		m := map[string]bool{}
		for _, a := range t.Allow {
			m[a] = true
		}
		may[t.Args[0].S] = m
	}
	before := map[string]string{}
	for n, x := range sc.Disk.Files {
		before[n] = unhex(x)
	}
	ran := 0
	for i := range h.Reports {
		p := &h.Reports[i]
		user := may[p.Who]
		runs := h.Notes[ran:p.Ran]
		ran = p.Ran
		need := map[string][]string{"w": {permWrite}, "r": {permRead}, "g": {permFile, permRead}, "q": {p.Name}}[p.What]
		allowed := true
		for _, n := range need {
			allowed = allowed && user[n]
		}
		r := p.Result
		if p.What == "q" {
			switch {
			case allowed && len(runs) != 1:
				return viol("allowed but not run", "operation %d by %s, %v, runs the function %d times although it is allowed: %q", i, p.Who, p, len(runs), r.Msgs)
			case allowed && (!clean(r) || r.Val != str(fmt.Sprintf("%s!%d", p.Text, slices.Index(guards, p.Name))).text()):
				return viol("wrong result", "operation %d by %s, %v, gives %s %q", i, p.Who, p, prettyText(r.Val), r.Msgs)
			case !allowed && len(runs) > 0:
				return viol("run without permission", "operation %d by %s, %v, runs the function, which is not allowed", i, p.Who, p)
			case !allowed && clean(r):
				return viol("refusal hidden", "operation %d by %s, %v, is not allowed but gives %s without an error message", i, p.Who, p, prettyText(r.Val))
			}
			continue
		}
		if len(runs) > 0 {
			return viol("run without permission", "operation %d by %s, %v, runs %s", i, p.Who, p, runs[0].Name)
		}
		if !p.OnDisk {
			continue
		}
		if !allowed {
			if len(p.Ops) > 0 {
				return viol("run without permission", "operation %d by %s, %v, is not allowed but does %v", i, p.Who, p, p.Ops)
			}
			if clean(r) {
				return viol("refusal hidden", "operation %d by %s, %v, is not allowed but gives %s without an error message", i, p.Who, p, clip(prettyText(r.Val), 100))
			}
		} else if len(need) > 0 && len(p.Ops) == 0 {
			return viol("allowed but not run", "operation %d by %s, %v, is allowed but does nothing: %q", i, p.Who, p, r.Msgs)
		}
		if !allowed {
			for n, x := range p.Files {
				if y, ok := before[n]; !ok || x != y {
					return viol("run without permission", "operation %d by %s, %v, changes %q", i, p.Who, p, n)
				}
			}
		}
		before = p.Files
	}
	return nil
}

// judgeReports: every operation of the programs was done once.
func judgeReports(x *Expect, h *Hist) *Violation {
	var got, must []string
	for _, p := range h.Reports {
		got = append(got, p.What+" "+p.Name)
	}
	for _, n := range x.Notes {
		must = append(must, n.What+" "+n.Name)
	}
	sort.Strings(got)
	sort.Strings(must)
	if g, m := strings.Join(got, ", "), strings.Join(must, ", "); g != m {
		return viol("operations differ", "the programs did [%s], should be [%s]", g, m)
	}
	return nil
}
