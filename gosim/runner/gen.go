package main

import (
	"fmt"
	"sort"
	"strings"

	"gosim/wire"
)

// Cmd is one command of a generated project.
type Cmd struct {
	Name string
	Code string // :source :test :doc
	Lang string
	Path string   // as written in project.vxlisp
	Dirs []string // absolute folders it may write to
}

// Project is a generated project on a disk image.
type Project struct {
	Root string
	Cwd  string
	Img  wire.Image
	Cmds []Cmd
	Full bool // uses the repository's own library
}

const liteCore = `(package vx/core
 :doc "core")
(type any :doc "any")
(type type)
(type typelist : list :allowtypes [type])
(type boolean :default false :allowvalues [true false])
(type number)
(type int)
(type float)
(type string)
(type list)
(type map)
(type struct)
(type func)
(type const)
(type none)
(type package)
(type anylist : list :allowtypes [any])
(type stringlist : list :allowtypes [string])
(type intlist : list :allowtypes [int])
(type stringmap : map :allowtypes [string])
(type intmap : map :allowtypes [int])
(type arg : struct :properties [name : string argtype : any])
(type arglist : list :allowtypes [arg])
(type context : struct :properties [code : string])
(const true : boolean)
(const false : boolean)
(func any<-func : any-1)
(func any<-any : any-1 [value : any-2])
(func new : any-1 [type : any-1 values : anylist :...])
(func let : any-1 [args : arglist fn-any : any<-func])
(func fn : any-1 [parameters : arglist fn-any : any<-func])
(func native : any [clauses : anylist :...])
(func empty : any-1 [type : any-1])
(func length : int [text : string])
(func + : int [num1 : int num2 : int])
(func main : string [args : anylist :...] "x")
`

const liteTest = `(package vx/test
 :doc "test")
(type testresult : struct :properties [passfail : boolean])
(func test : testresult [expected : any actual : any])
`

var langs = []string{"cpp", "csharp", "java", "js", "kotlin", "swift"}

func put(im wire.Image, path, text string) {
	mkParents(im, path)
	im[path] = &wire.Entry{Path: path, Kind: 'f', Mode: 0644, Mtime: 1e18, Data: []byte(text)}
}

func mkdir(im wire.Image, path string) {
	mkParents(im, path)
	if im[path] == nil {
		im[path] = &wire.Entry{Path: path, Kind: 'd', Mode: 0755, Mtime: 1e18}
	}
}

func mkParents(im wire.Image, path string) {
	for k := strings.LastIndex(path, "/"); k > 0; k = strings.LastIndex(path[:k], "/") {
		d := path[:k]
		if im[d] == nil {
			im[d] = &wire.Entry{Path: d, Kind: 'd', Mode: 0755, Mtime: 1e18}
		}
	}
}

func link(im wire.Image, path, target string) {
	mkParents(im, path)
	im[path] = &wire.Entry{Path: path, Kind: 'l', Mode: 0777, Mtime: 1e18, Data: []byte(target)}
}

var words = []string{"alpha", "beta", "gamma", "delta", "omega", "sun", "moon", "tree", "river", "stone", "cloud", "leaf"}

// genForms draws the forms of one package. known carries the names usable
// without a library prefix: struct types of this package.
func genForms(r *wire.Rand, pkg string, n int, uniq *int) []string {
	var out []string
	var structs [][3]string // name, string property, int property
	var intfuncs, strfuncs []string
	doc := func() string {
		switch r.N(5) {
		case 0:
			return ""
		case 1:
			return ` :doc "` + r.Pick(words) + " & <" + r.Pick(words) + `> 'q' \t"`
		case 2:
			return "\n :doc \"" + r.Pick(words) + "\n  " + r.Pick(words) + "\""
		}
		return ` :doc "` + r.Pick(words) + " " + r.Pick(words) + `"`
	}
	for i := 0; i < n; i++ {
		*uniq++
		id := fmt.Sprintf("%s%d", r.Pick(words), *uniq)
		switch r.N(13) {
		case 0:
			a, b := "p"+r.Pick(words), "q"+r.Pick(words)
			extra := ""
			if len(structs) > 0 && r.Chance(1, 2) {
				extra = " sub : " + structs[r.N(len(structs))][0]
			}
			out = append(out, fmt.Sprintf("(type %s : struct\n :properties\n  [%s : string\n   %s : int%s]%s)", id, a, b, extra, doc()))
			structs = append(structs, [3]string{id, a, b})
		case 1:
			el := "string"
			if len(structs) > 0 {
				el = structs[r.N(len(structs))][0]
			}
			out = append(out, fmt.Sprintf("(type %slist : list\n :allowtypes [%s]%s)", id, el, doc()))
		case 2:
			el := "int"
			if len(structs) > 0 {
				el = structs[r.N(len(structs))][0]
			}
			out = append(out, fmt.Sprintf("(type %smap : map\n :allowtypes [%s]%s)", id, el, doc()))
		case 3:
			out = append(out, fmt.Sprintf("(const %s : int\n %d%s)", id, r.N(100), doc()))
		case 4:
			out = append(out, fmt.Sprintf("(const %s : string\n \"%s\"%s)", id, r.Pick(words), doc()))
		case 5, 6:
			t := ""
			if r.Chance(2, 3) {
				t = fmt.Sprintf("\n :test (test \"ay\" (%s \"a\"))", id)
			}
			out = append(out, fmt.Sprintf("(func %s : string\n [x : string]\n (string x \"%s\")%s%s)", id, r.Pick(words), t, doc()))
			strfuncs = append(strfuncs, id)
		case 7:
			t := ""
			if r.Chance(2, 3) {
				t = fmt.Sprintf("\n :test (test 5 (%s 2 3))", id)
			}
			out = append(out, fmt.Sprintf("(func %s : int\n [a : int\n  b : int]\n (+ a b)%s%s)", id, t, doc()))
			intfuncs = append(intfuncs, id)
		case 8:
			if len(structs) == 0 {
				continue
			}
			s := structs[r.N(len(structs))]
			out = append(out, fmt.Sprintf("(func %s : %s\n [x : string]\n (%s\n  :%s x\n  :%s %d)%s)", id, s[0], s[0], s[1], s[2], r.N(9), doc()))
		case 9:
			// two functions of one name
			out = append(out, fmt.Sprintf("(func %s : string\n [x : string]\n (string x \"\")%s)", id, doc()))
			out = append(out, fmt.Sprintf("(func %s : int\n [x : int]\n (+ x %d)%s)", id, r.N(9), doc()))
		case 10:
			out = append(out, fmt.Sprintf("(func %s : int\n [a : int]\n (let : int\n  [c : int := (+ a %d)\n   d : int := (+ c 2)]\n  (+ c d))%s)", id, r.N(9), doc()))
			if len(intfuncs) > 0 && r.Chance(1, 2) {
				f := intfuncs[r.N(len(intfuncs))]
				out = append(out, fmt.Sprintf("(func %sx : int\n [a : int]\n (%s a (%s 1 a))%s)", id, f, f, doc()))
			}
		case 11:
			cl := ""
			for _, l := range langs {
				if cl == "" || r.Chance(1, 2) {
					cl += "\n  :" + l + " \"" + l + "_" + r.Pick(words) + "(a);\""
				}
			}
			out = append(out, fmt.Sprintf("(func %s : int\n [a : int]\n (native%s)%s)", id, cl, doc()))
		case 12:
			if len(strfuncs) == 0 {
				continue
			}
			f := strfuncs[r.N(len(strfuncs))]
			out = append(out, fmt.Sprintf("(func %s : string\n [x : string y : string]\n (string (%s x) (%s y) \"-\")%s)", id, f, f, doc()))
		}
	}
	_ = pkg
	return out
}

// genLite draws a small project with its own miniature core library.
func genLite(r *wire.Rand) *Project {
	p := &Project{Root: "/w/p", Cwd: "/w/cwd", Img: wire.Image{}}
	im := p.Img
	switch r.N(5) {
	case 0:
		p.Root = "/w/my proj"
	case 1:
		p.Root = "/w/a/b.c/p"
	case 2:
		p.Cwd = p.Root
	case 3:
		p.Cwd = "/w"
	}
	mkdir(im, p.Cwd)
	mkdir(im, p.Root)
	// things that are none of the build's business
	put(im, "/w/other/keep.txt", "keep")
	put(im, "/w/out-keep/doc.html", "keep")
	put(im, "/etc/passwd", "root:x:0:0")
	put(im, "/home/u/project.vxlisp", "(project z)")
	mkdir(im, "/tmp")

	coreRoot := p.Root
	sub := ""
	if r.Chance(1, 4) {
		coreRoot = "/w/lib"
		sub = "\n :projects /w/lib"
		put(im, "/w/lib/project.vxlisp", "(project lib\n :version \"1\"\n :author \"L\"\n :doc \"lib\"\n :javadomain \"com.lib\")\n")
		for k := r.N(4); k > 0; k-- {
			put(im, fmt.Sprintf("/w/lib/testdata/lib/%s%d.txt", r.Pick(words), k), "lib data "+r.Pick(words))
		}
	}
	put(im, coreRoot+"/vx/core.vxlisp", liteCore)
	put(im, coreRoot+"/vx/test.vxlisp", liteTest)
	uniq := 0
	npkg := 1 + r.N(4)
	var pkgs []string
	firstFunc := ""
	for i := 0; i < npkg; i++ {
		dir := []string{"a", "b", "a/x", "z"}[r.N(4)]
		name := fmt.Sprintf("%s/%s%d", dir, r.Pick(words), i)
		forms := genForms(r, name, 2+r.N(9), &uniq)
		root := p.Root
		if sub != "" && r.Chance(1, 3) {
			root = "/w/lib"
		}
		libs := ""
		if len(pkgs) > 0 && root == p.Root && r.Chance(1, 2) {
			q := pkgs[r.N(len(pkgs))]
			libs = fmt.Sprintf("\n :libs (lib l%d :path %s)", i, q)
		}
		text := fmt.Sprintf("(package %s%s\n :doc \"pkg %s\")\n\n%s\n", name, libs, name, strings.Join(forms, "\n\n"))
		put(im, root+"/"+name+".vxlisp", text)
		pkgs = append(pkgs, name)
		if firstFunc == "" {
			for _, f := range forms {
				if strings.HasPrefix(f, "(func ") {
					firstFunc = name + "/" + strings.Fields(f)[1]
					break
				}
			}
		}
		for _, l := range langs {
			if r.Chance(1, 6) {
				body := "\n  // extra " + l + " " + r.Pick(words) + "\n"
				if l == "cpp" {
					body = "\n// :headerfirst\n  // first\n// :headertype\n// :headerfunc\n// :header\n  int h" + r.Pick(words) + ";\n// :body\n  // extra " + r.Pick(words) + "\n"
				} else if r.Chance(1, 2) {
					body = "\n// :header\n  int h" + l + ";\n// :body\n  // extra " + l + " " + r.Pick(words) + "\n"
				}
				put(im, root+"/"+name+"_"+l+".txt", body)
			}
		}
	}
	if r.Chance(2, 3) {
		n := 1 + r.N(4)
		for i := 0; i < n; i++ {
			put(im, fmt.Sprintf("%s/testdata/%s/f%d.txt", p.Root, r.Pick(words), i), strings.Repeat(r.Pick(words)+"\n", 1+r.N(40)))
		}
		if r.Chance(1, 3) {
			put(im, p.Root+"/testdata/big.bin", strings.Repeat("\x00\x01binary\xff", 4000+r.N(4000)))
		}
		if r.Chance(1, 4) {
			mkdir(im, p.Root+"/testdata/emptydir")
		}
		if r.Chance(1, 6) {
			link(im, p.Root+"/testdata/link", "f0.txt")
		}
		if r.Chance(1, 5) {
			put(im, p.Root+"/testdata/run.sh", "#!/bin/sh\n")
			im[p.Root+"/testdata/run.sh"].Mode = 0755
		}
	}
	// commands
	out := "/w/out"
	rel := "../out"
	switch {
	case p.Root == "/w/a/b.c/p":
		rel = "../../../out"
	}
	if r.Chance(1, 6) {
		out, rel = p.Root+"/build", "build"
	}
	paths := ""
	if r.Chance(1, 5) {
		paths = "\n :paths\n  (path outdir :path " + rel + ")"
		rel = "*outdir*"
	}
	add := func(name, code, lang, sub string) {
		c := Cmd{Name: name, Code: code, Lang: lang, Path: rel + "/" + sub, Dirs: []string{out + "/" + sub}}
		if code == ":test" {
			switch lang {
			case "cpp":
				k := strings.LastIndex(c.Dirs[0], "/")
				c.Dirs = append(c.Dirs, c.Dirs[0][:k]+"/test/resources")
			case "java":
				if strings.HasSuffix(sub, "/java") {
					k := strings.LastIndex(c.Dirs[0], "/")
					c.Dirs = append(c.Dirs, c.Dirs[0][:k]+"/resources")
				}
			}
		}
		p.Cmds = append(p.Cmds, c)
	}
	if r.Chance(3, 4) {
		add("doc", ":doc", "", []string{"doc", "d/e/doc"}[r.N(2)])
	}
	order := append([]string{}, langs...)
	for i := len(order) - 1; i > 0; i-- {
		j := r.N(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	for _, l := range order[:2+r.N(3)] {
		if l != "swift" && r.Chance(3, 4) {
			add("src"+l, ":source", l, l+"/src/main/"+l)
		}
		if r.Chance(2, 3) {
			add("test"+l, ":test", l, l+"/src/test/"+l)
		}
	}
	if n := len(p.Cmds); n > 0 && r.Chance(1, 4) {
		// a second command for the same language into another folder
		c := p.Cmds[r.N(n)]
		add(c.Name+"b", c.Code, c.Lang, "second"+c.Lang+"/src/"+strings.Trim(c.Code, ":")+"/"+c.Lang+"x")
	}
	if len(p.Cmds) == 0 {
		add("doc", ":doc", "", "doc")
	}
	main := ""
	if firstFunc != "" && r.Chance(2, 3) {
		main = " :main " + firstFunc
	}
	cmds := ""
	for _, c := range p.Cmds {
		cmds += "\n  (cmd " + c.Name + " :code " + c.Code
		if c.Lang != "" {
			cmds += " :lang :" + c.Lang
		}
		cmds += " :path " + c.Path
		if c.Code == ":source" {
			cmds += main
		}
		cmds += ")"
	}
	put(im, p.Root+"/project.vxlisp", "(project q\n :version \"0.6\"\n :author \"V\"\n :doc \"q\"\n :javadomain \"com.q\""+sub+paths+"\n :cmds"+cmds+"\n)\n")
	return p
}

func (p *Project) cmdNames() []string {
	var out []string
	for _, c := range p.Cmds {
		out = append(out, c.Name)
	}
	return out
}

func (p *Project) args(cmds []string) []string {
	a := append([]string{"vxlisp"}, cmds...)
	return append(a, ":path", p.Root)
}

func (p *Project) dirs(cmds []string) []string {
	m := map[string]bool{}
	for _, c := range p.Cmds {
		for _, n := range cmds {
			if c.Name == n {
				for _, d := range c.Dirs {
					m[d] = true
				}
			}
		}
	}
	var out []string
	for d := range m {
		out = append(out, d)
	}
	sort.Strings(out)
	return out
}
