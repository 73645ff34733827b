package main

import (
	"bytes"
	"fmt"
	"syscall"
	"strings"

	"gosim/wire"
)

// ---- C01 reproducible builds

var propC01 = &Prop{ID: "C01", Quick: 1500, Thorough: 40000,
	Rule: "distinct histories of system calls (order, arguments, outcomes) of builds compared with the reference build of the same project",
	Gen: func(r *wire.Rand, seed uint64, idx int) *Scenario {
		full := idx%10 == 9
		p := newProject(r, full)
		sc := &Scenario{Prop: "C01", Seed: seed, Proj: p}
		if !full && r.Chance(1, 3) {
			sc.Kind = "rejected"
			spoil(r, p)
		}
		cmds := p.cmdNames()
		n := 3
		if full {
			cmds = pickCmds(r, p, 1)
			n = 1
		}
		for i := 0; i < n; i++ {
			c := randCfg(r)
			if r.Chance(1, 2) {
				c.Kinds = harmless
				c.Rate = 4000
				c.MaxFaults = 1000
			}
			st := Step{Op: "build", Cmds: cmds, Cfg: c}
			switch r.N(4) {
			case 0:
				st.Cwd = r.Pick([]string{"/w", "/", p.Root})
			case 1: // the same folder by another name
				st.Cwd, st.Path = "/w", p.Root[3:]
			}
			sc.Steps = append(sc.Steps, st)
		}
		return sc
	},
	Judge: func(w *World) error {
		p := w.sc.Proj
		start := w.img
		for i := range w.sc.Steps {
			st := &w.sc.Steps[i]
			ref, err := w.clean(start, st.Cmds)
			if err != nil {
				return err
			}
			w.img = start
			res, err := w.run(st)
			if err != nil {
				return err
			}
			got := res.Procs[0]
			differ := string(got.Stdout) != string(ref.Stdout)
			if st.Path != "" {
				// messages may name the project the way the user did
				differ = (len(got.Stdout) == 0) != (len(ref.Stdout) == 0)
			}
			if got.Exit != ref.Exit || differ {
				w.violate("messages", "two builds of the same sources report different things: %s", diffAt(got.Stdout, ref.Stdout))
				return nil
			}
			dirs := p.dirs(st.Cmds)
			if d := lacks(res.Image, ref.Files); d != "" {
				w.violate("output", "two builds of the same sources differ: %s", d)
				return nil
			}
			for _, q := range res.Image.Paths() {
				if under(q, dirs) && ref.Files[q] == nil {
					w.violate("fileset", "two builds of the same sources differ: %s exists only in one", q)
					return nil
				}
			}
			if ref.Exit == 0 && len(ref.Stdout) == 0 {
				w.note("accepted project")
			} else {
				w.note("rejected project")
			}
		}
		return nil
	}}

// spoil makes a project invalid in one or more places.
func spoil(r *wire.Rand, p *Project) {
	fs := p.editable(p.Img)
	for k := 1 + r.N(3); k > 0 && len(fs) > 0; k-- {
		f := fs[r.N(len(fs))]
		t := string(p.Img[f].Data)
		switch r.N(6) {
		case 0:
			t += "(func bad" + fmt.Sprint(r.N(9)) + " : nosuchtype\n [x : string]\n (string x \"\"))\n"
		case 1:
			t += "(func bad" + fmt.Sprint(r.N(9)) + " : string\n [x : missing y : absent]\n (nofunc x y))\n"
		case 2:
			t += "(type bad : struct\n :properties [a : nowhere b : nothere c : string])\n"
		case 3:
			t += "(func bad : int\n [x : string]\n (+ x \"1\"))\n"
		case 4:
			t += "(func dup : int [x : int] (+ x 1))\n(func dup : int [x : int] (+ x 2))\n"
		case 5:
			t = strings.Replace(t, " :doc", "\n :libs (lib zz :path no/such/pkg)\n :doc", 1)
		}
		put(p.Img, f, t)
	}
}

// ---- C02 interrupted builds

var propC02 = &Prop{ID: "C02", Quick: 1500, Thorough: 60000,
	Rule: "distinct histories of system calls of runs in which at least one build was killed or lost power",
	Gen: func(r *wire.Rand, seed uint64, idx int) *Scenario {
		full := idx%60 == 59
		p := newProject(r, full)
		sc := &Scenario{Prop: "C02", Seed: seed, Proj: p}
		max := 0
		if full {
			max = 2
		}
		cmds := pickCmds(r, p, max)
		img := p.Img
		uniq := 5000
		if !full && r.Chance(1, 2) {
			sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: quietR(r)})
			for k := r.N(3); k > 0; k-- {
				e := genEdit(r, p, img, &uniq)
				img = img.Clone()
				put(img, e.Path, string(e.Text))
				sc.Steps = append(sc.Steps, e)
			}
		}
		for k := 1 + r.N(3); k > 0; k-- {
			c := randCfg(r)
			// where the crash falls is a fraction of the build, made concrete when it runs
			c.CrashOp = r.N(1 << 16)
			c.PowerLoss = r.Chance(2, 3)
			sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: c, Tag: "crash"})
		}
		sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: quietR(r), Tag: "check"})
		if !full && r.Chance(1, 2) {
			e := genEdit(r, p, img, &uniq)
			sc.Steps = append(sc.Steps, e, Step{Op: "build", Cmds: cmds, Cfg: quietR(r), Tag: "check"})
		}
		return sc
	},
	Judge: func(w *World) error {
		for i := range w.sc.Steps {
			st := &w.sc.Steps[i]
			if st.Op != "build" {
				w.apply(st)
				continue
			}
			ref, err := w.clean(w.img, st.Cmds)
			if err != nil {
				return err
			}
			if !w.sound(ref) {
				w.v.Skipped = "the undisturbed build fails"
				return nil
			}
			if st.Tag == "crash" && !st.Cfg.Explicit {
				st.Cfg.CrashOp = st.Cfg.CrashOp * ref.Ops >> 16
			}
			res, err := w.run(st)
			if err != nil {
				return err
			}
			if st.Tag == "crash" {
				if res.Procs[0].Exit == -1 {
					w.note("crashed")
				}
				continue
			}
			if st.Tag == "check" {
				if res.Procs[0].Exit != 0 || len(res.Procs[0].Stdout) > 0 {
					w.violate("rerun-fails", "the build after an interrupted build fails: exit %d, %s%s", res.Procs[0].Exit, tail(string(res.Procs[0].Stdout), 500), res.Procs[0].Panic)
					return nil
				}
				if d := lacks(res.Image, ref.Files); d != "" {
					w.violate("rerun-differs", "the build after an interrupted build leaves wrong output: %s", d)
					return nil
				}
			}
		}
		return nil
	}}

func quietR(r *wire.Rand) wire.Config {
	c := randCfg(r)
	c.Explicit = true
	return c
}

// ---- C03 no silent failure

var allKinds = append(append([]string{}, readKinds...), writeKinds...)

func genFaulty(id string, kinds []string) func(r *wire.Rand, seed uint64, idx int) *Scenario {
	return func(r *wire.Rand, seed uint64, idx int) *Scenario {
		full := idx%80 == 79
		p := newProject(r, full)
		sc := &Scenario{Prop: id, Seed: seed, Proj: p}
		max := 0
		if full {
			max = 2
		}
		cmds := pickCmds(r, p, max)
		img := p.Img
		uniq := 5000
		if !full && r.Chance(1, 2) {
			sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: quietR(r)})
			for k := r.N(3); k > 0; k-- {
				e := genEdit(r, p, img, &uniq)
				img = img.Clone()
				put(img, e.Path, string(e.Text))
				sc.Steps = append(sc.Steps, e)
			}
		}
		for k := 1 + r.N(2); k > 0; k-- {
			c := randCfg(r)
			swarm(r, &c, 600, kinds, p, cmds)
			sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: c, Tag: "faulty"})
		}
		return sc
	}
}

var propC03 = &Prop{ID: "C03", Quick: 3000, Thorough: 120000,
	Rule: "distinct histories of system calls of builds in which at least one fault fired",
	Gen:  genFaulty("C03", allKinds),
	Judge: func(w *World) error {
		for i := range w.sc.Steps {
			st := &w.sc.Steps[i]
			if st.Op != "build" {
				w.apply(st)
				continue
			}
			ref, err := w.clean(w.img, st.Cmds)
			if err != nil {
				return err
			}
			if !w.sound(ref) {
				w.v.Skipped = "the undisturbed build fails"
				return nil
			}
			res, err := w.run(st)
			if err != nil {
				return err
			}
			if res.Limit || errExit(res) {
				w.v.Skipped = "judged by C08"
				return nil
			}
			if res.Procs[0].Exit != 0 || len(res.Procs[0].Stdout) > 0 || len(res.Procs[0].Stderr) > 0 {
				if len(res.Fired) == 0 {
					w.violate("false-alarm", "the build reports an error although no operation failed: %s", tail(string(res.Procs[0].Stdout), 400))
					return nil
				}
				if !names(res) {
					w.violate("unnamed", "the report does not name what failed: %s", tail(string(res.Procs[0].Stdout)+string(res.Procs[0].Stderr), 400))
					return nil
				}
				w.note("reported")
				continue
			}
			if len(res.Fired) > 0 {
				w.note("survived faults")
			}
			if d := lacks(res.Image, ref.Files); d != "" {
				w.violate("silent", "the build reports nothing, but %s", d)
				return nil
			}
		}
		return nil
	}}

// names says whether the report mentions a failed operation: the path it
// acted on or what the system said.
func names(res *wire.Result) bool {
	said := string(res.Procs[0].Stdout) + string(res.Procs[0].Stderr)
	for _, op := range res.Trace {
		if op.Fault == "" {
			continue
		}
		if op.Err > 0 && strings.Contains(said, syscall.Errno(op.Err).Error()) {
			return true
		}
		if b := op.Path[strings.LastIndex(op.Path, "/")+1:]; b != "" && strings.Contains(said, b) {
			return true
		}
	}
	return false
}

// ---- C04 damaged sources

var propC04 = &Prop{ID: "C04", Quick: 3000, Thorough: 120000,
	Rule: "distinct histories of system calls of builds whose sources were cut or could not be read",
	Gen: func(r *wire.Rand, seed uint64, idx int) *Scenario {
		p := newProject(r, idx%80 == 79)
		sc := &Scenario{Prop: "C04", Seed: seed, Proj: p}
		max := 0
		if p.Full {
			max = 1
		}
		cmds := pickCmds(r, p, max)
		img := p.Img
		uniq := 5000
		if r.Chance(2, 3) {
			sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: quietR(r)})
			for k := 1 + r.N(2); k > 0; k-- {
				e := genEdit(r, p, img, &uniq)
				img = img.Clone()
				put(img, e.Path, string(e.Text))
				sc.Steps = append(sc.Steps, e)
			}
		}
		c := randCfg(r)
		src := p.sources(img)
		switch r.N(3) {
		case 0: // cut a source somewhere inside a form
			f := src[r.N(len(src))]
			text := string(img[f].Data)
			for try := 0; try < 20; try++ {
				n := r.N(len(text))
				if _, ok := forms(text[:n]); !ok && n > 0 {
					sc.Steps = append(sc.Steps, Step{Op: "put", Path: f, Text: []byte(text[:n]), Tag: "cut"})
					break
				}
			}
			sc.Kind = "cut"
			c.Explicit = true
		case 1:
			sc.Kind = "bad"
			cand := append([]string{}, src...)
			cand = append(cand, p.natives(img)...)
			for _, d := range img.Paths() {
				if img[d].Kind == 'd' && (d == p.Root || strings.HasPrefix(d, p.Root+"/") || strings.HasPrefix(d, "/w/lib")) && !strings.Contains(d, "/testdata") && !under(d, p.dirs(p.cmdNames())) && d != p.Root+"/build" {
					cand = append(cand, d)
				}
			}
			c.BadPaths = []string{cand[r.N(len(cand))]}
			c.BadErr = []int{5, 13}[r.N(2)]
			c.Explicit = true
		case 2:
			sc.Kind = "read"
			c.Kinds = pickSome(r, readKinds, 3)
			if r.Chance(1, 2) {
				c.Kinds = append(c.Kinds, harmless...)
			}
			c.Rate = []uint32{300, 1500, 6000}[r.N(3)]
			c.MaxFaults = 1 + r.N(3)
			c.SkipOps = r.N(250)
			if r.Chance(1, 2) {
				c.Kinds = readKinds
				c.Rate = 65535
				c.SkipOps = r.N(len(src)*12 + 20)
			}
			c.ReadScope = append(append([]string{}, src...), p.natives(img)...)
			for _, d := range img.Paths() {
				if img[d].Kind == 'd' && (d == p.Root || strings.HasPrefix(d, p.Root+"/") || strings.HasPrefix(d, "/w/lib")) && !strings.Contains(d, "/testdata") && !under(d, p.dirs(p.cmdNames())) && d != p.Root+"/build" {
					c.ReadScope = append(c.ReadScope, "="+d)
				}
			}
			c.WriteScope = []string{"/nowhere"}
		}
		sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: c, Tag: "damaged"})
		return sc
	},
	Judge: func(w *World) error {
		p := w.sc.Proj
		var refB *Clean
		for i := range w.sc.Steps {
			st := &w.sc.Steps[i]
			if st.Op != "build" {
				if st.Tag == "cut" {
					var err error
					if refB, err = w.clean(w.img, p.cmdNames()); err != nil {
						return err
					}
				}
				w.apply(st)
				continue
			}
			if st.Tag != "damaged" {
				if _, err := w.run(st); err != nil {
					return err
				}
				continue
			}
			if w.sc.Kind != "cut" {
				var err error
				if refB, err = w.clean(w.img, st.Cmds); err != nil {
					return err
				}
			}
			if refB == nil || !w.sound(refB) {
				w.v.Skipped = "the undisturbed build fails"
				return nil
			}
			before := w.img
			res, err := w.run(st)
			if err != nil {
				return err
			}
			if res.Limit || errExit(res) {
				w.v.Skipped = "judged by C08"
				return nil
			}
			dirs := p.dirs(p.cmdNames())
			reported := res.Procs[0].Exit != 0 || len(res.Procs[0].Stdout) > 0 || len(res.Procs[0].Stderr) > 0
			if w.sc.Kind == "cut" && !reported {
				w.violate("cut-accepted", "a source that ends inside a form is accepted without any message")
				return nil
			}
			if reported {
				w.note("rejected: " + w.sc.Kind)
				for _, q := range unionPaths(before, res.Image) {
					if !under(q, dirs) {
						continue
					}
					a, b := before[q], res.Image[q]
					if a == nil && b != nil && b.Kind == 'd' {
						continue
					}
					if !same(a, b) {
						w.violate("output-changed", "sources could not be read completely, yet %s was %s", q, change(a, b))
						return nil
					}
				}
				continue
			}
			w.note("harmless: " + w.sc.Kind)
			if d := lacks(res.Image, refB.Files); d != "" {
				w.violate("partial", "output was generated from what could be read of the sources, without any message: %s", d)
				return nil
			}
			// nothing beyond the clean output may appear either
			for _, q := range res.Image.Paths() {
				if under(q, dirs) && before[q] == nil && refB.Files[q] == nil {
					w.violate("partial", "output was generated from what could be read of the sources, without any message: %s appeared", q)
					return nil
				}
			}
		}
		return nil
	}}

func unionPaths(a, b wire.Image) []string {
	u := wire.Image{}
	for k, e := range a {
		u[k] = e
	}
	for k, e := range b {
		u[k] = e
	}
	return u.Paths()
}

func change(a, b *wire.Entry) string {
	switch {
	case a == nil:
		return "created"
	case b == nil:
		return "removed"
	}
	return "changed (" + diffAt(b.Data, a.Data) + ")"
}

// ---- C05 histories of edits and builds

var propC05 = &Prop{ID: "C05", Quick: 1000, Thorough: 40000,
	Rule: "distinct histories of system calls of multi-step edit/build histories",
	Gen: func(r *wire.Rand, seed uint64, idx int) *Scenario {
		full := idx%90 == 89
		p := newProject(r, full)
		sc := &Scenario{Prop: "C05", Seed: seed, Proj: p}
		img := p.Img
		uniq := 5000
		n := 3 + r.N(6)
		max := 0
		if full {
			n, max = 2, 1
		}
		cmds := pickCmds(r, p, max)
		edit := func(e Step) {
			img = img.Clone()
			if e.Op == "put" {
				put(img, e.Path, string(e.Text))
			}
			sc.Steps = append(sc.Steps, e)
		}
		for i := 0; i < n; i++ {
			for k := r.N(3); k > 0; k-- {
				switch r.N(8) {
				case 0, 1, 2, 3:
					edit(genEdit(r, p, img, &uniq))
				case 4, 5:
					sc.Steps = append(sc.Steps, Step{Op: "tamper", Cfg: wire.Config{Seed: r.U64()}})
				case 6:
					edit(Step{Op: "put", Path: p.Root + "/testdata/" + r.Pick(words) + ".txt", Text: []byte(strings.Repeat(r.Pick(words), r.N(50)))})
				case 7:
					l := r.Pick(langs)
					if fs := p.editable(img); len(fs) > 0 && l != "cpp" {
						f := fs[r.N(len(fs))]
						edit(Step{Op: "put", Path: strings.TrimSuffix(f, ".vxlisp") + "_" + l + ".txt", Text: []byte("\n  // native " + r.Pick(words) + "\n")})
					}
				}
			}
			if !full && r.Chance(1, 3) {
				cmds = pickCmds(r, p, 0)
			}
			sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: quietR(r)})
		}
		return sc
	},
	Judge: func(w *World) error {
		p := w.sc.Proj
		for i := range w.sc.Steps {
			st := &w.sc.Steps[i]
			switch st.Op {
			case "tamper":
				w.tamper(st)
				continue
			case "build":
			default:
				w.apply(st)
				continue
			}
			ref, err := w.clean(w.img, st.Cmds)
			if err != nil {
				return err
			}
			if !w.sound(ref) {
				w.v.Skipped = "the undisturbed build fails"
				return nil
			}
			before := w.img
			res, err := w.run(st)
			if err != nil {
				return err
			}
			if res.Procs[0].Exit != 0 || len(res.Procs[0].Stdout) > 0 {
				w.violate("rebuild-fails", "rebuilding fails where a clean build succeeds: exit %d %s%s", res.Procs[0].Exit, tail(string(res.Procs[0].Stdout), 400), res.Procs[0].Panic)
				return nil
			}
			if d := lacks(res.Image, ref.Files); d != "" {
				w.violate("stale", "after a successful rebuild %s", d)
				return nil
			}
			touched := map[string]bool{}
			for _, op := range res.Writes {
				touched[op.Path] = true
			}
			for _, q := range ref.Files.Paths() {
				if ref.Files[q].Kind != 'f' || isResource(p, q) {
					continue
				}
				if b := before[q]; same(b, ref.Files[q]) {
					a := res.Image[q]
					if touched[q] || a.Mtime != b.Mtime || a.Ino != b.Ino {
						w.violate("rewritten", "%s already had the right content and was written again", q)
						return nil
					}
					w.note("left alone")
				} else {
					w.note("brought up to date")
				}
			}
		}
		return nil
	}}

func isResource(p *Project, q string) bool { return strings.Contains(q, "/resources/") }

// tamper damages generated files.
func (w *World) tamper(st *Step) {
	r := wire.NewRand(st.Cfg.Seed)
	im := w.img.Clone()
	dirs := w.sc.Proj.dirs(w.sc.Proj.cmdNames())
	var fs []string
	for _, q := range im.Paths() {
		if under(q, dirs) && im[q].Kind == 'f' {
			fs = append(fs, q)
		}
	}
	for k := 1 + r.N(4); k > 0 && len(fs) > 0; k-- {
		q := fs[r.N(len(fs))]
		if im[q] == nil {
			continue
		}
		e := *im[q]
		d := append([]byte{}, e.Data...)
		switch r.N(13) {
		case 0:
			delete(im, q)
			continue
		case 1:
			d = nil
		case 2:
			if len(d) > 0 {
				d = d[:r.N(len(d))]
			}
		case 3:
			d = append(d, "\n// tampered"...)
		case 4: // same size
			if len(d) > 0 {
				d[r.N(len(d))] ^= 1
			}
		case 5: // whole folder gone
			dir := q[:strings.LastIndex(q, "/")]
			for x := range im {
				if strings.HasPrefix(x, dir+"/") {
					delete(im, x)
				}
			}
			continue
		case 6: // newer than anything
			e.Mtime = 4000000000e9
			if len(d) > 0 {
				d[len(d)/2] ^= 4
			}
		case 7: // white space only
			d = append(d, '\n')
		case 8: // line ends of another system
			d = bytes.ReplaceAll(d, []byte("\n"), []byte("\r\n"))
		case 9: // letter case
			if r.Chance(1, 2) {
				d = bytes.ToUpper(d)
			} else {
				for i := range d {
					if at := (i + 7) % len(d); d[at] >= 'a' && d[at] <= 'z' {
						d[at] -= 32
						break
					}
				}
			}
		case 10: // byte order mark
			d = append([]byte("\xef\xbb\xbf"), d...)
		case 11: // indentation, blank lines
			if r.Chance(1, 2) {
				d = bytes.ReplaceAll(d, []byte("\n  "), []byte("\n\t"))
			} else {
				d = bytes.ReplaceAll(d, []byte("\n\n"), []byte("\n"))
			}
		case 12: // two pieces change places
			if len(d) > 8 {
				k := 1 + r.N(len(d)-1)
				d = append(append([]byte{}, d[k:]...), d[:k]...)
			}
		}
		e.Data = d
		im[q] = &e
	}
	w.img = im
	w.trace = append(w.trace, "tamper with generated files")
}

// ---- C06 containment

var propC06 = &Prop{ID: "C06", Quick: 3000, Thorough: 120000,
	Rule: "distinct histories of system calls of builds whose whole disk was compared before and after",
	Gen: func(r *wire.Rand, seed uint64, idx int) *Scenario {
		full := idx%80 == 79
		p := newProject(r, full)
		sc := &Scenario{Prop: "C06", Seed: seed, Proj: p}
		max := 0
		if full {
			max = 2
		}
		if !full && r.Chance(1, 2) {
			// links in the resources, pointing anywhere
			t := []string{"/etc/passwd", "../../other/keep.txt", "/w/other", "/w/other", "f0.txt", "nowhere", "/w/other/new.txt"}[r.N(7)]
			link(p.Img, p.Root+"/testdata/"+r.Pick(words)+"lnk", t)
		}
		img := p.Img
		uniq := 5000
		for k := 1 + r.N(3); k > 0; k-- {
			c := quietR(r)
			cmds := pickCmds(r, p, max)
			switch r.N(4) {
			case 0:
				c.Explicit = false
				swarm(r, &c, 600, allKinds, p, cmds)
			case 1:
				c.Explicit = false
				c.CrashOp = r.N(900)
			}
			sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: c})
			if full {
				break
			}
			if r.Chance(1, 3) {
				e := genEdit(r, p, img, &uniq)
				img = img.Clone()
				put(img, e.Path, string(e.Text))
				sc.Steps = append(sc.Steps, e)
			}
			if r.Chance(1, 3) {
				// a link in the resources becomes a file, or the reverse
				for _, q := range img.Paths() {
					if strings.Contains(q, "/testdata/") && img[q].Kind == 'l' && r.Chance(1, 2) {
						img = img.Clone()
						if r.Chance(1, 2) {
							// a folder of that name
							delete(img, q)
							sc.Steps = append(sc.Steps, Step{Op: "remove", Path: q})
							q += "/" + r.Pick([]string{"keep.txt", "fresh.txt"})
						}
						put(img, q, "now a file "+r.Pick(words))
						sc.Steps = append(sc.Steps, Step{Op: "put", Path: q, Text: img[q].Data})
					} else if strings.Contains(q, "/testdata/") && img[q].Kind == 'f' && r.Chance(1, 6) {
						img = img.Clone()
						t := []string{"/etc/passwd", "/w/other/keep.txt", "/w/other/new2.txt"}[r.N(3)]
						delete(img, q)
						link(img, q, t)
						sc.Steps = append(sc.Steps, Step{Op: "link", Path: q, Text: []byte(t)})
					}
				}
			}
		}
		return sc
	},
	Judge: func(w *World) error {
		p := w.sc.Proj
		for i := range w.sc.Steps {
			st := &w.sc.Steps[i]
			if st.Op != "build" {
				w.apply(st)
				continue
			}
			before := w.img
			res, err := w.run(st)
			if err != nil {
				return err
			}
			dirs := p.dirs(st.Cmds)
			log := p.Cwd + "/build.log"
			ok := func(q string) bool { return q == log || under(q, dirs) }
			for _, q := range unionPaths(before, res.Image) {
				if ok(q) {
					continue
				}
				a, b := before[q], res.Image[q]
				if a == nil && b != nil && b.Kind == 'd' {
					parent := false
					for _, d := range dirs {
						if strings.HasPrefix(d, q+"/") {
							parent = true
						}
					}
					if parent {
						continue
					}
				}
				if !same(a, b) {
					w.violate("outside", "building %v %s %s, which is outside the target folders", st.Cmds, map[bool]string{true: "removed", false: "changed"}[b == nil], q)
					return nil
				}
				if a.Mode != b.Mode {
					w.violate("outside-mode", "building %v changed the permissions of %s, which is outside the target folders", st.Cmds, q)
					return nil
				}
			}
			for _, op := range res.Writes {
				if before[op.Path] != nil && !ok(op.Path) {
					w.violate("outside-write", "building %v performed %s on %s, which is outside the target folders", st.Cmds, op.Name, op.Path)
					return nil
				}
			}
			w.note(fmt.Sprintf("exit %d", res.Procs[0].Exit))
		}
		return nil
	}}

// ---- C07 independence of commands

var propC07 = &Prop{ID: "C07", Quick: 1800, Thorough: 50000,
	Rule: "distinct histories (interleavings) of system calls of builds running together, in other orders, or beside a failing command",
	Gen: func(r *wire.Rand, seed uint64, idx int) *Scenario {
		full := idx%100 == 99
		p := newProject(r, full)
		sc := &Scenario{Prop: "C07", Seed: seed, Proj: p}
		max := 0
		if full {
			max = 3
		}
		c := randCfg(r)
		switch r.N(3) {
		case 0:
			sc.Kind = "order"
			c.Explicit = true
			for k := 2; k > 0; k-- {
				cmds := pickCmds(r, p, max)
				if r.Chance(1, 4) && !full {
					cmds = append(cmds, cmds[r.N(len(cmds))])
				}
				sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: c})
				if full {
					break
				}
			}
		case 1:
			sc.Kind = "pair"
			c.YieldRate = []uint32{2000, 20000, 65535}[r.N(3)]
			a := pickCmds(r, p, max)
			b := pickCmds(r, p, max)
			if r.Chance(1, 3) && !full {
				sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: a, Cfg: quietR(r)}, Step{Op: "tamper", Cfg: wire.Config{Seed: r.U64()}})
			}
			if r.Chance(1, 4) {
				c.CrashOp = r.N(900)
			}
			for _, x := range a {
				if contains(b, x) {
					// both replace the same link: whoever comes second may find it gone
					for q, e := range p.Img {
						if e.Kind == 'l' {
							delete(p.Img, q)
						}
					}
				}
			}
			sc.Steps = append(sc.Steps, Step{Op: "pair", Cmds: a, Cmd2: b, Cfg: c})
		case 2:
			sc.Kind = "failing"
			cmds := pickCmds(r, p, max)
			c.Explicit = true
			c.BadErr = []int{5, 13, 28, 30}[r.N(4)]
			bad := cmds[r.N(len(cmds))]
			c.BadPaths = p.dirs([]string{bad})
			sc.Steps = append(sc.Steps, Step{Op: "build", Cmds: cmds, Cfg: c, Tag: bad})
		}
		return sc
	},
	Judge: func(w *World) error {
		start := w.img
		for i := range w.sc.Steps {
			st := &w.sc.Steps[i]
			if st.Op == "tamper" {
				w.tamper(st)
				continue
			}
			res, err := w.run(st)
			if err != nil {
				return err
			}
			if res.Limit || res.Procs[0].Exit == -2 {
				w.v.Skipped = "judged by C08"
				return nil
			}
			for pi, cmds := range [][]string{st.Cmds, st.Cmd2} {
				if pi >= len(res.Procs) {
					break
				}
				if res.Procs[pi].Exit == -1 {
					w.note("killed beside another build")
					continue
				}
				shared := map[string]bool{}
				if len(res.Procs) > 1 && res.Procs[1-pi].Exit == -1 {
					for _, c := range [][]string{st.Cmd2, st.Cmds}[pi] {
						shared[c] = true
					}
				}
				failing := st.Tag != "" && contains(cmds, st.Tag)
				said := res.Procs[pi].Exit != 0 || len(res.Procs[pi].Stdout) > 0
				if said && !failing {
					if len(shared) > 0 {
						continue
					}
					for _, c := range cmds {
						ref, err := w.clean(start, []string{c})
						if err != nil {
							return err
						}
						if !w.sound(ref) {
							w.v.Skipped = "the undisturbed build fails"
							return nil
						}
					}
					w.violate("fails-together", "building %v reports an error that building each alone does not: %s", cmds, tail(string(res.Procs[pi].Stdout), 400))
					return nil
				}
				for _, c := range cmds {
					ref, err := w.clean(start, []string{c})
					if err != nil {
						return err
					}
					if !w.sound(ref) {
						w.v.Skipped = "the undisturbed build fails"
						return nil
					}
					if shared[c] {
						// another build of the same command died half way: it may have
						// cut a file after this one had found it right
						continue
					}
					if failing && c == st.Tag {
						if !said && len(ref.Files) > 1 {
							w.violate("failure-hidden", "%s could not write its output and nothing was reported", c)
							return nil
						}
						w.note("failed beside others")
						continue
					}
					if d := lacks(res.Image, ref.Files); d != "" {
						w.violate("influenced", "output of %s depends on what ran with it (%v %v): %s", c, st.Cmds, st.Cmd2, d)
						return nil
					}
					w.note("compared with running alone: " + w.sc.Kind)
				}
			}
		}
		return nil
	}}

func contains(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// ---- C08 never crashes or hangs

var propC08 = &Prop{ID: "C08", Quick: 3000, Thorough: 120000,
	Rule: "distinct histories of system calls of builds in which at least one fault fired",
	Gen: func(r *wire.Rand, seed uint64, idx int) *Scenario {
		sc := genFaulty("C08", allKinds)(r, seed, idx)
		last := &sc.Steps[len(sc.Steps)-1]
		switch r.N(6) {
		case 0: // the message log cannot be written
			last.Cfg.Kinds, last.Cfg.Rate, last.Cfg.Quota = nil, 0, -1
			last.Cfg.BadPaths = []string{sc.Proj.Cwd + "/build.log"}
			last.Cfg.BadErr = []int{5, 13, 28, 30}[r.N(4)]
		case 1: // everything below one folder is out of reach
			last.Cfg.Kinds, last.Cfg.Rate, last.Cfg.Quota = nil, 0, -1
			last.Cfg.BadPaths = []string{[]string{sc.Proj.Root, "/w/lib", "/w", sc.Proj.Cwd, sc.Proj.Root + "/testdata"}[r.N(5)]}
			last.Cfg.BadErr = []int{5, 13, 28, 30}[r.N(4)]
		case 2: // most operations fail
			last.Cfg.Kinds, last.Cfg.Rate, last.Cfg.MaxFaults, last.Cfg.Quota = append(append([]string{}, allKinds...), harmless...), 30000, 1<<20, -1
			last.Cfg.BadPaths = nil
		}
		return sc
	},
	Judge: func(w *World) error {
		for i := range w.sc.Steps {
			st := &w.sc.Steps[i]
			if st.Op != "build" {
				w.apply(st)
				continue
			}
			ref, err := w.clean(w.img, st.Cmds)
			if err != nil {
				return err
			}
			if !w.sound(ref) {
				w.v.Skipped = "the undisturbed build fails"
				return nil
			}
			res, err := w.run(st)
			if err == errHang {
				w.violate("hang", "the build never ends")
				return nil
			}
			if err != nil {
				return err
			}
			if errExit(res) {
				w.violate("crash", "the build dies: %s", tail(res.Procs[0].Panic, 1500))
				return nil
			}
			if res.Limit || res.Procs[0].Ops > 20*ref.Ops+5000 {
				w.violate("hang", "the build performs %d operations where %d suffice", res.Procs[0].Ops, ref.Ops)
				return nil
			}
			w.note(fmt.Sprintf("exit %d", res.Procs[0].Exit))
		}
		return nil
	}}
