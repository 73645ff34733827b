package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

var langs = []string{"js", "java", "cpp"}

// Toolchain builds batches of programs with the compiler of the working tree.
type Toolchain struct {
	repo, rt, work string
	vxlisp         string
	mu             sync.Mutex
	core           map[string]string // compiled C++ library files by content
	n              int
}

func run(dir, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	t := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	return b.String(), err
}

func newToolchain(repo, rt, work string) (*Toolchain, error) {
	t := &Toolchain{repo: repo, rt: rt, work: work, vxlisp: work + "/vxlisp", core: map[string]string{}}
	if out, err := run(repo+"/src", "go", "build", "-mod=readonly", "-o", t.vxlisp, "."); err != nil {
		return nil, fmt.Errorf("%v\n%s", err, out)
	}
	return t, nil
}

func copyTree(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0644)
	})
}

// Batch is a set of compiled programs.
type Batch struct {
	Programs []*Program
	dir      string
	// a generated program that its own language rejects
	Broken map[string]string
	cmds   map[string][]string
	env    map[string][]string
}

type buildError struct {
	lang, out string
}

func writeFiles(m map[string]string) error {
	for p, s := range m {
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			return err
		}
	}
	return nil
}

var cxxFlags = []string{"-std=c++20", "-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"}

func (t *Toolchain) build(ps []*Program, want []string) (*Batch, error) {
	t.mu.Lock()
	t.n++
	dir := fmt.Sprintf("%s/b%d", t.work, t.n)
	t.mu.Unlock()
	b := &Batch{Programs: ps, dir: dir, Broken: map[string]string{}, cmds: map[string][]string{}, env: map[string][]string{}}
	if err := copyTree(t.repo+"/dist/vxlisp", dir+"/p"); err != nil {
		return nil, err
	}
	if err := writeFiles(map[string]string{
		dir + "/p/sim/prog_cpp.txt": progCpp,
		dir + "/d/sim_driver.hpp":   driverHpp, dir + "/d/dispatch.cpp": dispatchCpp(ps),
	}); err != nil {
		return nil, err
	}
	if theKit != nil && theKit.Disk {
		so := t.work + "/simio.so"
		t.mu.Lock()
		if t.core[so] == "" {
			if out, err := run(dir, "clang", "-O1", "-w", "-shared", "-fPIC", "-o", so, t.rt+"/simio.c", "-ldl"); err != nil {
				t.mu.Unlock()
				return nil, fmt.Errorf("simulated disk: %v %s", err, clip(out, 2000))
			}
			t.core[so] = so
		}
		t.mu.Unlock()
		// no language setting: what a program writes must not depend on one
		b.env["java"], b.env["cpp"] = []string{"LD_PRELOAD=" + so, "LC_ALL=POSIX"}, []string{"LD_PRELOAD=" + so, "LC_ALL=POSIX"}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var infra error
	for _, lang := range want {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bad, err := t.lang(b, lang)
			mu.Lock()
			defer mu.Unlock()
			if err != nil && infra == nil {
				infra = fmt.Errorf("%s: %w", lang, err)
			}
			if bad != "" {
				b.Broken[lang] = bad
			}
		}()
	}
	wg.Wait()
	return b, infra
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// lang compiles the batch for one language. The first result tells that the
// generated program itself was rejected.
func (t *Toolchain) lang(b *Batch, lang string) (string, error) {
	dir := b.dir
	// one folder per language: the commands may run at the same time
	pdir := dir + "/" + lang + "/p"
	if err := copyTree(dir+"/p", pdir); err != nil {
		return "", err
	}
	if err := os.WriteFile(pdir+"/sim/prog.vxlisp", []byte(source(b.Programs, lang)), 0644); err != nil {
		return "", err
	}
	out, err := run(dir+"/"+lang, t.vxlisp, "src"+lang, "--path", "p")
	gen := map[string]string{"js": "/build/js/src/sim/prog.js", "java": "/build/java/src/main/java/com/vxlisp/sim/Prog.java", "cpp": "/build/cpp/src/main/sim/prog.cpp"}[lang]
	gen = dir + "/" + lang + gen
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		return "", err
	}
	if _, e := os.Stat(gen); err != nil || e != nil {
		return clip("compiling the program text fails: "+out, 2000), nil
	}
	switch lang {
	case "js":
		root := dir + "/js/build/js"
		if err := os.WriteFile(root+"/package.json", []byte(`{"type":"module"}`), 0644); err != nil {
			return "", err
		}
		if out, err := run(root, "node", "--check", gen); err != nil {
			return clip(out, 2000), nil
		}
		b.cmds[lang] = append([]string{"node", t.rt + "/driver.mjs", root + "/src"}, theKit.libs()...)
	case "java":
		src := dir + "/java/build/java/src/main/java"
		cls := dir + "/java/cls"
		if out, err := run(dir, "javac", "-nowarn", "-d", cls, "-sourcepath", src, src+"/com/vxlisp/vx/Core.java"); err != nil {
			return "", fmt.Errorf("core: %v %s", err, clip(out, 2000))
		}
		// the program with a stand-in for the leaf class, which it calls
		args := []string{"-nowarn", "-XDignore.symbol.file", "-d", cls, "-cp", cls, "-sourcepath", src + ":" + t.rt + "/java", gen, t.rt + "/java/sim/Driver.java"}
		for _, lib := range theKit.libs() {
			args = append(args, src+"/"+strings.ReplaceAll(javaClass(lib), ".", "/")+".java")
		}
		out, err := run(dir, "javac", args...)
		if err != nil {
			if strings.Contains(out, "/com/vxlisp/sim/Prog.java:") {
				return clip(out, 2000), nil
			}
			return "", fmt.Errorf("driver: %v %s", err, clip(out, 2000))
		}
		b.cmds[lang] = []string{"java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss16m", "-cp", cls, "sim.Driver", "com.vxlisp.sim.Prog", "com.vxlisp.vx.Core"}
		for _, lib := range theKit.libs() {
			b.cmds[lang] = append(b.cmds[lang], javaClass(lib))
		}
	case "cpp":
		src := dir + "/cpp/build/cpp/src/main"
		inc := []string{"-I" + src, "-I" + dir + "/d"}
		obj := dir + "/cpp/obj"
		if err := os.MkdirAll(obj, 0755); err != nil {
			return "", err
		}
		type job struct {
			src, obj string
			out      string
			err      error
		}
		jobs := []*job{
			{src: gen, obj: obj + "/prog.o"},
			{src: t.rt + "/driver.cpp", obj: obj + "/driver.o"},
			{src: dir + "/d/dispatch.cpp", obj: obj + "/dispatch.o"},
		}
		// library files, compiled once
		var libobj []string
		for _, lib := range cppLibs(src, theKit.libs()) {
			key, err := includes(src, lib+".cpp")
			if err != nil {
				return "", err
			}
			t.mu.Lock()
			o := t.core[key]
			if o == "" {
				o = fmt.Sprintf("%s/lib%d.o", t.work, len(t.core))
				t.core[key] = o
				jobs = append(jobs, &job{src: src + "/" + lib + ".cpp", obj: o})
			}
			t.mu.Unlock()
			libobj = append(libobj, o)
		}
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				args := append(append(append([]string{}, cxxFlags...), inc...), "-c", j.src, "-o", j.obj)
				j.out, j.err = run(dir, "clang++", args...)
			}()
		}
		wg.Wait()
		for i := len(jobs) - 1; i >= 0; i-- {
			if j := jobs[i]; j.err != nil {
				if i == 0 {
					return clip(j.out, 2000), nil
				}
				return "", fmt.Errorf("%s: %v %s", j.src, j.err, clip(j.out, 2000))
			}
		}
		bin := dir + "/cpp/drv"
		args := append(append([]string{}, cxxFlags...), "-o", bin)
		args = append(append(args, libobj...), obj+"/prog.o", obj+"/driver.o", obj+"/dispatch.o")
		if out, err := run(dir, "clang++", args...); err != nil {
			return "", fmt.Errorf("link: %v %s", err, clip(out, 2000))
		}
		b.cmds[lang] = []string{bin}
	}
	return "", nil
}

// includes gives a file with everything it includes.
func includes(dir, file string) (string, error) {
	var out strings.Builder
	seen := map[string]bool{}
	var add func(f string) error
	add = func(f string) error {
		f = filepath.Clean(f)
		if seen[f] {
			return nil
		}
		seen[f] = true
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return err
		}
		out.WriteString(f + "\n" + string(b))
		for _, l := range strings.Split(string(b), "\n") {
			if q := strings.Split(l, `"`); strings.HasPrefix(l, "#include") && len(q) == 3 {
				if err := add(filepath.Join(filepath.Dir(f), q[1])); err != nil {
					return err
				}
			}
		}
		return nil
	}
	err := add(file)
	return out.String(), err
}

var including = regexp.MustCompile(`(?m)^#include "(.*)\.hpp"`)

// cppLibs lists library files in the order they need each other.
func cppLibs(dir string, libs []string) []string {
	out := []string{"vx/core"}
	seen := map[string]bool{"vx/core": true}
	var add func(lib string)
	add = func(lib string) {
		if seen[lib] {
			return
		}
		seen[lib] = true
		for _, ext := range []string{".hpp", ".cpp"} {
			b, _ := os.ReadFile(filepath.Join(dir, lib+ext))
			for _, m := range including.FindAllStringSubmatch(string(b), -1) {
				add(filepath.Join(filepath.Dir(lib), m[1]))
			}
		}
		out = append(out, lib)
	}
	for _, lib := range libs {
		add(lib)
	}
	return out
}

func javaClass(lib string) string {
	parts := strings.Split(lib, "/")
	last := len(parts) - 1
	parts[last] = strings.ToUpper(parts[last][:1]) + parts[last][1:]
	return "com.vxlisp." + strings.Join(parts, ".")
}

func (b *Batch) remove() { os.RemoveAll(b.dir) }
