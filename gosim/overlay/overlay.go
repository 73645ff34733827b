// Package overlay writes the -overlay file that puts the Go program under the
// simulated machine: patched copies of a few standard library files, the
// simulator packages, and one extra file in package main. The repository's own
// files are compiled as they are.
package overlay

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

type gen struct {
	goroot  string
	out     string
	replace map[string]string
	err     error
}

func (g *gen) src(rel string) string {
	b, err := os.ReadFile(filepath.Join(g.goroot, "src", rel))
	if err != nil && g.err == nil {
		g.err = err
	}
	return string(b)
}

func (g *gen) put(target, text string) {
	name := filepath.Join(g.out, strings.NewReplacer("/", "_", ":", "_").Replace(strings.TrimPrefix(target, "/")))
	if err := os.WriteFile(name, []byte(text), 0644); err != nil && g.err == nil {
		g.err = err
	}
	g.replace[target] = name
}

func (g *gen) std(rel, text string) { g.put(filepath.Join(g.goroot, "src", rel), text) }

func (g *gen) sub(text, old, new, what string) string {
	if strings.Count(text, old) != 1 && g.err == nil {
		g.err = fmt.Errorf("overlay: %q occurs %d times in %s", old, strings.Count(text, old), what)
	}
	return strings.Replace(text, old, new, 1)
}

// Write creates the overlay below out and returns the path of its JSON file.
// repo is the repository, gosim this module's folder.
func Write(goroot, out, repo, gosim string) (string, error) {
	g := &gen{goroot: goroot, out: out, replace: map[string]string{}}
	if err := os.MkdirAll(out, 0755); err != nil {
		return "", err
	}

	// --- package syscall: every file-system entry asks the machine first
	z := g.src("syscall/zsyscall_linux_amd64.go")
	fdfn := func(call string) string { return "\tif simFd(fd) {\n\t\treturn " + call + "\n\t}\n" }
	pathfn := func(call string) string { return "\tif Sim != nil {\n\t\treturn " + call + "\n\t}\n" }
	pro := map[string]string{
		"faccessat":  pathfn("Sim.Faccessat(dirfd, path, mode)"),
		"faccessat2": pathfn("Sim.Faccessat(dirfd, path, mode)"),
		"fchmodat":   pathfn("Sim.Fchmodat(dirfd, path, mode)"),
		"fchmodat2":  pathfn("Sim.Fchmodat(dirfd, path, mode)"),
		"linkat":     pathfn("Sim.Linkat(olddirfd, oldpath, newdirfd, newpath)"),
		"openat":     pathfn("Sim.Openat(dirfd, path, flags, mode)"),
		"readlinkat": pathfn("Sim.Readlinkat(dirfd, path, buf)"),
		"symlinkat":  pathfn("Sim.Symlinkat(oldpath, newdirfd, newpath)"),
		"unlinkat":   pathfn("Sim.Unlinkat(dirfd, path, flags)"),
		"utimensat":  pathfn("Sim.Utimensat(dirfd, path, times)"),
		"Getcwd":     pathfn("Sim.Getcwd(buf)"),
		"Chdir":      pathfn("Sim.Chdir(path)"),
		"Chroot":     pathfn("EPERM"),
		"Mkdirat":    pathfn("Sim.Mkdirat(dirfd, path, mode)"),
		"Fchownat":   pathfn("ENOSYS"),
		"Renameat":   pathfn("Sim.Renameat(olddirfd, oldpath, newdirfd, newpath)"),
		"Statfs":     pathfn("ENOSYS"),
		"Truncate":   pathfn("Sim.Truncate(path, length)"),
		"fstatat":    "\tif Sim != nil {\n\t\treturn Sim.Fstatat(fd, path, stat, flags)\n\t}\n",
		"utimes":     pathfn("ENOSYS"),
		"Close":      fdfn("Sim.Close(fd)"),
		"Fallocate":  fdfn("ENOSYS"),
		"Fchdir":     fdfn("ENOSYS"),
		"Fchmod":     fdfn("Sim.Fchmod(fd, mode)"),
		"fcntl":      "\tif simFd(fd) {\n\t\treturn 0, Sim.Simple(\"fcntl\", fd)\n\t}\n",
		"Fdatasync":  fdfn("Sim.Fsync(fd)"),
		"Flock":      fdfn("Sim.Simple(\"flock\", fd)"),
		"Fsync":      fdfn("Sim.Fsync(fd)"),
		"Getdents":   fdfn("Sim.Getdents(fd, buf)"),
		"read":       fdfn("Sim.Read(fd, p)"),
		"write":      fdfn("Sim.Write(fd, p)"),
		"Fchown":     fdfn("nil"),
		"Fstat":      fdfn("Sim.Fstat(fd, stat)"),
		"Ftruncate":  fdfn("Sim.Ftruncate(fd, length)"),
		"pread":      fdfn("Sim.Pread(fd, p, offset)"),
		"pwrite":     fdfn("Sim.Pwrite(fd, p, offset)"),
		"Seek":       fdfn("Sim.Seek(fd, offset, whence)"),
		"Getpid":     "\tif Sim != nil {\n\t\treturn Sim.Getpid()\n\t}\n",
		"Getppid":    "\tif Sim != nil {\n\t\treturn 1\n\t}\n",
		"Uname":      "\tif Sim != nil {\n\t\t*buf = Utsname{}\n\t\tfor i, c := range []byte(Sim.Hostname()) {\n\t\t\tbuf.Nodename[i] = int8(c)\n\t\t}\n\t\treturn nil\n\t}\n",
		"sendfile":   "\tif simFd(outfd) || simFd(infd) {\n\t\treturn 0, ENOSYS\n\t}\n",
	}
	for name, p := range pro {
		re := regexp.MustCompile(`(?m)^func ` + name + `\(.*\{\n`)
		if len(re.FindAllString(z, -1)) != 1 {
			return "", fmt.Errorf("overlay: syscall.%s not found", name)
		}
		z = re.ReplaceAllStringFunc(z, func(s string) string { return s + p })
	}
	g.std("syscall/zsyscall_linux_amd64.go", z)
	g.std("syscall/zz_sim.go", readStd(gosim, "syscall.txt", g))

	// --- internal/syscall/unix
	at := g.src("internal/syscall/unix/at.go")
	uni := func(text, sig, body string) string {
		re := regexp.MustCompile(`(?m)^func ` + sig + `\(.*\{\n`)
		if len(re.FindAllString(text, -1)) != 1 && g.err == nil {
			g.err = fmt.Errorf("overlay: unix.%s not found", sig)
		}
		return re.ReplaceAllStringFunc(text, func(s string) string { return s + "\tif syscall.Sim != nil {\n\t\t" + body + "\n\t}\n" })
	}
	at = uni(at, "Unlinkat", "return syscall.Sim.Unlinkat(dirfd, path, flags)")
	at = uni(at, "Openat", "return syscall.Sim.Openat(dirfd, path, flags, perm)")
	at = uni(at, "Readlinkat", "return syscall.Sim.Readlinkat(dirfd, path, buf)")
	at = uni(at, "Mkdirat", "return syscall.Sim.Mkdirat(dirfd, path, mode)")
	at = uni(at, "Fchownat", "return syscall.ENOSYS")
	at = uni(at, "Renameat", "return syscall.Sim.Renameat(olddirfd, oldpath, newdirfd, newpath)")
	at = uni(at, "Linkat", "return syscall.Sim.Linkat(olddirfd, oldpath, newdirfd, newpath)")
	at = uni(at, "Symlinkat", "return syscall.Sim.Symlinkat(oldpath, newdirfd, newpath)")
	g.std("internal/syscall/unix/at.go", at)
	g.std("internal/syscall/unix/at_fstatat.go", uni(g.src("internal/syscall/unix/at_fstatat.go"), "Fstatat", "return syscall.Sim.Fstatat(dirfd, path, stat, flags)"))
	g.std("internal/syscall/unix/copy_file_range_unix.go", uni(g.src("internal/syscall/unix/copy_file_range_unix.go"), "CopyFileRange", "return 0, syscall.ENOSYS"))

	// --- runtime: hash seeds, iteration order, select order, sleeping
	r := g.src("runtime/rand.go")
	r = g.sub(r, "func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\treturn simRand()\n\t}\n", "rand.go")
	r = g.sub(r, "mp.cheaprand = uint32(rand())", "mp.cheaprand = uint32(seed[0] >> 7)", "rand.go")
	r = g.sub(r, "mp.cheaprand64 = rand()", "mp.cheaprand64 = seed[1]", "rand.go")
	r = g.sub(r, "\tglobalRand.state.Init(*seed)\n", "\t*seed = [32]byte{1, 2, 3, 4, 5, 6, 7, 8}\n\tglobalRand.state.Init(*seed)\n", "rand.go")
	g.std("runtime/rand.go", r)
	g.std("runtime/zz_sim.go", readStd(gosim, "runtime.txt", g))
	// which goroutine runs next is drawn from the seed; no time slices
	pr := g.sub(g.src("runtime/proc.go"), "\n\tgoenvs()\n", "\n\tgoenvs()\n\tsimInit()\n", "proc.go")
	pr = g.sub(pr, "const forcePreemptNS = 10 * 1000 * 1000", "const forcePreemptNS = 1000000 * 1000 * 1000 * 1000", "proc.go")
	pr = g.sub(pr, "func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn {\n\t\tsimRunq(pp)\n\t}\n", "proc.go")
	pr = g.sub(pr, "if pp.schedtick%61 == 0 && !sched", "if pp.schedtick%61 == 0 && !simOn && !sched", "proc.go")
	g.std("runtime/proc.go", pr)
	g.std("runtime/select.go", g.sub(g.src("runtime/select.go"), "cheaprandn(uint32(norder + 1))", "simSelectn(uint32(norder + 1))", "select.go"))
	tm := g.sub(g.src("runtime/time.go"), "t.rand = cheaprand()", "t.rand = simSelectn(1 << 31)", "time.go")
	g.std("runtime/time.go", g.sub(tm, "func timeSleep(ns int64) {\n", "func timeSleep(ns int64) {\n\tif SimSleep != nil && getg().bubble == nil {\n\t\tSimSleep(ns)\n\t\treturn\n\t}\n", "time.go"))

	// a goroutine waiting for a lock counts as waiting, so that simulated time
	// goes on while the holder sleeps in a slow system call
	g.std("runtime/runtime2.go", g.sub(g.src("runtime/runtime2.go"), "\twaitReasonSelectNoCases:         true,\n", "\twaitReasonSelectNoCases:         true,\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n\twaitReasonSemacquire: true,\n\twaitReasonSyncWaitGroupWait: true,\n", "runtime2.go"))

	// locks are not handed over by elapsed real time
	g.std("internal/sync/mutex.go", g.sub(g.src("internal/sync/mutex.go"), "starvationThresholdNs = 1e6", "starvationThresholdNs = 1e15", "mutex.go"))

	// --- time, os
	g.std("time/time.go", g.sub(g.src("time/time.go"), "func Now() Time {\n", "func Now() Time {\n\tif SimNow != nil {\n\t\tif n := SimNow(); n != 0 {\n\t\t\treturn Unix(n/1e9, n%1e9).UTC()\n\t\t}\n\t}\n", "time.go"))
	g.std("time/zz_sim.go", "package time\n\n// SimNow, when set, is the clock.\nvar SimNow func() int64\n")
	g.std("os/proc.go", g.sub(g.src("os/proc.go"), "func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n", "proc.go"))
	g.std("os/zz_sim.go", "package os\n\n// SimExit, when set, ends the simulated process.\nvar SimExit func(int)\n")

	// --- net: listening goes to the simulated network
	g.std("net/dial.go", g.sub(g.src("net/dial.go"), "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn SimListen(network, address)\n\t}\n", "dial.go"))
	g.std("net/zz_sim.go", "package net\n\n// SimListen, when set, replaces listening on a real socket.\nvar SimListen func(network, address string) (Listener, error)\n")

	// --- simulator packages inside the repository's module
	src := filepath.Join(repo, "src")
	for _, pkg := range []string{"wire", "fsim", "proc"} {
		ents, err := os.ReadDir(filepath.Join(gosim, pkg))
		if err != nil {
			return "", err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				b, err := os.ReadFile(filepath.Join(gosim, pkg, e.Name()))
				if err != nil {
					return "", err
				}
				text := strings.ReplaceAll(string(b), `"gosim/`, `"vxlisp/zzsim/`)
				g.put(filepath.Join(src, "zzsim", pkg, e.Name()), text)
			}
		}
	}
	// --- package main: its files as they are plus the takeover; and a second
	// copy of the whole program for two processes on one machine
	g.put(filepath.Join(src, "zz_verif_main.go"), "package main\n\nimport (\n\t\"vxlisp/zzsim/proc\"\n\tzz2 \"vxlisp/zzsecond\"\n)\n\nfunc init() {\n\tproc.Takeover(main, zz2.Main)\n}\n")
	err := filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if info.IsDir() {
			if info.Name() == "testdata" || strings.HasPrefix(info.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(rel, "_test.go") || !strings.HasSuffix(rel, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		text := importRe.ReplaceAllString(string(b), `"vxlisp/zzsecond/$1"`)
		if !strings.Contains(rel, "/") {
			text = regexp.MustCompile(`(?m)^package main\b`).ReplaceAllString(text, "package zzsecond")
			text = regexp.MustCompile(`(?m)^func main\(`).ReplaceAllString(text, "func Main(")
		}
		g.put(filepath.Join(src, "zzsecond", rel), text)
		return nil
	})
	if err != nil {
		return "", err
	}
	if g.err != nil {
		return "", g.err
	}
	b, err := json.Marshal(map[string]any{"Replace": g.replace})
	if err != nil {
		return "", err
	}
	f := filepath.Join(out, "overlay.json")
	return f, os.WriteFile(f, b, 0644)
}

var importRe = regexp.MustCompile(`"vxlisp/([^"\n]*)"`)

func readStd(gosim, name string, g *gen) string {
	b, err := os.ReadFile(filepath.Join(gosim, "std", name))
	if err != nil && g.err == nil {
		g.err = err
	}
	return string(b)
}
