// Package proc takes over the program under simulation: it connects the
// standard library's seams to one simulated machine, runs the real main once
// per simulated process and reports what happened.
package proc

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"gosim/fsim"
	"gosim/wire"
)

type exitMark struct{ code int }

var ids [8]int

var ballast [][]byte

func current() int {
	p := runtime.SimLabel()
	if p == nil {
		return 0
	}
	return *(*int)(p)
}

// Takeover runs the job named by VERIF_JOB and exits.
func Takeover(mains ...func()) {
	jobFile := os.Getenv("VERIF_JOB")
	if jobFile == "" {
		return
	}
	job, err := wire.ReadJob(jobFile)
	if err != nil {
		fail(err)
	}
	outFd, err := syscall.Open(os.Getenv("VERIF_OUT"), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, 0644)
	if err != nil {
		fail(err)
	}
	for i := range ids {
		ids[i] = i
	}
	runtime.GOMAXPROCS(1)
	emit := func(r *wire.Result) {
		b := wire.EncodeResult(r)
		for len(b) > 0 {
			n, _, e := syscall.RawSyscall(syscall.SYS_WRITE, uintptr(outFd), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
			if e != 0 {
				syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 97, 0, 0)
			}
			b = b[n:]
		}
		syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 0, 0, 0)
	}
	m := fsim.New(job)
	m.Finish = emit
	m.Current = current
	m.OnSwitch = func(pi int) { os.Args = job.Procs[pi].Args }
	os.Clearenv()
	for _, e := range job.Procs[0].Env {
		if k := strings.Index(e, "="); k > 0 {
			os.Setenv(e[:k], e[k+1:])
		}
	}
	// where things lie in memory differs from process to process
	for n := job.Procs[0].Heap; n > 0; {
		k := 16 + n%113*24
		ballast = append(ballast, make([]byte, k))
		n -= k
	}
	time.SimNow = m.Now
	runtime.SimSleep = m.Sleep
	os.SimExit = func(code int) {
		m.ProcEnd(current(), code, "")
		select {}
	}
	syscall.Sim = m
	if job.Mode == "web" {
		web(m, job, mains[0])
		return
	}
	for i := range job.Procs {
		i := i
		go func() {
			runtime.SimSetLabel(unsafe.Pointer(&ids[i]))
			m.Wait(i)
			os.Args = job.Procs[i].Args
			run(m, i, mains[i])
		}()
	}
	select {}
}

func run(m *fsim.Machine, i int, main func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			m.ProcEnd(i, -2, fmt.Sprint(r)+"\n"+site(st))
			select {}
		}
	}()
	main()
	m.ProcEnd(i, 0, "")
	select {}
}

// site keeps the function names of a stack trace, below the panic.
func site(st string) string {
	var out []string
	seen := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			out = nil
			continue
		}
		if seen && !strings.HasPrefix(l, "\t") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			out = append(out, l)
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "simulated process:", err)
	os.Exit(98)
}
