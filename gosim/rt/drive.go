package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// Task is one call of a program's entry.
type Task struct {
	Prog int    `json:"prog"`
	Hold bool   `json:"hold,omitempty"` // the caller keeps its arguments
	Drop bool   `json:"drop,omitempty"` // the caller lets go of the result without waiting for it
	Args []*Val `json:"args"`
	// Share[k] >= 0: argument k is the very value given to that task (by number, then argument)
	Share []int `json:"share,omitempty"`
	// what the user of this call may do; nil for a context without a user
	Allow []string `json:"allow"`
}

// Scenario is one history: which calls start, which leaf calls fail, and the
// choices that decide what happens next.
type Scenario struct {
	Tasks   []*Task `json:"tasks"`
	Fails   []Fail  `json:"fails,omitempty"`
	Choices []int   `json:"choices,omitempty"`
	Disk    *Disk   `json:"disk,omitempty"`
}

func (s *Scenario) line(b *Batch, disk bool) string {
	var o strings.Builder
	fmt.Fprintf(&o, "%d", len(s.Tasks))
	for _, t := range s.Tasks {
		h := 0
		if t.Hold {
			h = 1
		}
		if t.Drop {
			h |= 2
		}
		if b.Programs[t.Prog].Funcs[0].Context {
			h |= 4
		}
		if t.Allow != nil {
			h |= 8
		}
		fmt.Fprintf(&o, " %s %d %d", b.Programs[t.Prog].Funcs[0].Name, h, len(t.Args))
		for k, a := range t.Args {
			if k < len(t.Share) && t.Share[k] >= 0 {
				fmt.Fprintf(&o, " @%d.%d", t.Share[k]/10, t.Share[k]%10)
				continue
			}
			o.WriteString(" " + a.text())
		}
		if t.Allow != nil {
			fmt.Fprintf(&o, " %d", len(t.Allow))
			for _, a := range t.Allow {
				o.WriteString(" " + a)
			}
		}
	}
	fmt.Fprintf(&o, " %d", len(s.Fails))
	for _, f := range s.Fails {
		if f.Arg == "" {
			fmt.Fprintf(&o, " %d %d 1 *", f.ID, f.Mode)
		} else {
			fmt.Fprintf(&o, " %d %d %d %s", f.ID, f.Mode, len(strings.Fields(f.Arg)), f.Arg)
		}
	}
	fmt.Fprintf(&o, " %d", len(s.Choices))
	for _, c := range s.Choices {
		fmt.Fprintf(&o, " %d", c)
	}
	if s.Disk != nil && disk {
		fmt.Fprintf(&o, " K%x", s.Disk.control())
	}
	return o.String()
}

// Proc is a running driver.
type Proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *tail
	args []string
}

type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}

func start(args, env []string) (*Proc, error) {
	p := &Proc{cmd: exec.Command(args[0], args[1:]...), err: &tail{}, args: args}
	p.cmd.Stderr = p.err
	p.cmd.Env = append(os.Environ(), env...)
	p.cmd.Env = append(p.cmd.Env, "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0", "TZ=UTC")
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(out, 1<<20)
	return p, p.cmd.Start()
}

func (p *Proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

const perScenario = 60 * time.Second

// run gives the history the driver reports. died tells why there is none.
func (p *Proc) run(line string) (hist string, died string, err error) {
	hung := false
	t := time.AfterFunc(perScenario, func() {
		hung = true
		p.cmd.Process.Kill()
	})
	defer t.Stop()
	io.WriteString(p.in, line+"\n")
	s, rerr := p.out.ReadString('\n')
	if rerr == nil {
		return strings.TrimSpace(s), "", nil
	}
	p.cmd.Wait()
	if hung {
		return "", "blocks", nil
	}
	return "", reason(p.err.b.String(), p.cmd.ProcessState.String()), nil
}

// reason picks the part of a crash report that does not depend on addresses.
func reason(stderr, state string) string {
	var out []string
	frames := 0
	for _, l := range strings.Split(stderr, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.Contains(l, "ERROR: AddressSanitizer:"):
			f := strings.Fields(l[strings.Index(l, "AddressSanitizer:"):])
			if len(f) > 1 {
				out = append(out, "memory error: "+f[1])
			}
		case strings.HasPrefix(l, "#") && frames < 8:
			if i := strings.Index(l, " in "); i > 0 {
				name := l[i+4:]
				if j := strings.Index(name, "("); j > 0 {
					name = name[:j]
				}
				out = append(out, name)
				frames++
			}
		case strings.HasPrefix(l, "freed by") || strings.HasPrefix(l, "previously allocated"):
			out = append(out, strings.Fields(l)[0])
			frames = 4
		case strings.Contains(l, "Exception") || strings.Contains(l, "Error:") || strings.Contains(l, "terminate called") || strings.Contains(l, "what():"):
			out = append(out, clip(l, 200))
		}
		if len(out) > 14 {
			break
		}
	}
	if len(out) == 0 {
		return state + " " + clip(stderr, 300)
	}
	return strings.Join(out, " | ")
}
