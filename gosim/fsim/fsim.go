// Package fsim is the simulated machine one or more vxlisp processes run on:
// a disk, a clock, a scheduler and a fault injector, all driven by one seed.
// It sits behind the syscall package (see ../proc and the overlay written by
// the runner), so whatever file API the code under test uses ends up here.
package fsim

import (
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"gosim/wire"
)

const FdBase = 1 << 20
const atFdcwd = -100

type inode struct {
	ino    int64
	kind   byte
	mode   uint32
	mtime  int64
	data   []byte
	owned  bool
	target string
	ents   map[string]*inode
	synced []byte
	isSync bool
}

type openFile struct {
	proc   int
	node   *inode
	path   string
	off    int64
	flags  int
	wrote  bool
	ents   []string
	entPos int
	listed bool
	dirEIO bool
	bad    bool // past a bad sector
}

type proc struct {
	wire.Proc
	res  wire.ProcResult
	cwd  string
	dead bool
	done bool
}

type Machine struct {
	mu       sync.Mutex
	cond     *sync.Cond
	cfg      wire.Config
	rnd      *wire.Rand
	trnd     *wire.Rand // clock
	drnd     *wire.Rand // directory order
	yrnd     *wire.Rand // where goroutines give way
	root     *inode
	start    wire.Image
	fds      map[int]*openFile
	nextFd   int
	nextIno  int64
	procs    []*proc
	token    int
	res      wire.Result
	clock    int64
	quota    int64
	nfault   int
	byOp     map[[2]int][]wire.Fault
	schedPos int
	kinds    map[string]bool
	// Current names the process the calling goroutine belongs to.
	Current func() int
	// Finish emits the result and never returns.
	Finish func(*wire.Result)
	// OnSwitch is called when another process gets to run.
	OnSwitch func(int)
	over     bool
	// Latency, when set, lets simulated time pass before an operation.
	Latency func()
}

func New(job *wire.Job) *Machine {
	m := &Machine{cfg: job.Cfg, start: job.Image, fds: map[int]*openFile{}, nextFd: FdBase, nextIno: 1 << 32}
	m.cond = sync.NewCond(&m.mu)
	m.rnd = wire.NewRand(job.Cfg.Seed)
	m.trnd = wire.NewRand(job.Cfg.Seed ^ 0x7117)
	m.drnd = wire.NewRand(job.Cfg.Seed ^ 0xd1d1)
	m.yrnd = wire.NewRand(job.Cfg.Seed ^ 0x71e1d)
	m.clock = job.Cfg.Clock
	m.quota = job.Cfg.Quota
	m.byOp = map[[2]int][]wire.Fault{}
	for _, f := range job.Cfg.Faults {
		k := [2]int{f.Proc, f.Op}
		m.byOp[k] = append(m.byOp[k], f)
	}
	m.kinds = map[string]bool{}
	for _, k := range job.Cfg.Kinds {
		m.kinds[k] = true
	}
	m.root = &inode{ino: 1, kind: 'd', mode: 0755, ents: map[string]*inode{}}
	for _, p := range job.Image.Paths() {
		e := job.Image[p]
		if p == "/" {
			continue
		}
		dir := m.mkdirs(p[:strings.LastIndex(p, "/")])
		n := &inode{ino: e.Ino, kind: e.Kind, mode: e.Mode, mtime: e.Mtime}
		switch e.Kind {
		case 'd':
			if old := dir.ents[base(p)]; old != nil {
				old.ino, old.mode, old.mtime = e.Ino, e.Mode, e.Mtime
				continue
			}
			n.ents = map[string]*inode{}
		case 'l':
			n.target = string(e.Data)
		default:
			n.data = e.Data
			n.synced, n.isSync = e.Data, true
		}
		if n.ino == 0 {
			n.ino = m.ino()
		}
		if n.ino >= m.nextIno {
			m.nextIno = n.ino + 1
		}
		dir.ents[base(p)] = n
	}
	for _, p := range job.Procs {
		m.procs = append(m.procs, &proc{Proc: p, cwd: p.Cwd})
	}
	m.res.Procs = make([]wire.ProcResult, len(m.procs))
	m.Current = func() int { return 0 }
	return m
}

func base(p string) string { return p[strings.LastIndex(p, "/")+1:] }

func (m *Machine) ino() int64 { m.nextIno++; return m.nextIno }

func (m *Machine) mkdirs(p string) *inode {
	n := m.root
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		x := n.ents[c]
		if x == nil {
			x = &inode{ino: m.ino(), kind: 'd', mode: 0755, ents: map[string]*inode{}}
			n.ents[c] = x
		}
		n = x
	}
	return n
}

// ---- paths

func (m *Machine) abs(p *proc, dirfd int, path string) (string, error) {
	if strings.HasPrefix(path, "/") {
		return path, nil
	}
	if dirfd == atFdcwd {
		return p.cwd + "/" + path, nil
	}
	f := m.fds[dirfd]
	if f == nil {
		return "", syscall.EBADF
	}
	return f.path + "/" + path, nil
}

// walk resolves path to (parent, name, node, canonical path).
func (m *Machine) walk(path string, follow bool, depth int) (par *inode, name string, node *inode, canon string, err error) {
	if depth > 20 {
		return nil, "", nil, "", syscall.ELOOP
	}
	var stack []*inode
	var names []string
	cur := m.root
	parts := strings.Split(path, "/")
	var comps []string
	for _, c := range parts {
		if c != "" && c != "." {
			comps = append(comps, c)
		}
	}
	for i, c := range comps {
		last := i == len(comps)-1
		if c == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		if cur.kind != 'd' {
			return nil, "", nil, "", syscall.ENOTDIR
		}
		nx := cur.ents[c]
		if nx != nil && nx.kind == 'l' && (!last || follow) {
			t := nx.target
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(names, "/") + "/" + t
			}
			if !last {
				t += "/" + strings.Join(comps[i+1:], "/")
			}
			return m.walk(t, follow, depth+1)
		}
		if nx == nil {
			if last {
				return cur, c, nil, "/" + strings.Join(append(names[:len(names):len(names)], c), "/"), nil
			}
			return nil, "", nil, "", syscall.ENOENT
		}
		stack = append(stack, cur)
		names = append(names, c)
		cur = nx
	}
	canon = "/" + strings.Join(names, "/")
	if len(names) == 0 {
		return nil, "", m.root, "/", nil
	}
	return stack[len(stack)-1], names[len(names)-1], cur, canon, nil
}

// ---- operations: scheduling, clock, faults

type opctx struct {
	p     *proc
	pi    int
	n     int
	name  string
	path  string
	fault string
	arg   int64
}

// enter is called with m.mu held at the start of every operation.
func (m *Machine) enter(name, path string) *opctx {
	pi := m.Current()
	if len(m.procs) > 1 {
		for m.token != pi && !m.over {
			m.cond.Wait()
		}
		m.reschedule(pi)
		for m.token != pi && !m.over {
			m.cond.Wait()
		}
	}
	p := m.procs[pi]
	if p.dead || m.over {
		m.mu.Unlock()
		select {} // a dead process executes nothing
	}
	c := &opctx{p: p, pi: pi, n: p.res.Ops, name: name, path: path}
	p.res.Ops++
	m.res.Steps++
	m.clock += int64(1000 + m.trnd.N(50000))
	if m.cfg.OpLimit > 0 && p.res.Ops > m.cfg.OpLimit {
		m.res.Limit = true
		m.finish()
	}
	return c
}

// reschedule decides which process runs next.
func (m *Machine) reschedule(cur int) {
	var live []int
	for i, p := range m.procs {
		if !p.done && !p.dead {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		return
	}
	next := cur
	if m.cfg.Explicit {
		if m.schedPos < len(m.cfg.Schedule) {
			next = int(m.cfg.Schedule[m.schedPos])
		}
	} else if m.rnd.N(65536) < int(m.cfg.YieldRate) {
		next = live[m.rnd.N(len(live))]
	}
	ok := false
	for _, l := range live {
		if l == next {
			ok = true
		}
	}
	if !ok {
		next = live[0]
	}
	m.schedPos++
	m.res.Schedule = append(m.res.Schedule, byte(next))
	if next != m.token {
		m.token = next
		if m.OnSwitch != nil {
			m.OnSwitch(next)
		}
		m.cond.Broadcast()
	}
}

func under(p string, dirs []string) bool {
	for _, d := range dirs {
		if d[0] == '=' { // this very path only
			if p == d[1:] {
				return true
			}
			continue
		}
		if p == d || strings.HasPrefix(p, d+"/") {
			return true
		}
	}
	return false
}

// kindsFor lists the fault kinds that can strike an operation.
var kindsFor = map[string][]string{
	"open":     {"open-eio", "open-eacces", "open-emfile"},
	"create":   {"create-eio", "create-eacces", "create-enospc", "open-emfile"},
	"read":     {"read-eio", "read-bad", "read-short", "read-eintr"},
	"write":    {"write-eio", "write-enospc", "write-short", "write-eintr"},
	"close":    {"close-eio"},
	"stat":     {"stat-eio", "stat-eacces"},
	"fstat":    {"stat-eio"},
	"getdents": {"dir-eio", "dir-part"},
	"mkdir":    {"mkdir-enospc", "mkdir-eacces"},
	"fsync":    {"fsync-eio"},
	"rename":   {"rename-eio"},
	"unlink":   {"unlink-eio"},
	"readlink": {"readlink-eio"},
	"symlink":  {"symlink-eio"},
	"chmod":    {"chmod-eperm"},
}

var errFor = map[string]syscall.Errno{
	"open-eio": syscall.EIO, "open-eacces": syscall.EACCES, "open-emfile": syscall.EMFILE,
	"create-eio": syscall.EIO, "create-eacces": syscall.EACCES, "create-enospc": syscall.ENOSPC,
	"read-eio": syscall.EIO, "read-eintr": syscall.EINTR,
	"write-eio": syscall.EIO, "write-enospc": syscall.ENOSPC, "write-eintr": syscall.EINTR,
	"close-eio": syscall.EIO, "stat-eio": syscall.EIO, "stat-eacces": syscall.EACCES,
	"dir-eio": syscall.EIO, "mkdir-enospc": syscall.ENOSPC, "mkdir-eacces": syscall.EACCES,
	"fsync-eio": syscall.EIO, "rename-eio": syscall.EIO, "unlink-eio": syscall.EIO,
	"readlink-eio": syscall.EIO, "symlink-eio": syscall.EIO, "chmod-eperm": syscall.EPERM,
}

// strike decides whether a fault hits this operation. wlen is the size of a
// write (for where to cut it), canon the path it acts on.
func (m *Machine) strike(c *opctx, class, canon string, wlen int) {
	var f *wire.Fault
	if m.cfg.Explicit {
		for i := range m.byOp[[2]int{c.pi, c.n}] {
			f = &m.byOp[[2]int{c.pi, c.n}][i]
			m.apply(c, f, class, wlen)
		}
		return
	}
	if m.cfg.CrashOp >= 0 && c.n == m.cfg.CrashOp && c.pi == 0 {
		k := "kill"
		if m.cfg.PowerLoss {
			k = "power"
		}
		f = &wire.Fault{Proc: c.pi, Op: c.n, Kind: k, Arg: int64(m.rnd.N(wlen + 1))}
		m.apply(c, f, class, wlen)
		return
	}
	if m.cfg.Rate == 0 || c.n < m.cfg.SkipOps || m.nfault >= m.cfg.MaxFaults {
		return
	}
	if m.rnd.N(65536) >= int(m.cfg.Rate) {
		return
	}
	switch class {
	case "create", "write", "close", "mkdir", "fsync", "rename", "unlink", "symlink", "chmod":
		if len(m.cfg.WriteScope) > 0 && !under(canon, m.cfg.WriteScope) {
			return
		}
	default:
		if len(m.cfg.ReadScope) > 0 && !under(canon, m.cfg.ReadScope) {
			return
		}
	}
	var ks []string
	for _, k := range kindsFor[class] {
		if m.kinds[k] {
			ks = append(ks, k)
		}
	}
	if m.kinds["stall"] {
		ks = append(ks, "stall")
	}
	if m.kinds["clockback"] {
		ks = append(ks, "clockback")
	}
	if len(ks) == 0 {
		return
	}
	f = &wire.Fault{Proc: c.pi, Op: c.n, Kind: ks[m.rnd.N(len(ks))], Arg: int64(m.rnd.U64() >> 2)}
	if wlen > 0 {
		f.Arg %= int64(wlen)
	}
	m.apply(c, f, class, wlen)
}

func (m *Machine) apply(c *opctx, f *wire.Fault, class string, wlen int) {
	m.nfault++
	m.res.Fired = append(m.res.Fired, *f)
	switch f.Kind {
	case "stall":
		m.clock += 1e9 * (1 + f.Arg%7200)
	case "clockback":
		m.clock -= 1e9 * (1 + f.Arg%7200)
	default:
		c.fault, c.arg = f.Kind, f.Arg
	}
	_ = class
	_ = wlen
}

// leave records the outcome of an operation and releases the machine.
func (m *Machine) leave(c *opctx, res int64, err error) {
	en := 0
	if err != nil {
		if e, ok := err.(syscall.Errno); ok {
			en = int(e)
		} else {
			en = -1
		}
	}
	m.res.Digest = wire.Hash(m.res.Digest, strconv.Itoa(c.pi), c.name, c.path, strconv.FormatInt(res, 10), strconv.Itoa(en))
	op := wire.Op{Proc: c.pi, N: c.n, Name: c.name, Path: c.path, Res: res, Err: en, Fault: c.fault}
	if m.cfg.TraceAll || c.fault != "" {
		m.res.Trace = append(m.res.Trace, op)
	}
	if en == 0 {
		switch c.name {
		case "create", "mkdir", "rename", "unlink", "symlink", "link", "truncate":
			m.res.Writes = append(m.res.Writes, op)
		case "write":
			if n := len(m.res.Writes); n == 0 || m.res.Writes[n-1].Path != c.path || m.res.Writes[n-1].Name != "write" {
				m.res.Writes = append(m.res.Writes, op)
			}
		}
	}
	if c.fault == "kill" {
		m.kill(c.pi)
	}
	if c.fault == "power" {
		m.power()
	}
	y := len(m.procs) == 1 && m.cfg.YieldRate > 0 && m.yrnd.N(65536) < int(m.cfg.YieldRate)
	m.mu.Unlock()
	if y {
		runtime.Gosched()
	}
}

func (m *Machine) kill(pi int) {
	p := m.procs[pi]
	p.dead = true
	p.res.Exit = -1
	all := true
	for _, q := range m.procs {
		if !q.dead && !q.done {
			all = false
		}
	}
	if all {
		m.finish()
	}
	m.reschedule(pi)
	m.mu.Unlock()
	select {}
}

// power cuts the power: whatever was not synced survives only in part.
func (m *Machine) power() {
	vol := m.image()
	out := wire.Image{}
	r := wire.NewRand(m.cfg.Seed ^ 0x90e7)
	seen := map[string]bool{}
	var paths []string
	for p := range vol {
		seen[p] = true
		paths = append(paths, p)
	}
	for p := range m.start {
		if !seen[p] {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	mode := r.N(4) // some power cuts lose everything recent, some almost nothing
	for _, p := range paths {
		v, o := vol[p], m.start[p]
		x := r.N(8)
		if mode == 0 {
			x = 0
		}
		if mode == 1 && x > 1 {
			x = 7
		}
		cut := r.U64()
		if v == nil {
			if x < 3 && o != nil {
				out[p] = o
			}
			continue
		}
		if v.Kind != 'f' {
			if o != nil || x > 1 {
				out[p] = v
			}
			continue
		}
		if o != nil && o.Kind == 'f' && string(o.Data) == string(v.Data) {
			out[p] = v
			continue
		}
		_, _, nd, _, _ := m.walk(p, false, 0)
		synced := nd != nil && nd.isSync && string(nd.synced) == string(v.Data)
		e := *v
		switch {
		case synced:
			if x < 2 {
				if o != nil {
					out[p] = o
				}
				continue
			}
		case x == 0 || x == 1:
			if o != nil {
				out[p] = o
			}
			continue
		case x == 2:
			e.Data = nil
		case x == 3:
			e.Data = v.Data[:cut%uint64(len(v.Data)+1)]
		case x == 4:
			e.Data = v.Data[:(cut%uint64(len(v.Data)+1))&^4095]
		case x == 5:
			k := cut % uint64(len(v.Data)+1)
			e.Data = append(append([]byte{}, v.Data[:k]...), make([]byte, len(v.Data)-int(k))...)
		case x == 6 && o != nil && o.Kind == 'f':
			// new length, old bytes
			d := make([]byte, len(v.Data))
			copy(d, o.Data)
			e.Data = d
		}
		out[p] = &e
	}
	// a surviving entry implies surviving parents
	for p := range out {
		for d := p[:strings.LastIndex(p, "/")]; d != ""; d = d[:strings.LastIndex(d, "/")] {
			if out[d] == nil {
				if vol[d] != nil {
					out[d] = vol[d]
				} else {
					out[d] = m.start[d]
				}
			}
		}
	}
	for _, p := range m.procs {
		if !p.done {
			p.dead = true
			p.res.Exit = -1
		}
	}
	m.res.Image = out
	m.finish()
}

func (m *Machine) image() wire.Image {
	out := wire.Image{}
	var rec func(n *inode, path string)
	rec = func(n *inode, path string) {
		for name, c := range n.ents {
			p := path + "/" + name
			e := &wire.Entry{Path: p, Kind: c.kind, Mode: c.mode, Mtime: c.mtime, Ino: c.ino}
			switch c.kind {
			case 'f':
				e.Data = c.data
			case 'l':
				e.Data = []byte(c.target)
			}
			out[p] = e
			if c.kind == 'd' {
				rec(c, p)
			}
		}
	}
	rec(m.root, "")
	return out
}

func (m *Machine) finish() {
	m.over = true
	if m.res.Image == nil {
		m.res.Image = m.image()
	}
	for i, p := range m.procs {
		m.res.Procs[i] = p.res
	}
	m.res.SimTime = m.clock - m.cfg.Clock
	m.Finish(&m.res)
}

// ProcEnd reports that a simulated process ended.
func (m *Machine) ProcEnd(pi int, exit int, pan string) {
	m.mu.Lock()
	p := m.procs[pi]
	if p.dead {
		m.mu.Unlock()
		select {}
	}
	p.done = true
	p.res.Exit = exit
	p.res.Panic = pan
	// descriptors die with the process
	for fd, f := range m.fds {
		if f.proc == pi {
			delete(m.fds, fd)
		}
	}
	for _, q := range m.procs {
		if !q.done && !q.dead {
			m.reschedule(pi)
			m.mu.Unlock()
			return
		}
	}
	m.finish()
}

// Wait blocks a process until it may start.
func (m *Machine) Wait(pi int) {
	m.mu.Lock()
	for m.token != pi {
		m.cond.Wait()
	}
	m.mu.Unlock()
}

// Getpid is the calling process's number.
func (m *Machine) Getpid() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.procs[m.Current()].Pid
}

// Hostname is the machine's name.
func (m *Machine) Hostname() string { return m.procs[0].Host }

func (m *Machine) Now() int64 {
	m.mu.Lock()
	m.clock += 100
	t := m.clock
	m.mu.Unlock()
	return t
}

// Sleep lets simulated time pass.
func (m *Machine) Sleep(ns int64) {
	m.mu.Lock()
	m.clock += ns
	m.mu.Unlock()
	runtime.Gosched()
}

func (m *Machine) bad(canon string, opens bool) error {
	for _, b := range m.cfg.BadPaths {
		if strings.HasPrefix(canon, b+"/") || (opens && canon == b) {
			e := m.cfg.BadErr
			if e == 0 {
				e = int(syscall.EACCES)
			}
			return syscall.Errno(e)
		}
	}
	return nil
}

func (m *Machine) badHit(c *opctx, err error) {
	c.fault = "badpath"
	m.res.Fired = append(m.res.Fired, wire.Fault{Proc: c.pi, Op: c.n, Kind: "badpath"})
	_ = err
}

// PutFile replaces a file in one step, as renaming over it would.
func (m *Machine) PutFile(path string, data []byte, mtime int64) {
	m.mu.Lock()
	defer m.mu.Unlock()
	dir := m.mkdirs(path[:strings.LastIndex(path, "/")])
	dir.ents[base(path)] = &inode{ino: m.ino(), kind: 'f', mode: 0644, mtime: mtime, data: data}
}

// DelFile removes a file.
func (m *Machine) DelFile(path string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	par, name, nd, _, err := m.walk(path, false, 0)
	if err == nil && nd != nil && par != nil {
		delete(par.ents, name)
	}
}

// WebEnd finishes a run of the web server.
func (m *Machine) WebEnd(elapsed int64, pan string, extra []byte) {
	m.mu.Lock()
	m.procs[0].res.Panic = pan
	if pan != "" {
		m.procs[0].res.Exit = -2
	}
	m.clock = m.cfg.Clock + elapsed
	m.res.Extra = extra
	m.finish()
}
