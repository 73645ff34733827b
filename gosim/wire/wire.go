// Package wire defines what the search driver and one simulated process
// exchange: a disk image, the seeds and faults to apply, and what was observed.
// It is compiled into both sides.
package wire

import (
	"encoding/binary"
	"errors"
	"os"
	"sort"
)

// Entry is one object of a disk image.
type Entry struct {
	Path  string
	Kind  byte // 'f' file, 'd' directory, 'l' symbolic link
	Mode  uint32
	Mtime int64 // ns of simulated time
	Ino   int64
	Data  []byte // file content or link target
}

// Image is a disk: entries by absolute path.
type Image map[string]*Entry

func (im Image) Clone() Image {
	out := make(Image, len(im))
	for k, v := range im {
		e := *v
		out[k] = &e // Data slices are never mutated in place
	}
	return out
}

func (im Image) Paths() []string {
	out := make([]string, 0, len(im))
	for k := range im {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Fault is one decision taken against the system under simulation.
type Fault struct {
	Proc int    // simulated process
	Op   int    // index of the operation within that process
	Kind string // see fsim
	Arg  int64  // kind specific, e.g. bytes accepted
}

// Step is one scheduling decision: at global step N, process Proc ran.
type Config struct {
	Seed     uint64
	MapSeed  uint64 // seeds hash tables and every runtime random number
	Clock    int64  // simulated start time, ns
	Explicit bool   // apply Faults only; draw nothing at random
	Faults   []Fault
	Schedule []byte // explicit schedule for concurrent processes
	// random fault generation
	Kinds      []string // enabled fault kinds
	Rate       uint32   // per operation probability, in 1/65536
	MaxFaults  int
	SkipOps    int      // no fault before this operation
	Quota      int64    // bytes that may still be written before the disk is full; <0 none
	CrashOp    int      // kill the process at this operation; <0 never
	PowerLoss  bool     // the crash loses what was not synced
	BadPaths   []string // paths whose accesses always fail
	BadErr     int
	ShuffleDir bool
	WriteScope []string // faults confined to paths below these; empty = everywhere
	ReadScope  []string
	OpLimit    int
	TraceAll   bool
	YieldRate  uint32
}

type Proc struct {
	Args []string
	Cwd  string
	Env  []string
	Host string
	Pid  int
	Heap int // bytes already in use when the program starts
}

type Job struct {
	Image Image
	Procs []Proc
	Cfg   Config
	Mode  string // "build" or "web"
	Web   []byte // mode specific
}

type Op struct {
	Proc  int
	N     int
	Name  string
	Path  string
	Res   int64
	Err   int
	Fault string
}

type ProcResult struct {
	Exit   int // exit status; -1 killed by crash fault, -2 panic
	Panic  string
	Stdout []byte
	Stderr []byte
	Ops    int
}

type Result struct {
	Image    Image // what survives
	Procs    []ProcResult
	Fired    []Fault
	Trace    []Op
	Steps    int
	Schedule []byte
	Digest   uint64 // digest of every operation and its outcome, in order
	SimTime  int64  // simulated ns elapsed
	Limit    bool
	Extra    []byte
	Writes   []Op // operations that changed the disk
}

// ---- codec

type enc struct{ b []byte }

func (e *enc) u(v uint64)  { e.b = binary.AppendUvarint(e.b, v) }
func (e *enc) i(v int64)   { e.b = binary.AppendVarint(e.b, v) }
func (e *enc) bs(v []byte) { e.u(uint64(len(v))); e.b = append(e.b, v...) }
func (e *enc) s(v string)  { e.u(uint64(len(v))); e.b = append(e.b, v...) }
func (e *enc) bo(v bool) {
	if v {
		e.u(1)
	} else {
		e.u(0)
	}
}
func (e *enc) ss(v []string) {
	e.u(uint64(len(v)))
	for _, x := range v {
		e.s(x)
	}
}

type dec struct {
	b   []byte
	bad bool
}

func (d *dec) u() uint64 {
	v, n := binary.Uvarint(d.b)
	if n <= 0 {
		d.bad = true
		d.b = nil
		return 0
	}
	d.b = d.b[n:]
	return v
}
func (d *dec) i() int64 {
	v, n := binary.Varint(d.b)
	if n <= 0 {
		d.bad = true
		d.b = nil
		return 0
	}
	d.b = d.b[n:]
	return v
}
func (d *dec) bs() []byte {
	n := d.u()
	if uint64(len(d.b)) < n {
		d.bad = true
		d.b = nil
		return nil
	}
	v := d.b[:n:n]
	d.b = d.b[n:]
	return v
}
func (d *dec) s() string { return string(d.bs()) }
func (d *dec) bo() bool  { return d.u() != 0 }
func (d *dec) ss() []string {
	n := int(d.u())
	var out []string
	for k := 0; k < n && !d.bad; k++ {
		out = append(out, d.s())
	}
	return out
}

func (e *enc) image(im Image) {
	e.u(uint64(len(im)))
	for _, p := range im.Paths() {
		x := im[p]
		e.s(x.Path)
		e.u(uint64(x.Kind))
		e.u(uint64(x.Mode))
		e.i(x.Mtime)
		e.i(x.Ino)
		e.bs(x.Data)
	}
}
func (d *dec) image() Image {
	n := int(d.u())
	im := make(Image, n)
	for k := 0; k < n && !d.bad; k++ {
		x := &Entry{}
		x.Path = d.s()
		x.Kind = byte(d.u())
		x.Mode = uint32(d.u())
		x.Mtime = d.i()
		x.Ino = d.i()
		x.Data = d.bs()
		im[x.Path] = x
	}
	return im
}
func (e *enc) faults(fs []Fault) {
	e.u(uint64(len(fs)))
	for _, f := range fs {
		e.i(int64(f.Proc))
		e.i(int64(f.Op))
		e.s(f.Kind)
		e.i(f.Arg)
	}
}
func (d *dec) faults() []Fault {
	n := int(d.u())
	var out []Fault
	for k := 0; k < n && !d.bad; k++ {
		f := Fault{Proc: int(d.i()), Op: int(d.i())}
		f.Kind = d.s()
		f.Arg = d.i()
		out = append(out, f)
	}
	return out
}
func (e *enc) ops(fs []Op) {
	e.u(uint64(len(fs)))
	for _, f := range fs {
		e.i(int64(f.Proc))
		e.i(int64(f.N))
		e.s(f.Name)
		e.s(f.Path)
		e.i(f.Res)
		e.i(int64(f.Err))
		e.s(f.Fault)
	}
}
func (d *dec) ops() []Op {
	n := int(d.u())
	var out []Op
	for k := 0; k < n && !d.bad; k++ {
		f := Op{Proc: int(d.i()), N: int(d.i())}
		f.Name = d.s()
		f.Path = d.s()
		f.Res = d.i()
		f.Err = int(d.i())
		f.Fault = d.s()
		out = append(out, f)
	}
	return out
}

func EncodeJob(j *Job) []byte {
	e := &enc{}
	e.s(j.Mode)
	e.bs(j.Web)
	e.u(uint64(len(j.Procs)))
	for _, p := range j.Procs {
		e.ss(p.Args)
		e.s(p.Cwd)
		e.ss(p.Env)
		e.s(p.Host)
		e.i(int64(p.Pid))
		e.i(int64(p.Heap))
	}
	c := &j.Cfg
	e.u(c.Seed)
	e.u(c.MapSeed)
	e.i(c.Clock)
	e.bo(c.Explicit)
	e.faults(c.Faults)
	e.bs(c.Schedule)
	e.ss(c.Kinds)
	e.u(uint64(c.Rate))
	e.i(int64(c.MaxFaults))
	e.i(int64(c.SkipOps))
	e.i(c.Quota)
	e.i(int64(c.CrashOp))
	e.bo(c.PowerLoss)
	e.ss(c.BadPaths)
	e.i(int64(c.BadErr))
	e.bo(c.ShuffleDir)
	e.ss(c.WriteScope)
	e.ss(c.ReadScope)
	e.i(int64(c.OpLimit))
	e.bo(c.TraceAll)
	e.u(uint64(c.YieldRate))
	e.image(j.Image)
	return e.b
}

func DecodeJob(b []byte) (*Job, error) {
	d := &dec{b: b}
	j := &Job{}
	j.Mode = d.s()
	j.Web = d.bs()
	n := int(d.u())
	for k := 0; k < n && !d.bad; k++ {
		p := Proc{Args: d.ss()}
		p.Cwd = d.s()
		p.Env = d.ss()
		p.Host = d.s()
		p.Pid = int(d.i())
		p.Heap = int(d.i())
		j.Procs = append(j.Procs, p)
	}
	c := &j.Cfg
	c.Seed = d.u()
	c.MapSeed = d.u()
	c.Clock = d.i()
	c.Explicit = d.bo()
	c.Faults = d.faults()
	c.Schedule = d.bs()
	c.Kinds = d.ss()
	c.Rate = uint32(d.u())
	c.MaxFaults = int(d.i())
	c.SkipOps = int(d.i())
	c.Quota = d.i()
	c.CrashOp = int(d.i())
	c.PowerLoss = d.bo()
	c.BadPaths = d.ss()
	c.BadErr = int(d.i())
	c.ShuffleDir = d.bo()
	c.WriteScope = d.ss()
	c.ReadScope = d.ss()
	c.OpLimit = int(d.i())
	c.TraceAll = d.bo()
	c.YieldRate = uint32(d.u())
	j.Image = d.image()
	if d.bad {
		return nil, errors.New("bad job encoding")
	}
	return j, nil
}

func EncodeResult(r *Result) []byte {
	e := &enc{}
	e.u(uint64(len(r.Procs)))
	for _, p := range r.Procs {
		e.i(int64(p.Exit))
		e.s(p.Panic)
		e.bs(p.Stdout)
		e.bs(p.Stderr)
		e.i(int64(p.Ops))
	}
	e.faults(r.Fired)
	e.ops(r.Trace)
	e.ops(r.Writes)
	e.i(int64(r.Steps))
	e.bs(r.Schedule)
	e.u(r.Digest)
	e.i(r.SimTime)
	e.bo(r.Limit)
	e.bs(r.Extra)
	e.image(r.Image)
	e.s("end")
	return e.b
}

func DecodeResult(b []byte) (*Result, error) {
	d := &dec{b: b}
	r := &Result{}
	n := int(d.u())
	for k := 0; k < n && !d.bad; k++ {
		p := ProcResult{Exit: int(d.i())}
		p.Panic = d.s()
		p.Stdout = d.bs()
		p.Stderr = d.bs()
		p.Ops = int(d.i())
		r.Procs = append(r.Procs, p)
	}
	r.Fired = d.faults()
	r.Trace = d.ops()
	r.Writes = d.ops()
	r.Steps = int(d.i())
	r.Schedule = d.bs()
	r.Digest = d.u()
	r.SimTime = d.i()
	r.Limit = d.bo()
	r.Extra = d.bs()
	r.Image = d.image()
	if d.s() != "end" || d.bad {
		return nil, errors.New("bad result encoding")
	}
	return r, nil
}

func ReadJob(path string) (*Job, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return DecodeJob(b)
}

// Rand is the one source of randomness: splitmix64.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Chance(num, den int) bool { return r.N(den) < num }
func (r *Rand) Pick(s []string) string   { return s[r.N(len(s))] }
func (r *Rand) Fork(label string) *Rand {
	h := uint64(14695981039346656037)
	for i := 0; i < len(label); i++ {
		h = (h ^ uint64(label[i])) * 1099511628211
	}
	return NewRand(r.U64() ^ h)
}

func Hash(h uint64, parts ...string) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h = (h ^ uint64(p[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return h
}
