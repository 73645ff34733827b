package proc

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"
	"time"

	"gosim/fsim"
	"gosim/wire"
)

// web runs the real server inside a bubble of simulated time. The driver plays
// the script; after each event everything runs until it is idle.
func web(m *fsim.Machine, job *wire.Job, main func()) {
	var sc wire.WebScript
	if err := json.Unmarshal(job.Web, &sc); err != nil {
		fail(err)
	}
	// time comes from the bubble
	time.SimNow = nil
	runtime.SimSleep = nil
	runtime.SimBubble(func() { drive(m, job, &sc, main) })
}

func drive(m *fsim.Machine, job *wire.Job, sc *wire.WebScript, main func()) {
	start := time.Now()
	res := &wire.WebResult{}
	lis := &listener{wake: make(chan struct{}, 1)}
	lis.cond = sync.NewCond(&lis.mu)
	net.SimListen = func(network, address string) (net.Listener, error) {
		res.Listen = address
		lis.addr = address
		return lis, nil
	}
	os.SimExit = func(code int) {
		res.Exited, res.Exit = true, code
		select {}
	}
	lat := wire.NewRand(sc.Seed ^ 0x1a7)
	m.Latency = func() {
		if sc.Latency > 0 {
			time.Sleep(time.Duration(lat.U64() % uint64(sc.Latency)))
		}
	}
	pan := ""
	os.Args = job.Procs[0].Args
	go func() {
		defer func() {
			if r := recover(); r != nil {
				pan = fmt.Sprint(r) + "\n" + site(string(debug.Stack()))
			}
		}()
		main()
		res.Exited = true
	}()
	// the server starts
	for i := 0; i < 36000 && res.Listen == "" && !res.Exited && pan == ""; i++ {
		runtime.SimWait()
		if res.Listen == "" {
			time.Sleep(100 * time.Millisecond)
		}
	}
	clients := map[int]*conn{}
	max := -1
	get := func(k int) *conn {
		c := clients[k]
		if c == nil {
			c = &conn{id: k, window: 1 << 62, start: start}
			c.cond = sync.NewCond(&c.mu)
			clients[k] = c
			if k > max {
				max = k
			}
		}
		return c
	}
	ev := 0
	for i, e := range sc.Events {
		ev = i
		for _, c := range clients {
			c.event = i
		}
		switch e.Op {
		case "connect":
			c := get(e.Client)
			c.event = i
			if e.N > 0 {
				c.window = e.N
			}
			lis.push(c, nil)
		case "accepterr":
			lis.push(nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)})
		case "send":
			get(e.Client).feed(e.Data)
		case "eof":
			get(e.Client).hangup(io.EOF)
		case "reset":
			get(e.Client).hangup(syscall.ECONNRESET)
		case "credit":
			get(e.Client).credit(e.N)
		case "sleep":
			time.Sleep(time.Duration(e.N))
		case "put":
			m.PutFile(e.Path, e.Data, e.N)
		case "del":
			m.DelFile(e.Path)
		}
		runtime.SimWait()
	}
	for _, c := range clients {
		c.event = ev + 1
	}
	time.Sleep(time.Duration(sc.Settle))
	runtime.SimWait()
	for k := 0; k <= max; k++ {
		c := clients[k]
		if c == nil {
			res.Clients = append(res.Clients, wire.WebClient{})
			continue
		}
		res.Clients = append(res.Clients, wire.WebClient{Recv: c.out, Marks: c.marks, Closed: c.closed, Sent: c.sent, Taken: c.taken})
	}
	res.Elapsed = int64(time.Since(start))
	if pan != "" {
		res.Exited = true
	}
	m.WebEnd(res.Elapsed, pan, mustJSON(res))
	select {}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fail(err)
	}
	return b
}

// ---- simulated network

type pending struct {
	c   *conn
	err error
}

type listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []pending
	addr   string
	closed bool
	wake   chan struct{}
}

func (l *listener) push(c *conn, err error) {
	l.mu.Lock()
	l.queue = append(l.queue, pending{c, err})
	l.cond.Broadcast()
	l.mu.Unlock()
}

func (l *listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for len(l.queue) == 0 && !l.closed {
		l.cond.Wait()
	}
	if l.closed {
		return nil, net.ErrClosed
	}
	p := l.queue[0]
	l.queue = l.queue[1:]
	if p.err != nil {
		return nil, p.err
	}
	p.c.taken = true
	return p.c, nil
}

func (l *listener) Close() error {
	l.mu.Lock()
	l.closed = true
	l.cond.Broadcast()
	l.mu.Unlock()
	return nil
}

func (l *listener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4zero, Port: 8081} }

type conn struct {
	mu       sync.Mutex
	cond     *sync.Cond
	id       int
	start    time.Time
	in       []byte
	sent     int
	inErr    error
	out      []byte
	window   int64 // bytes the client is still willing to take
	marks    []wire.WebMark
	event    int
	closed   bool
	taken    bool
	reset    bool
	rd, wd   time.Time
	rt, wt   *time.Timer
	errClose error
}

func (c *conn) feed(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.sent += len(b)
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *conn) hangup(err error) {
	c.mu.Lock()
	c.inErr = err
	if err != io.EOF {
		c.reset = true
		c.in = nil
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *conn) credit(n int64) {
	c.mu.Lock()
	if n <= 0 {
		c.window = 1 << 62
	} else {
		c.window += n
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if !c.rd.IsZero() && !time.Now().Before(c.rd) {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		if len(c.in) > 0 {
			n := copy(b, c.in)
			c.in = c.in[n:]
			return n, nil
		}
		if c.inErr == io.EOF {
			return 0, io.EOF
		}
		if c.inErr != nil {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", c.inErr)}
		}
		if len(b) == 0 {
			return 0, nil
		}
		c.cond.Wait()
	}
}

func (c *conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	done := 0
	for {
		if c.closed {
			return done, net.ErrClosed
		}
		if c.reset {
			return done, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
		}
		if !c.wd.IsZero() && !time.Now().Before(c.wd) {
			return done, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		n := int64(len(b) - done)
		if n > c.window {
			n = c.window
		}
		if n > 0 {
			c.out = append(c.out, b[done:done+int(n)]...)
			c.window -= n
			done += int(n)
			c.marks = append(c.marks, wire.WebMark{Event: c.event, Len: len(c.out), Time: int64(time.Since(c.start))})
		}
		if done == len(b) {
			return done, nil
		}
		c.cond.Wait()
	}
}

func (c *conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.cond.Broadcast()
	return nil
}

// CloseWrite is what the server uses to finish politely.
func (c *conn) CloseWrite() error { return nil }

func (c *conn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 8081} }
func (c *conn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, byte(1+c.id%250)), Port: 20000 + c.id}
}

func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *conn) arm(old *time.Timer, t time.Time) *time.Timer {
	if old != nil {
		old.Stop()
	}
	if t.IsZero() {
		return nil
	}
	d := time.Until(t)
	if d <= 0 {
		c.cond.Broadcast()
		return nil
	}
	return time.AfterFunc(d, func() {
		c.mu.Lock()
		c.cond.Broadcast()
		c.mu.Unlock()
	})
}

func (c *conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.rd = t
	c.rt = c.arm(c.rt, t)
	c.cond.Broadcast()
	return nil
}

func (c *conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.wd = t
	c.wt = c.arm(c.wt, t)
	c.cond.Broadcast()
	return nil
}
