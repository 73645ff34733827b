package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"path"
	"sort"
	"strings"
	"time"

	"gosim/wire"
)

// ---- C09 the web server

const secret = "SECRET-7f3a"

var propC09 = &Prop{ID: "C09", Quick: 8000, Thorough: 300000,
	Rule: "distinct histories of (system calls, bytes delivered to clients) of web server runs",
	Gen:  genWeb, Judge: judgeWeb}

func genWeb(r *wire.Rand, seed uint64, idx int) *Scenario {
	p := &Project{Root: "/w/p", Cwd: "/w/cwd", Img: wire.Image{}}
	im := p.Img
	sc := &Scenario{Prop: "C09", Seed: seed, Proj: p}
	mkdir(im, p.Cwd)
	site, rel := "/w/site", "../site"
	switch r.N(4) {
	case 0:
		site, rel = "/w/p/public", "public"
	case 1:
		site, rel = "/w/x y/site.d", "../x y/site.d"
		rel = "\"" + rel + "\""
	}
	port := 8081
	portText := ""
	if r.Chance(1, 2) {
		port = 1024 + r.N(60000)
		portText = fmt.Sprintf(" :port %d", port)
	}
	put(im, "/w/p/project.vxlisp", "(project q :version \"1\" :author \"A\" :doc \""+secret+"\" :javadomain \"d\"\n :cmds\n  (cmd web :code :webserver :path "+rel+portText+")\n  (cmd doc :code :doc :path ../docs))\n")
	put(im, "/w/p/vx/core.vxlisp", strings.Replace(liteCore, "core\")", "core "+secret+"\")", 1))
	put(im, "/w/p/vx/test.vxlisp", liteTest)
	put(im, "/etc/passwd", "root "+secret)
	put(im, "/w/secret.txt", secret)
	put(im, site+"-secret/x.txt", secret)
	put(im, path.Dir(site)+"/secret.txt", secret)
	p.Cmds = []Cmd{{Name: "web"}}
	// the site
	var files []string
	content := func() []byte {
		n := []int{0, 1, r.N(100), r.N(5000), r.N(70000), r.N(300000)}[r.N(6)]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64() >> 13)
		}
		if r.Chance(1, 3) {
			b = []byte(strings.Repeat("<p>"+r.Pick(words)+"</p>\n", n/20+1))
		}
		return b
	}
	names := []string{"a.txt", "b.html", "index.html", "c.bin", "d/e.js", "d/f/g.css", "sp ace.txt", "ünï.txt", "pct%41.txt", "q?x.txt", "h#h.txt", "d/index.html", "z/..hidden", ".dot", "UP.TXT", "noext", "x.json", "d/f/deep.svg", "a+b.txt", "semi;x.txt"}
	for k := 3 + r.N(6); k > 0; k-- {
		f := site + "/" + names[r.N(len(names))]
		if im[f] == nil {
			put(im, f, string(content()))
			im[f].Mtime = 1600000000e9 + int64(r.N(1e8))*1e9
			files = append(files, f)
		}
	}
	sort.Strings(files)
	mkdir(im, site+"/empty")
	exists := map[string]bool{}
	for _, f := range files {
		exists[f] = true
	}
	var victims []string
	c := randCfg(r)
	if r.Chance(2, 3) && len(files) > 1 && !strings.HasPrefix(site, "/w/p/") {
		for _, f := range files {
			if r.Chance(1, 3) && len(victims) < len(files)-1 {
				victims = append(victims, f)
			}
		}
		if len(victims) > 0 {
			c.Kinds = append(pickSome(r, []string{"open-eio", "open-eacces", "open-emfile", "read-eio", "stat-eio"}, 3), "read-short", "read-eintr")
			c.Rate = 20000
			c.MaxFaults = 1 + r.N(20)
			c.ReadScope = victims
			c.WriteScope = []string{"/nowhere"}
		}
	}
	isVictim := func(f string) bool { return contains(victims, f) }
	esc := func(f string) string { return (&url.URL{Path: strings.TrimPrefix(f, site)}).EscapedPath() }
	request := func() string {
		m := "GET"
		if r.Chance(1, 8) {
			m = "HEAD"
		}
		hdr := ""
		var target string
		switch r.N(10) {
		case 0: // absent
			target = []string{"/nope", "/d/nope.txt", "/a.txt/x", "/A.TXT.bak", "/empty/none", "/up.txt"}[r.N(6)]
		case 1: // outside
			target = []string{"/../secret.txt", "/..%2fsecret.txt", "/%2e%2e/secret.txt", "/d/../../secret.txt", "//etc/passwd", "/..\\secret.txt", "/....//secret.txt", "/../site-secret/x.txt", "/..;/secret.txt", "/%252e%252e/secret.txt", "/d/%2e%2e/%2e%2e/secret.txt", "/" + "../../../../../etc/passwd", "/a.txt/../../secret.txt", "/%00/../secret.txt", "http://h/../secret.txt", "/../" + path.Base(site) + "-secret/x.txt", "/./../p/project.vxlisp", "/..%5csecret.txt", "/..%2f..%2f..%2fetc%2fpasswd"}[r.N(19)]
		case 2: // folders
			target = []string{"/", "/d", "/d/", "/empty", "/empty/", "/d/f/"}[r.N(6)]
		default:
			f := files[r.N(len(files))]
			target = esc(f)
			n := len(im[f].Data)
			switch r.N(6) {
			case 0:
				a := r.N(n + 2)
				hdr = []string{fmt.Sprintf("Range: bytes=%d-%d\r\n", a, a+r.N(n+2)), fmt.Sprintf("Range: bytes=%d-\r\n", a), fmt.Sprintf("Range: bytes=-%d\r\n", a)}[r.N(3)]
			case 1:
				hdr = "If-Modified-Since: " + time.Unix(1600000000+int64(r.N(1e8)), 0).UTC().Format(http.TimeFormat) + "\r\n"
			case 2:
				target += "?v=" + r.Pick(words)
			}
		}
		return m + " " + target + " HTTP/1.1\r\nHost: localhost\r\n" + hdr + "\r\n"
	}
	w := &wire.WebScript{Seed: r.U64(), Settle: 40e9}
	if r.Chance(3, 4) {
		w.Latency = []int64{1e5, 1e7, 3e8}[r.N(3)]
	}
	add := func(e wire.WebEvent) { w.Events = append(w.Events, e) }
	client := 0
	// unpleasant company first: they stay for good
	if r.Chance(1, 2) {
		n := 1 + r.N(6)
		if r.Chance(1, 10) {
			n = 150
		}
		for k := 0; k < n; k++ {
			e := wire.WebEvent{Op: "connect", Client: client, Path: "bad"}
			switch r.N(5) {
			case 0: // sends nothing
				add(e)
			case 1: // never finishes its request
				add(e)
				q := request()
				add(wire.WebEvent{Op: "send", Client: client, Data: []byte(q[:r.N(len(q))])})
			case 2: // never reads
				e.N = int64(1 + r.N(300))
				add(e)
				add(wire.WebEvent{Op: "send", Client: client, Data: []byte(request() + request())})
			case 3: // garbage
				add(e)
				b := make([]byte, 1+r.N(3000))
				for i := range b {
					b[i] = byte(r.U64())
				}
				add(wire.WebEvent{Op: "send", Client: client, Data: b})
			case 4: // endless header
				add(e)
				add(wire.WebEvent{Op: "send", Client: client, Data: []byte("GET / HTTP/1.1\r\nX: " + strings.Repeat("y", 1<<uint(r.N(18))))})
			}
			client++
		}
		if r.Chance(1, 2) {
			add(wire.WebEvent{Op: "sleep", N: []int64{1e9, 3600e9, 86400e9}[r.N(3)]})
		}
	}
	// ordinary clients, interleaved
	type cl struct {
		id    int
		plan  []wire.WebEvent
		start int
	}
	var cls []*cl
	total := 0
	for k := 1 + r.N(5); k > 0; k-- {
		x := &cl{id: client}
		client++
		e := wire.WebEvent{Op: "connect", Client: x.id}
		slow := r.Chance(1, 3)
		if slow {
			e.N = int64(1 + r.N(5000))
		}
		x.plan = append(x.plan, e)
		text := ""
		for q := 1 + r.N(3); q > 0; q-- {
			text += request()
		}
		chunks := 1 + r.N(5)
		for len(text) > 0 {
			n := len(text)
			if chunks > 1 {
				n = 1 + r.N(len(text))
				chunks--
			}
			x.plan = append(x.plan, wire.WebEvent{Op: "send", Client: x.id, Data: []byte(text[:n])})
			text = text[n:]
		}
		if slow {
			for q := r.N(4); q > 0; q-- {
				x.plan = append(x.plan, wire.WebEvent{Op: "credit", Client: x.id, N: int64(1 + r.N(100000))})
			}
			x.plan = append(x.plan, wire.WebEvent{Op: "credit", Client: x.id})
		}
		switch r.N(8) {
		case 0:
			k := 1 + r.N(len(x.plan))
			x.plan = append(x.plan[:k:k], append([]wire.WebEvent{{Op: "reset", Client: x.id}}, x.plan[k:]...)...)
		case 1:
			x.plan = append(x.plan, wire.WebEvent{Op: "eof", Client: x.id})
		}
		total += len(x.plan)
		cls = append(cls, x)
	}
	version := 0
	last := map[string]*wire.Entry{}
	for _, f := range files {
		last[f] = im[f]
	}
	for total > 0 {
		x := cls[r.N(len(cls))]
		if len(x.plan) == 0 {
			continue
		}
		add(x.plan[0])
		x.plan = x.plan[1:]
		total--
		switch r.N(10) {
		case 0, 1:
			if r.Chance(1, 8) {
				add(wire.WebEvent{Op: "sleep", N: int64(r.N(20e9))})
			} else {
				add(wire.WebEvent{Op: "sleep", N: int64(r.N(100e6))})
			}
		case 2:
			if r.Chance(1, 2) {
				f := files[r.N(len(files))]
				if !isVictim(f) {
					version++
					e := wire.WebEvent{Op: "put", Path: f, Data: append(content(), byte(version)), N: 1700000000e9 + int64(version)*1e9}
					if old := last[f]; old != nil && len(old.Data) > 0 && r.Chance(1, 3) {
						// other bytes, but the same size and date
						e.N, e.Data = old.Mtime, append([]byte{}, old.Data...)
						e.Data[r.N(len(e.Data))]++
					}
					last[f] = &wire.Entry{Data: e.Data, Mtime: e.N}
					add(e)
				}
			}
		case 3:
			if r.Chance(1, 3) {
				f := files[r.N(len(files))]
				if !isVictim(f) {
					add(wire.WebEvent{Op: "del", Path: f})
				}
			}
		case 4:
			if r.Chance(1, 4) {
				add(wire.WebEvent{Op: "accepterr"})
			}
		}
	}
	// someone comes last, when everything else has happened
	add(wire.WebEvent{Op: "sleep", N: 1e9})
	add(wire.WebEvent{Op: "connect", Client: client})
	f := files[0]
	for _, g := range files {
		if !isVictim(g) {
			f = g
		}
	}
	add(wire.WebEvent{Op: "send", Client: client, Data: []byte("GET " + esc(f) + " HTTP/1.1\r\nHost: h\r\n\r\n")})
	cmds := []string{"web"}
	if r.Chance(1, 6) {
		cmds = []string{"doc", "web"}
	}
	sc.Steps = []Step{{Op: "web", Cmds: cmds, Cfg: c, Web: w, Path: site, Tag: fmt.Sprint(port)}}
	return sc
}

type version struct {
	from  int // event
	data  []byte
	exist bool
	mtime int64
}

func judgeWeb(w *World) error {
	st := &w.sc.Steps[0]
	if st.Web == nil || !contains(st.Cmds, "web") {
		return nil
	}
	site := st.Path
	job := w.job(w.img, st.Cmds, st.Cfg)
	job.Mode = "web"
	job.Web, _ = json.Marshal(st.Web)
	res, err := w.sim.Run(job)
	if err != nil {
		return err
	}
	var out wire.WebResult
	if len(res.Extra) == 0 {
		w.violate("dies", "the server dies: %s", tail(res.Procs[0].Panic, 1500))
		return nil
	}
	if err := json.Unmarshal(res.Extra, &out); err != nil {
		return fmt.Errorf("%w: %v", errInfra, err)
	}
	// everything each client saw is part of the history
	h := res.Digest
	for _, c := range out.Clients {
		h = wire.Hash(h, string(c.Recv), fmt.Sprint(c.Marks, c.Closed))
	}
	w.v.Digests = append(w.v.Digests, h)
	w.v.Faults += len(res.Fired)
	w.v.Key = wire.Hash(w.v.Key, fmt.Sprint(h))
	st.Cfg.Explicit = true
	st.Cfg.Faults = res.Fired
	kinds := map[string]int{}
	for _, e := range st.Web.Events {
		switch {
		case e.Op == "connect" && e.Path == "bad":
			kinds["net-hostile-client"]++
		case e.Op == "connect" && e.N > 0:
			kinds["net-slow-reader"]++
		case e.Op == "accepterr":
			kinds["net-accept-emfile"]++
		case e.Op == "reset" || e.Op == "eof":
			kinds["net-"+e.Op]++
		case e.Op == "put" || e.Op == "del":
			kinds["file-"+e.Op+"-while-serving"]++
		}
	}
	if st.Web.Latency > 0 {
		kinds["disk-latency-runs"]++
	}
	for k, n := range kinds {
		w.v.Faults += n
		w.sim.mu.Lock()
		w.sim.fired[k] += int64(n)
		w.sim.mu.Unlock()
	}
	for i, e := range st.Web.Events {
		d := string(e.Data)
		if len(d) > 120 {
			d = d[:120] + "..."
		}
		w.trace = append(w.trace, fmt.Sprintf("event %d %s client %d %s %d %q", i, e.Op, e.Client, e.Path, e.N, d))
	}
	for _, op := range res.Trace {
		w.trace = append(w.trace, fmt.Sprintf("  op %d %s %s -> %d errno %d [%s]", op.N, op.Name, op.Path, op.Res, op.Err, op.Fault))
	}
	if out.Listen == "" {
		w.violate("never-listens", "the server never listens: exit %v %d %s %s", out.Exited, out.Exit, res.Procs[0].Panic, tail(string(res.Procs[0].Stdout), 300))
		return nil
	}
	if out.Exited {
		w.violate("stops", "the server ends: exit %d %s %s", out.Exit, res.Procs[0].Panic, tail(string(res.Procs[0].Stderr), 400))
		return nil
	}
	if !strings.HasSuffix(out.Listen, ":"+st.Tag) {
		w.violate("port", "the server listens on %s instead of port %s", out.Listen, st.Tag)
		return nil
	}
	// what was where, when
	hist := map[string][]version{}
	dirs := map[string]bool{site: true}
	for f, e := range w.sc.Proj.Img {
		if e.Kind == 'f' {
			hist[f] = []version{{-1, e.Data, true, e.Mtime}}
			for d := path.Dir(f); d != "/"; d = path.Dir(d) {
				dirs[d] = true
			}
		} else {
			dirs[f] = true
		}
	}
	hurt := map[string]bool{}
	for _, f := range st.Cfg.ReadScope {
		hurt[f] = true
	}
	type sent struct {
		bytes  []byte
		event  []int
		ruined bool
		bad    bool
		slow   bool
	}
	cl := map[int]*sent{}
	for i, e := range st.Web.Events {
		s := cl[e.Client]
		switch e.Op {
		case "connect":
			cl[e.Client] = &sent{bad: e.Path == "bad", slow: e.N > 0}
		case "send":
			if s == nil {
				return nil // not a real history
			}
			for range e.Data {
				s.event = append(s.event, i)
			}
			s.bytes = append(s.bytes, e.Data...)
		case "eof", "reset":
			if s == nil {
				return nil
			}
			s.ruined = true
		case "credit":
			if s == nil {
				return nil
			}
			if e.N <= 0 {
				s.slow = false
			}
		case "put":
			hist[e.Path] = append(hist[e.Path], version{i, e.Data, true, e.N})
		case "del":
			hist[e.Path] = append(hist[e.Path], version{i, nil, false, 0})
		}
	}
	for k, c := range out.Clients {
		if bytes.Contains(c.Recv, []byte(secret)) {
			w.violate("reveals", "client %d received something from outside the folder: %q", k, around(c.Recv, secret))
			return nil
		}
		s := cl[k]
		if s == nil || s.bad {
			continue
		}
		in := bytes.NewReader(s.bytes)
		inb := bufio.NewReader(in)
		src := &counter{r: bytes.NewReader(c.Recv)}
		rb := bufio.NewReaderSize(src, 1<<16)
		for n := 0; ; n++ {
			startOff := len(s.bytes) - in.Len() - inb.Buffered()
			req, err := http.ReadRequest(inb)
			if err != nil {
				break
			}
			raw := req.RequestURI
			startEv := s.event[startOff]
			resp, err := http.ReadResponse(rb, req)
			if err != nil {
				if s.ruined || s.slow {
					break
				}
				w.violate("no-answer", "client %d: request %d (%s %s) is never answered (%v); connection closed by server: %v, received %q", k, n, req.Method, raw, err, c.Closed, tail(string(c.Recv), 200))
				return nil
			}
			body, berr := io.ReadAll(resp.Body)
			endEv := len(st.Web.Events) + 1
			off := src.n - rb.Buffered()
			for _, m := range c.Marks {
				if m.Len >= off {
					endEv = m.Event
					break
				}
			}
			if berr != nil && (s.ruined || s.slow) {
				break
			}
			if !w.judgeAnswer(k, req, raw, resp, body, berr, site, hist, dirs, hurt, startEv, endEv) {
				return nil
			}
			if resp.Close || berr != nil {
				break
			}
		}
	}
	return nil
}

type counter struct {
	r io.Reader
	n int
}

func (c *counter) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	c.n += n
	return n, err
}

func around(b []byte, s string) string {
	i := bytes.Index(b, []byte(s))
	a, e := i-60, i+60
	if a < 0 {
		a = 0
	}
	if e > len(b) {
		e = len(b)
	}
	return string(b[a:e])
}

// judgeAnswer compares one answer with what was on the disk meanwhile.
func (w *World) judgeAnswer(k int, req *http.Request, raw string, resp *http.Response, body []byte, berr error, site string, hist map[string][]version, dirs, hurt map[string]bool, from, to int) bool {
	p := req.URL.Path
	weird := !strings.HasPrefix(p, "/") || strings.Contains(p, "//") || strings.ContainsAny(p, "\x00\\") || req.URL.Host != ""
	for _, el := range strings.Split(p, "/") {
		if el == ".." || el == "." {
			weird = true
		}
	}
	if weird {
		w.note("odd path")
		return true // only that nothing from outside shows
	}
	f := site + strings.TrimSuffix(p, "/")
	if path.Base(p) == "index.html" && resp.StatusCode/100 == 3 && resp.StatusCode != 304 {
		return true
	}
	if dirs[f] {
		if resp.StatusCode >= 500 && !hurt[f] && !hurt[f+"/index.html"] {
			anyHurt := false
			for h := range hurt {
				if strings.HasPrefix(h, f+"/") {
					anyHurt = true
				}
			}
			if !anyHurt {
				w.violate("folder", "client %d: %s answered with status %d", k, raw, resp.StatusCode)
				return false
			}
		}
		w.note("folder")
		return true
	}
	var vs []version
	hs := hist[f]
	if len(hs) == 0 || hs[0].from >= 0 {
		hs = append([]version{{from: -1}}, hs...)
	}
	for i, v := range hs {
		last := i+1 == len(hs) || hs[i+1].from > from
		if v.from <= to && last {
			vs = append(vs, v)
		}
	}
	slash := strings.HasSuffix(p, "/")
	full := req.Method != "HEAD"
	why := ""
	for _, v := range vs {
		ok := false
		switch {
		case !v.exist:
			ok = resp.StatusCode == 404
			for q := path.Dir(f); q != "/"; q = path.Dir(q) {
				ok = ok || (hurt[q] && resp.StatusCode >= 400)
				for _, x := range hist[q] {
					// a file used like a folder, removed while the request looks at it
					ok = ok || (x.from >= from && x.from <= to && resp.StatusCode >= 400)
				}
			}
			why = fmt.Sprintf("status %d for something that is not there", resp.StatusCode)
		case slash:
			ok = resp.StatusCode != 200 || bytes.Equal(body, v.data)
		case resp.StatusCode == 200:
			ok = berr == nil && (!full || bytes.Equal(body, v.data))
			if !full && ok && resp.ContentLength >= 0 {
				ok = resp.ContentLength == int64(len(v.data))
			}
			why = fmt.Sprintf("a wrong body: %s (%v)", diffAt(body, v.data), berr)
		case resp.StatusCode == 206:
			a, b, good := rangeOf(req.Header.Get("Range"), len(v.data))
			ok = good && berr == nil && (!full || bytes.Equal(body, v.data[a:b]))
			if ok && resp.Header.Get("Content-Range") != fmt.Sprintf("bytes %d-%d/%d", a, b-1, len(v.data)) {
				ok = false
			}
			why = fmt.Sprintf("a wrong range: %q for %q of %d bytes", resp.Header.Get("Content-Range"), req.Header.Get("Range"), len(v.data))
		case resp.StatusCode == 416:
			_, _, good := rangeOf(req.Header.Get("Range"), len(v.data))
			ok = !good && req.Header.Get("Range") != ""
			why = fmt.Sprintf("range refused: %q of %d bytes", req.Header.Get("Range"), len(v.data))
		case resp.StatusCode == 304:
			t, err := http.ParseTime(req.Header.Get("If-Modified-Since"))
			ok = err == nil && v.mtime/1e9 <= t.Unix()
			why = "not-modified for something that was modified"
		default:
			why = fmt.Sprintf("status %d for a file that is there", resp.StatusCode)
		}
		if hurt[f] && !ok {
			// the disk refuses this very file: any refusal is right, a wrong answer is not
			ok = resp.StatusCode >= 400 || berr != nil || resp.StatusCode == 304
		}
		if ok {
			w.note(fmt.Sprintf("status %d", resp.StatusCode))
			return true
		}
	}
	w.violate("wrong-answer", "client %d: %s %s is answered with %s", k, req.Method, raw, why)
	return false
}

// rangeOf interprets a single byte range; good is false if it cannot be satisfied.
func rangeOf(h string, n int) (a, b int, good bool) {
	h = strings.TrimPrefix(h, "bytes=")
	i := strings.Index(h, "-")
	if i < 0 {
		return 0, 0, false
	}
	num := func(s string) int {
		x := 0
		fmt.Sscan(s, &x)
		return x
	}
	if i == 0 {
		k := num(h[1:])
		if k > n {
			k = n
		}
		return n - k, n, k > 0 || true
	}
	a = num(h[:i])
	b = n
	if h[i+1:] != "" && num(h[i+1:])+1 < n {
		b = num(h[i+1:]) + 1
	}
	if a >= n || (h[i+1:] != "" && num(h[i+1:]) < a) {
		return 0, 0, false
	}
	return a, b, true
}
