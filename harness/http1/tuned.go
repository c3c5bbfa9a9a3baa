package main

import (
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
	"github.com/indigo-web/indigo/router"
)

// Tuned is what is passed to Tune; zero fields are left to their defaults
type Tuned struct {
	Limits         Limits
	Rbuf, Fbuf, Ms int
	Resp, Pre      int // (nothing of this is to be seen)
	Given          bool
	Defaults       []Pair
}

func (t Tuned) M() M {
	defs := []M{}
	for _, p := range t.Defaults {
		defs = append(defs, M{"k": S(p.K), "v": S(p.V)})
	}
	return M{"c": t.Limits.M(), "io": M{"rbuf": t.Rbuf, "timeout": t.Ms, "fbuf": t.Fbuf}, "given": t.Given, "defaults": defs}
}

func (t Tuned) config() (cfg config.Config) {
	l := t.Limits
	cfg.URL.BufferSize = config.URLBufferSize{Default: t.Pre, Maximal: l.Url}
	cfg.Headers.Number = config.HeadersNumber{Default: t.Pre, Maximal: l.Hnum}
	cfg.Headers.MaxKeyLength = l.Klen
	cfg.Headers.KeySpace = config.HeadersKeysSpace{Default: t.Pre, Maximal: l.Kspace}
	cfg.Headers.MaxValueLength = l.Vlen
	cfg.Headers.ValueSpace = config.HeadersValuesSpace{Default: t.Pre, Maximal: l.Vspace}
	cfg.Headers.MaxEncodingTokens = l.Toks
	cfg.Body.MaxSize = uint(l.Body)
	cfg.Body.MaxChunkSize = int64(l.Chunk)
	cfg.TCP.ReadBufferSize = t.Rbuf
	cfg.TCP.ReadTimeout = time.Duration(t.Ms) * time.Millisecond
	cfg.HTTP.FileBuffSize = t.Fbuf
	cfg.HTTP.ResponseBuffSize = t.Resp
	if t.Given {
		cfg.Headers.Default = map[string]string{}
		for _, p := range t.Defaults {
			cfg.Headers.Default[p.K] = p.V
		}
	}
	return cfg
}

// step of building an application
type step struct {
	Op string
	T  Tuned
}

// mem is a listener that hands out one connection
type mem struct {
	conns chan net.Conn
	once  sync.Once
	over  chan struct{}
}

func (m *mem) Accept() (net.Conn, error) {
	select {
	case c := <-m.conns:
		return c, nil
	case <-m.over:
		return nil, net.ErrClosed
	}
}
func (m *mem) Close() error   { m.once.Do(func() { close(m.over) }); return nil }
func (m *mem) Addr() net.Addr { return addr("mem") }

// timed is the peer, recording how it's read
type timed struct {
	*conn
	last     time.Time // when the last read was over
	deadline time.Time
	sizes    map[int]bool
	lo, hi   int64
	once     sync.Once
	over     chan struct{}
}

func (c *timed) SetDeadline(t time.Time) error     { c.deadline = t; return nil }
func (c *timed) SetReadDeadline(t time.Time) error { c.deadline = t; return nil }
func (c *timed) Close() error                      { c.once.Do(func() { close(c.over) }); return nil }

func (c *timed) Read(p []byte) (int, error) {
	now := time.Now()
	c.sizes[len(p)] = true
	lo, hi := int64(2000000000), int64(2000000000)
	if !c.deadline.IsZero() {
		lo = c.deadline.Sub(now).Milliseconds()
		hi = c.deadline.Sub(c.last).Milliseconds() + 1
	}
	if lo > c.lo {
		c.lo = lo
	}
	if hi < c.hi {
		c.hi = hi
	}
	n, err := c.conn.Read(p)
	c.last = time.Now()
	return n, err
}

// fabric is the router, the same server for every connection; its panics are events
type fabric struct{ *server }

func (f fabric) Initialize() router.Router { return f }

func (f fabric) guard() {
	if r := recover(); r != nil {
		f.server.ev = append(f.server.ev, M{"op": "panic", "what": fmt.Sprint(r)})
	}
}
func (f fabric) OnRequest(r *http.Request) *http.Response {
	defer f.guard()
	return f.server.OnRequest(r)
}
func (f fabric) OnError(r *http.Request, err error) *http.Response {
	defer f.guard()
	return f.server.OnError(r, err)
}

func sortedSizes(m map[int]bool) []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// runTuned serves the connection by an application
func runTuned(d *Driver, c Case, steps []step, at int) {
	cn := &timed{conn: c.peer(), last: time.Now(), sizes: map[int]bool{}, hi: 2000000000, over: make(chan struct{})}
	s := &server{conn: cn.conn, scripts: c.Scripts, onerr: c.OnErr, att: map[int]bool{}, full: map[int]bool{}}

	app := indigo.New("127.0.0.1:0")
	mems := []*mem{}
	calls := []M{}
	for _, st := range steps {
		switch st.Op {
		case "tune":
			app.Tune(st.T.config())
			calls = append(calls, M{"op": "tune", "t": st.T.M()})
		case "listen":
			m := &mem{conns: make(chan net.Conn, 1), over: make(chan struct{})}
			mems = append(mems, m)
			app.Listen("127.0.0.1:"+strconv.Itoa(1000+len(mems)), indigo.Listener{Listen: func(string, string) (net.Listener, error) { return m, nil }})
			calls = append(calls, M{"op": "listen", "t": Tuned{}.M()})
		}
	}
	ev := Guard(func() M {
		done := make(chan error, 1)
		go func() { done <- app.Serve(fabric{s}) }()
		mems[at%len(mems)].conns <- cn
		select {
		case <-cn.over:
		case err := <-done:
			panic("the application is over: " + fmt.Sprint(err))
		}
		app.Stop()
		<-done
		return M{"op": "end", "reads": cn.late, "io": M{"sizes": sortedSizes(cn.sizes), "lo": cn.lo, "hi": cn.hi,
			"att": sortedSizes(s.att), "full": sortedSizes(s.full)}}
	})
	if ev["op"] != "end" {
		s = &server{conn: &conn{}}
	}
	s.flush()
	for _, f := range s.late {
		f()
	}
	s.ev = append(s.ev, ev)
	tr := M{"stream": S(c.Stream), "calls": calls, "enc": int(encryption.Plain), "remote": S("peer"), "ev": s.ev, "segs": c.Segs, "rbuf": 0}
	if c.Segs == nil {
		tr["segs"] = []int{}
	}
	d.Emit(tr)
}

// runReal is the same with real sockets: of the address the application is created with, and of HTTPS. The connection
// ends with its first response
func runReal(d *Driver, c Case, steps []step, secure bool) {
	s := &server{conn: &conn{failAfter: -1}, real: true, scripts: c.Scripts, onerr: c.OnErr, att: map[int]bool{}, full: map[int]bool{}}
	to := FreeAddr()
	app := indigo.New(to)
	calls := []M{}
	started := make(chan struct{})
	app.OnStart(func() { close(started) })
	for _, st := range steps {
		switch st.Op {
		case "tune":
			app.Tune(st.T.config())
			calls = append(calls, M{"op": "tune", "t": st.T.M()})
		case "listen":
			if secure {
				to = FreeAddr()
				app.AutoHTTPS(to)
			} else {
				app.Listen(FreeAddr())
			}
			calls = append(calls, M{"op": "listen", "t": Tuned{}.M()})
		}
	}
	enc, remote := encryption.Plain, ""
	ev := Guard(func() M {
		done := make(chan error, 1)
		go func() { done <- app.Serve(fabric{s}) }()
		select {
		case <-started:
		case err := <-done:
			panic("driver: the application is over: " + fmt.Sprint(err))
		}
		nc, err := net.Dial("tcp", to)
		if err != nil {
			panic("driver: " + err.Error())
		}
		remote = nc.LocalAddr().String()
		if secure {
			enc = encryption.TLS
			nc = tls.Client(nc, &tls.Config{InsecureSkipVerify: true})
		}
		_, _ = nc.Write([]byte(c.Stream))
		out, _ := io.ReadAll(nc)
		_ = nc.Close()
		app.Stop()
		<-done
		s.conn.out = out
		return M{"op": "end", "reads": 0, "io": M{"sizes": []int{}, "lo": 0, "hi": 0, "att": sortedSizes(s.att), "full": sortedSizes(s.full)}}
	})
	if ev["op"] != "end" {
		s = &server{conn: &conn{}}
	}
	s.flush()
	s.ev = append(s.ev, ev)
	d.Emit(M{"stream": S(c.Stream), "calls": calls, "enc": int(enc), "remote": S(remote), "ev": s.ev, "segs": []int{}, "rbuf": 0})
}

// real: connections which end with their only response, over real sockets
func (g gen) real(d *Driver) {
	for n := 0; n < d.N/10; n++ {
		r := req{method: g.of("GET", "POST"), proto: "HTTP/1.1", eol: "\r\n", eol2: "\r\n", target: "/" + g.word(g.Intn(6), letters)}
		for k := 1 + g.Intn(4); k > 0; k-- {
			r.head(g, g.word(1+g.Intn(12), letters), g.word(1+g.Intn(12), letters))
		}
		r.head(g, "Connection", "close")
		steps := []step{}
		set := func() (fs []string) {
			for _, f := range fields {
				if g.p(25) {
					fs = append(fs, f)
				}
			}
			return fs
		}
		for k := 1 + g.Intn(3); k > 0; k-- {
			steps = append(steps, step{Op: "tune", T: g.tune(set(), []req{r})})
		}
		if k := g.Intn(len(steps) + 1); true {
			steps = append(steps[:k:k], append([]step{{Op: "listen"}}, steps[k:]...)...)
		}
		// (a request is read at once: a refusal with the rest of it unread would reset a real connection)
		for k := range steps {
			if t := &steps[k].T; t.Ms != 0 && t.Ms < 60000 {
				t.Ms = 60000
			}
			if t := &steps[k].T; t.Rbuf != 0 && t.Rbuf < 1000 {
				t.Rbuf = 1000
			}
		}
		c := Case{Stream: r.render(), Scripts: []Script{{Mode: "none", Calls: []Call{{F: "header", K: "X-One", Vs: []string{"1"}}, {F: "attach", Closer: true, Pieces: []string{"attach", "ment"}}}}}}
		runReal(d, c, steps, g.p(60))
	}
}

// near sets a limit next to what a request needs, or to something else
func (g gen) near(t *Tuned, field string, r req) {
	l := g.limitNear(field, r)
	switch field {
	case "url":
		t.Limits.Url = l
	case "hnum":
		t.Limits.Hnum = l
	case "klen":
		t.Limits.Klen = l
	case "kspace":
		t.Limits.Kspace = l
	case "vlen":
		t.Limits.Vlen = l
	case "vspace":
		t.Limits.Vspace = l
	case "toks":
		t.Limits.Toks = l
	case "body":
		t.Limits.Body = l
	case "chunk":
		t.Limits.Chunk = l
	case "rbuf":
		t.Rbuf = []int{1, 2, 5, 64, 1000, 5000}[g.Intn(6)]
	case "timeout":
		t.Ms = []int{1, 1000, 5000, 60000, 89999, 90001, 3600000}[g.Intn(7)]
	case "fbuf":
		t.Fbuf = []int{1, 15, 16, 17, 30, 64, 255, 256, 1000, 1023, 1024, 1025, 70000}[g.Intn(13)]
	case "defaults":
		t.Given = true
		for _, p := range []Pair{{"Server", "indigo"}, {"x-one", "default"}, {"X-Default", ""}} {
			if g.p(40) {
				t.Defaults = append(t.Defaults, p)
			}
		}
	default:
		panic("driver: unknown field " + field)
	}
}

func (g gen) limitNear(field string, r req) int {
	n := 0
	kmax, ksum, vmax, vsum := 0, 0, 0, 0
	for _, h := range r.heads {
		if len(h.K) > kmax {
			kmax = len(h.K)
		}
		if len(h.V) > vmax {
			vmax = len(h.V)
		}
		ksum += len(h.K)
		vsum += len(h.V)
		if r.eol == "\r\n" {
			vsum++
		}
	}
	switch field {
	case "url":
		if n = len(r.target) + 1 + len(r.proto); r.eol == "\r\n" {
			n++
		}
	case "hnum":
		n = len(r.heads)
	case "klen":
		n = kmax
	case "kspace":
		n = ksum
	case "vlen":
		n = vmax
	case "vspace":
		n = vsum
	case "toks":
		n = 1 + g.Intn(3)
	case "body":
		n = r.payload
	case "chunk":
		n = 1 + g.Intn(12)
	}
	if n += []int{-2, -1, 0, 0, 1, 2, 50}[g.Intn(7)]; n < 4 && (field == "url" || n < 1) {
		n = 4
	}
	return n
}

// edge is a stream at the default of a limit
func (g gen) edge(field string, t *Tuned) string {
	d := g.Intn(2) // one too much
	head := func(hs ...string) string { return "GET / HTTP/1.1\r\n" + strings.Join(hs, "\r\n") + "\r\n\r\n" }
	switch field {
	case "hnum":
		hs := []string{}
		for n := 0; n < 50+d; n++ {
			hs = append(hs, "A: b")
		}
		return head(hs...)
	case "klen":
		return head(strings.Repeat("k", 100+d) + ": v")
	case "kspace":
		hs := []string{}
		for n := 0; n < 40; n++ {
			hs = append(hs, strings.Repeat("k", 100)+": v")
		}
		return head(append(hs, strings.Repeat("q", 96+d)+": v")...)
	case "vlen":
		t.Limits.Vspace = 20000
		return head("A: " + strings.Repeat("v", 8192+d))
	case "vspace":
		return head("A: "+strings.Repeat("v", 4095), "B: "+strings.Repeat("w", 4095+d))
	case "toks":
		return head("Content-Encoding: " + strings.Repeat("gzip,", 14+d) + "br")
	case "body":
		return "POST / HTTP/1.1\r\nContent-Length: " + strconv.Itoa(536870912+d) + "\r\n\r\nabc"
	}
	return head("A: b")
}

var fields = []string{"url", "hnum", "klen", "kspace", "vlen", "vspace", "toks", "body", "chunk", "rbuf", "timeout", "fbuf", "defaults"}

// tuned runs a connection of an application which is built in the given way
func (g gen) tuned(d *Driver, ops []struct {
	Op  string
	Set []string
}) {
	var c Case
	g.around(&c)
	rs := []req{}
	for n := 1 + g.Intn(2); n > 0; n-- {
		rs = append(rs, g.request())
	}
	steps := []step{}
	listens := false
	for _, op := range ops {
		st := step{Op: op.Op}
		if op.Op == "tune" {
			st.T = g.tune(op.Set, rs)
		}
		listens = listens || op.Op == "listen"
		steps = append(steps, st)
	}
	if !listens {
		if k := g.Intn(len(steps) + 1); g.p(50) {
			steps = append(steps[:k:k], append([]step{{Op: "listen"}}, steps[k:]...)...)
		} else {
			steps = append(steps, step{Op: "listen"})
		}
	}
	c.Stream = ""
	if g.p(25) {
		// the default of something that is left alone
		var last *Tuned
		for i := range steps {
			if steps[i].Op == "tune" {
				last = &steps[i].T
			}
		}
		if last != nil {
			// (nothing else in the way)
			*last = Tuned{Rbuf: last.Rbuf, Fbuf: last.Fbuf, Ms: last.Ms, Resp: last.Resp, Pre: last.Pre, Given: last.Given, Defaults: last.Defaults}
			c.Stream = g.edge(fields[1+g.Intn(7)], last)
		} else {
			t := Tuned{}
			if f := fields[1+g.Intn(7)]; f != "vlen" {
				c.Stream = g.edge(f, &t)
			}
		}
	}
	for _, r := range rs {
		c.Stream += r.render()
	}
	for n := 0; n < 3; n++ {
		c.Scripts = append(c.Scripts, g.script())
	}
	c.Segs = g.segs()
	if len(c.Stream) > 1000 {
		c.Segs = []int{500, 3000}
	}
	runTuned(d, c, steps, g.Intn(3))
}

func (g gen) tune(set []string, rs []req) (t Tuned) {
	for _, f := range set {
		g.near(&t, f, rs[g.Intn(len(rs))])
	}
	t.Resp = []int{0, 1, 16, 64, 1024, 5000}[g.Intn(6)]
	t.Pre = []int{0, 1, 16}[g.Intn(3)]
	return t
}

// tunes: applications built at random; and what is too long for many of them
func (g gen) tunes(d *Driver) {
	type op = struct {
		Op  string
		Set []string
	}
	for i := 0; i < d.N; i++ {
		ops := []op{}
		for n := 1 + g.Intn(4); n > 0; n-- {
			o := op{Op: "tune"}
			if g.p(30) {
				o.Op = "listen"
			} else {
				for _, f := range fields {
					if g.p([]int{10, 30, 80}[g.Intn(3)]) {
						o.Set = append(o.Set, f)
					}
				}
			}
			ops = append(ops, o)
		}
		g.tuned(d, ops)
	}
	g.real(d)
	for n := 0; n < 2; n++ {
		c := Case{FailAfter: -1, Segs: []int{3000}, Scripts: []Script{{Mode: "string"}}}
		c.Stream = "GET /" + strings.Repeat("a", 65535-len("/ HTTP/1.1\r")+n) + " HTTP/1.1\r\n\r\n"
		runTuned(d, c, []step{{Op: "listen"}}, 0)
		size := 131072 + n
		c.Stream = fmt.Sprintf("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", size, strings.Repeat("b", size))
		runTuned(d, c, []step{{Op: "tune"}, {Op: "listen"}}, 0)
	}
}
