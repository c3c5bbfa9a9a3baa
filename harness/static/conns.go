package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	nethttp "net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/router/virtual"
)

type creq struct {
	K     string `json:"k"`
	M     Bytes  `json:"m"`
	Id    Bytes  `json:"id"`
	Name  Bytes  `json:"name"`
	Query Bytes  `json:"query"`
	Tag   Bytes  `json:"tag"`
	Body  Bytes  `json:"body"`
}

func (q creq) path() string {
	switch q.K {
	case "echo":
		return "/echo/" + string(q.Id) + "/" + string(q.Name)
	case "alias":
		return "/al"
	case "denied", "trace":
		return "/only"
	case "static":
		return "/s/" + string(q.Name)
	case "lost":
		return "/lost/" + string(q.Id)
	case "stream":
		return "/stream/" + string(q.Id)
	case "other":
		return "/" + string(q.Id)
	}
	return "/" + q.K
}

type hdr struct {
	K Bytes `json:"k"`
	V Bytes `json:"v"`
}

func (q creq) headers() []hdr {
	host := "a.com"
	if q.K == "other" {
		host = "www.b.com:80"
	}
	hs := []hdr{{Bytes("Host"), Bytes(host)}, {Bytes("X-A"), q.Tag}}
	if q.K == "cookie" {
		hs = append(hs, hdr{Bytes("Cookie"), append(Bytes("t="), q.Id...)})
	}
	if len(q.Body) > 0 {
		hs = append(hs, hdr{Bytes("Content-Length"), Bytes(strconv.Itoa(len(q.Body)))})
	}
	return hs
}

// escaped encodes every k-th character
func escaped(p string, k int) string {
	if k == 0 {
		return p
	}
	out := ""
	for i := range p {
		if i > 0 && i%(2*k) == 0 {
			out += fmt.Sprintf("%%%02X", p[i])
		} else {
			out += p[i : i+1]
		}
	}
	return out
}

// wire returns the request in two parts
func (q creq) wire() ([]byte, []byte) {
	line := string(q.M) + " " + escaped(q.path(), len(q.Id)%3)
	if len(q.Query) > 0 {
		line += "?" + string(q.Query)
	}
	rest := " HTTP/1.1\r\n"
	for _, h := range q.headers() {
		rest += string(h.K) + ": " + string(h.V) + "\r\n"
	}
	return []byte(line), []byte(rest + "\r\n" + string(q.Body))
}

// ---------------------------------------------------------------- the scheduler
type sched struct {
	free   bool
	parked chan int
	hung   bool
}

type cconn struct {
	s    *sched
	id   int
	segs [][]byte
	run  chan struct{}
	out  bytes.Buffer
	done chan struct{}
	once sync.Once
}

// wait is a point where the connection may be suspended in favour of others
func (c *cconn) wait() {
	if c.s.free {
		return
	}
	c.s.parked <- c.id
	<-c.run
}

func (c *cconn) Read(b []byte) (int, error) {
	if len(c.segs) == 0 {
		return 0, io.EOF
	}
	c.wait()
	n := copy(b, c.segs[0])
	if c.segs[0] = c.segs[0][n:]; len(c.segs[0]) == 0 {
		c.segs = c.segs[1:]
	}
	return n, nil
}

func (c *cconn) Write(b []byte) (int, error) { return c.out.Write(b) }
func (c *cconn) Close() error {
	c.once.Do(func() { close(c.done) })
	return nil
}
func (c *cconn) LocalAddr() net.Addr              { return addr{} }
func (c *cconn) RemoteAddr() net.Addr             { return who{c} }
func (c *cconn) SetDeadline(time.Time) error      { return nil }
func (c *cconn) SetReadDeadline(time.Time) error  { return nil }
func (c *cconn) SetWriteDeadline(time.Time) error { return nil }

type who struct{ c *cconn }

func (who) Network() string  { return "tcp" }
func (w who) String() string { return "c" + strconv.Itoa(w.c.id) }

type feed struct {
	conns  chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func (f *feed) Accept() (net.Conn, error) {
	select {
	case c := <-f.conns:
		return c, nil
	case <-f.closed:
		return nil, net.ErrClosed
	}
}
func (f *feed) Close() error   { f.once.Do(func() { close(f.closed) }); return nil }
func (f *feed) Addr() net.Addr { return addr{} }

// ---------------------------------------------------------------- the application
type tagKey struct{}

func sight(r *http.Request, body string) string {
	ctx, _ := r.Ctx.Value(tagKey{}).(string)
	tag := r.Headers.Value("x-a")
	if ctx != "" && ctx != tag {
		tag = "context of " + ctx + " in " + tag
	}
	e := ""
	if r.Env.Error != nil {
		e = r.Env.Error.Error()
	}
	raw := string(r.Query.Raw())
	if len(raw) > 0 {
		want, _ := url.ParseQuery(raw)
		if got, err := r.Query.Get("q"); err != nil || got != want.Get("q") {
			raw += " read as " + got
		}
	}
	return "|" + strings.Join([]string{r.Method.String(), string(r.Path), r.Params.Value("id"), r.Params.Value("name"), raw, tag, body, r.Env.AliasFrom, e, r.Remote.String()}, "|")
}

func pause(r *http.Request) { r.Remote.(who).c.wait() }

type halves struct {
	r     *http.Request
	parts int
}

func (h *halves) Read(b []byte) (int, error) {
	if h.parts == 2 {
		return 0, io.EOF
	}
	h.parts++
	pause(h.r)
	return copy(b, sight(h.r, "")), nil
}

type model struct {
	Id  string `json:"id"`
	Tag string `json:"tag"`
}

// silent is a logger, that reads all it is told to print
type silent struct{}

func (silent) Printf(format string, v ...any) { fmt.Fprintf(io.Discard, format, v...) }

func application(files string) *virtual.Router {
	mark := func(next inbuilt.Handler, r *http.Request) *http.Response {
		r.Ctx = context.WithValue(r.Ctx, tagKey{}, strings.Clone(r.Headers.Value("X-A")))
		return next(r).Header("X-Mark", r.Headers.Value("X-A"))
	}
	gated := func(f func(r *http.Request, seen string) *http.Response) inbuilt.Handler {
		return func(r *http.Request) *http.Response {
			before := strings.Clone(sight(r, ""))
			own := "\x01" + strings.Clone(r.Headers.Value("X-A"))
			shown := http.Escape(own)
			wanted := strings.Clone(shown)
			pause(r)
			if shown != wanted {
				return http.String(r, "the escaped text changed under the handler: "+wanted+" to "+shown)
			}
			body, err := r.Body.String()
			if err != nil {
				return http.Error(r, err)
			}
			if after := sight(r, ""); after != before {
				return http.String(r, "changed under the handler: "+before+" to "+after)
			}
			return f(r, sight(r, body))
		}
	}
	show := gated(func(r *http.Request, seen string) *http.Response { return r.Respond().String(seen) })
	rt := inbuilt.New()
	rt.Use(mark)
	rt.Use(middleware.LogRequests(silent{}))
	rt.Mutator(mutator.RequestsLog(silent{}))
	rt.Get("/echo/{id}/{name}", show).Post("/echo/{id}/{name}", show)
	rt.Alias("/al", "/echo/alias/x")
	rt.Post("/only", show)
	rt.Static("/s", files)
	rt.Get("/cookie", gated(func(r *http.Request, seen string) *http.Response {
		jar, err := r.Cookies()
		if err != nil {
			return http.Error(r, err)
		}
		return r.Respond().Cookie(cookie.New("t", jar.Value("t"))).String(seen)
	}))
	rt.Get("/json", gated(func(r *http.Request, seen string) *http.Response {
		// the identity comes by the connection's own tag: "t<id>"
		return r.Respond().JSON(&model{Id: strings.TrimPrefix(strings.Clone(r.Headers.Value("X-A")), "t"), Tag: strings.Clone(r.Headers.Value("X-A"))})
	}))
	rt.Get("/stream/{id}", func(r *http.Request) *http.Response {
		return r.Respond().Attachment(&halves{r: r}, -1)
	})
	rt.RouteError(gated(func(r *http.Request, seen string) *http.Response {
		return r.Respond().Code(status.NotFound).String(seen)
	}), status.NotFound)
	other := simple.New(func(r *http.Request) *http.Response {
		before := strings.Clone(sight(r, ""))
		pause(r)
		if before != sight(r, "") {
			before = "changed under the handler"
		}
		return r.Respond().String("other" + before)
	}, func(r *http.Request) *http.Response { return http.Error(r, r.Env.Error) })
	return virtual.New().Host("a.com", rt).Host("b.com", other)
}

// ---------------------------------------------------------------- runs
func (g *gen) conns() {
	dir := os.Getenv("VERIF_SCRATCH") + "/s"
	must(os.MkdirAll(dir, 0o755))
	contents := map[string]string{"a.txt": "A", "longer.css": "b", "x": strings.Repeat("x", 300), "zz.json": "{}"}
	files := []M{}
	for _, name := range Keys(contents) {
		must(os.WriteFile(dir+"/"+name, []byte(contents[name]), 0o644))
		files = append(files, M{"name": S(name), "data": S(contents[name])})
	}
	f := &feed{conns: make(chan net.Conn), closed: make(chan struct{})}
	app := indigo.New("127.0.0.1:0").Listen("driver:1", indigo.Listener{Listen: func(string, string) (net.Listener, error) { return f, nil }})
	ended := make(chan error, 1)
	go func() { ended <- app.Serve(application(dir)) }()
	hung := false
	g.Stimuli(func(raw []byte) {
		var s struct {
			Reqs  [][]creq
			Sched []int
		}
		Parse(raw, &s)
		if !hung {
			hung = !g.interleave(f, files, s.Reqs, s.Sched)
		}
	})
	for i := 0; i < g.N && !hung; i++ {
		reqs := g.crowd()
		if i%2 == 0 {
			order := []int{}
			for k := 0; k < 40; k++ {
				order = append(order, 1+g.n(len(reqs)))
			}
			hung = !g.interleave(f, files, reqs, order)
		} else {
			hung = !g.together(f, files, reqs)
		}
	}
	app.Stop()
	if !hung {
		<-ended
	}
}

func (g *gen) crowd() [][]creq {
	reqs := [][]creq{}
	for c := 1 + 1 + g.n(5); c > 0; c-- {
		rs := []creq{}
		for k := 1 + g.n(4); k > 0; k-- {
			u := strconv.Itoa(len(reqs)+1) + strings.Repeat("abcdefgh", g.n(6)) + strconv.Itoa(k)
			q := creq{K: g.Pick("echo", "echo", "alias", "denied", "trace", "static", "lost", "cookie", "json", "stream", "other"), M: Bytes("GET"), Id: Bytes("i" + u), Name: Bytes{}, Query: Bytes{}, Tag: Bytes("ti" + u), Body: Bytes{}}
			switch q.K {
			case "echo":
				q.Name = Bytes("n" + u)
				if g.p(2) {
					q.M, q.Body = Bytes("POST"), Bytes(strings.Repeat("body "+u, 1+g.n(6)))
				}
			case "static":
				q.Name = Bytes(g.Pick("a.txt", "longer.css", "x", "zz.json"))
			case "trace":
				q.M = Bytes("TRACE")
			}
			if g.p(2) {
				q.Query = Bytes("q=" + escaped(u, g.n(3)))
			}
			rs = append(rs, q)
		}
		reqs = append(reqs, rs)
	}
	return reqs
}

func (g *gen) conn(s *sched, id int, reqs []creq) *cconn {
	c := &cconn{s: s, id: id, run: make(chan struct{}), done: make(chan struct{})}
	for _, q := range reqs {
		a, b := q.wire()
		c.segs = append(c.segs, a, b)
	}
	return c
}

// record parses what the connections were sent
func (g *gen) record(files []M, reqs [][]creq, cs []*cconn, ok bool) {
	ev := []M{}
	for i, c := range cs {
		rd := bufio.NewReader(bytes.NewReader(c.out.Bytes()))
		for n := 0; ; n++ {
			if _, err := rd.Peek(1); err != nil {
				ev = append(ev, M{"op": "end", "c": i + 1, "left": 0})
				break
			}
			m := "GET"
			sent := []hdr{}
			if n < len(reqs[i]) {
				m, sent = string(reqs[i][n].M), reqs[i][n].headers()
			}
			resp, err := nethttp.ReadResponse(rd, &nethttp.Request{Method: m})
			var body []byte
			if err == nil {
				body, err = io.ReadAll(resp.Body)
			}
			if err != nil {
				ev = append(ev, M{"op": "garbled", "c": i + 1, "err": err.Error(), "out": C(c.out.Bytes())})
				break
			}
			ck := resp.Header.Get("Set-Cookie")
			if k := strings.IndexByte(ck, ';'); k >= 0 {
				ck = ck[:k]
			}
			ev = append(ev, M{"op": "reply", "c": i + 1, "code": resp.StatusCode, "body": C(body), "sent": sent,
				"hdr": M{"allow": S(resp.Header.Get("Allow")), "cookie": S(ck), "mark": S(resp.Header.Get("X-Mark"))}})
		}
	}
	if !ok {
		Hung()
		ev = append(ev, M{"op": "hang"})
	}
	g.Emit(M{"what": "conns", "files": files, "reqs": reqs, "ev": ev})
}

const patience = 30 * time.Second

// interleave runs the connections one step at a time, as scheduled
func (g *gen) interleave(f *feed, files []M, reqs [][]creq, order []int) bool {
	s := &sched{parked: make(chan int)}
	cs := []*cconn{}
	at := func(c *cconn) bool { // until the connection stops somewhere
		select {
		case <-s.parked:
		case <-c.done:
		case <-time.After(patience):
			return false
		}
		return true
	}
	ok := true
	for i, rs := range reqs {
		c := g.conn(s, i+1, rs)
		cs = append(cs, c)
		f.conns <- c
		ok = ok && at(c)
	}
	step := func(c *cconn) bool {
		select {
		case <-c.done:
			return true
		case c.run <- struct{}{}:
			return at(c)
		case <-time.After(patience):
			return false
		}
	}
	for _, k := range order {
		ok = ok && step(cs[k-1])
	}
	for _, c := range cs {
		for n := 0; ok && n < 200; n++ {
			select {
			case <-c.done:
				n = 200
			default:
				ok = step(c)
			}
		}
	}
	if !ok {
		cs = cs[:0]
	}
	g.record(files, reqs, cs, ok)
	return ok
}

// together lets them all run at once
func (g *gen) together(f *feed, files []M, reqs [][]creq) bool {
	s := &sched{free: true}
	cs := []*cconn{}
	for i, rs := range reqs {
		c := g.conn(s, i+1, rs)
		cs = append(cs, c)
	}
	for _, c := range cs {
		f.conns <- c
	}
	ok := true
	for _, c := range cs {
		select {
		case <-c.done:
		case <-time.After(patience):
			ok = false
		}
	}
	if !ok {
		cs = cs[:0]
	}
	g.record(files, reqs, cs, ok)
	return ok
}
