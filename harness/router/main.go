package main

import (
	"strconv"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/router/virtual"
)

func main() {
	Main(drive)
}

func drive(d *Driver) {
	g := &gen{Driver: d}
	run := g.router
	rnd := g.randomRouter
	if d.Prop == "C22" {
		run, rnd = g.vhosts, g.randomVhosts
	}
	d.Stimuli(func(raw []byte) { run(raw) })
	for i := 0; i < d.N; i++ {
		rnd(i)
	}
}

type gen struct {
	*Driver
	clusters []cluster
}

// a path with a set of methods
type cluster struct {
	g    int
	path string
}

type stim struct {
	Ops  []Op
	Reqs []Req
}

func (g *gen) router(raw []byte) {
	var s stim
	Parse(raw, &s)
	g.run(s.Ops, s.Reqs)
}

func (g *gen) run(ops []Op, reqs []Req) {
	for i := range ops {
		ops[i] = ops[i].fix()
	}
	w := &world{errs: errTable()}
	ev := []M{}
	inits := 1
	if g.Rand.Intn(4) == 0 {
		inits = 2
	}
	res := Guard(func() M {
		rt, why := w.build(ops, func() int { return g.Rand.Intn(6) }, inits)
		ev = append(ev, M{"op": "built", "ok": rt != nil, "why": why})
		if rt != nil {
			for _, q := range reqs {
				ev = append(ev, w.send(rt, q))
			}
		}
		return nil
	})
	if res != nil {
		ev = append(ev, res)
	}
	g.Emit(M{"what": "router", "ops": ops, "ev": ev})
}

var methods = []string{"GET", "GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

func (g *gen) n(k int) int  { return g.Rand.Intn(k) }
func (g *gen) p(k int) bool { return g.Rand.Intn(k) == 0 }

func (g *gen) template() string {
	if g.p(25) {
		return g.Pick("", "/", "//", "a", "/a{b}", "/{a}b", "/{a", "/a}", "/{a{b}}", "/{a{b}", "/{{a}", "/{a}{b}", "/{}/x", "/{a}/", "/a//", "///", "/{a//b}", "/{", "/x/{", "/}", "/{a}}", "/{a}/{", "{a}")
	}
	s := ""
	if g.p(12) { // deep
		for k := 6 + g.n(14); k > 0; k-- {
			s += "/" + g.Pick("a", "a", "a", "a", "a", "a", "a", "a", "b", "{id}")
		}
	}
	for k := g.n(4); k >= 0; k-- {
		s += "/" + g.Pick("a", "b", "a", "b", "ab", "c", "user", "{id}", "{id}", "{name}", "{}", "static", "A", g.Pick("", "x", "{id}", "..", "a b", "%"))
	}
	if g.p(8) {
		s += g.Pick("/", "//")
	}
	return s
}

func (g *gen) script() Script {
	s := Script{Code: 200, Body: Bytes(g.Pick("", "hello", "x"))}
	switch g.n(12) {
	case 0:
		s.Code = []int{404, 405, 500, 400, 439, 301}[g.n(6)]
	case 1:
		s.None = true
	case 2:
		s.Panics = g.Prop == "C24" || g.p(4)
	}
	return s
}

func (g *gen) mw(id int) Mw {
	m := Mw{Id: id, Kind: "pass"}
	if g.Prop == "C24" && g.n(4) > 0 {
		m.Kind = g.Pick("recover", "recover", "server", "log", "redirect", "https", "ctx", "pass")
	} else if g.p(12) {
		m.Kind = g.Pick("stop", "recover", "server", "log", "redirect", "https", "ctx")
	}
	switch m.Kind {
	case "log":
		m.A = Bytes(g.Pick("", "", "+", "++")) // further loggers
	case "server":
		m.A = Bytes(g.Pick("indigo", "custom/1.0"))
	case "redirect":
		m.A, m.B = Bytes(g.Pick("/a", "/b", "/", "/a/b", "/a/", "/user", "/a//")), Bytes(g.Pick("/b", "https://elsewhere/x", "/c"))
	case "https":
		m.A, m.B = Bytes(g.Pick("", "", "secure.example")), Bytes(g.Pick("", "", "443", "8443"))
	}
	if m.A == nil {
		m.A = Bytes{}
	}
	if m.B == nil {
		m.B = Bytes{}
	}
	return m
}

func (g *gen) ops() []Op {
	ops := []Op{}
	groups := 1
	id := 0
	next := func() int { id++; return id }
	mws := func(k int) []Mw {
		out := []Mw{}
		for ; k > 0; k-- {
			out = append(out, g.mw(next()))
		}
		return out
	}
	heavy := map[string]int{"C19": 6, "C24": 4}[g.Prop]
	closed := map[int]bool{}
	pick := func() int {
		for {
			if k := 1 + g.n(groups); !closed[k] {
				return k
			}
		}
	}
	many := g.p(12)
	for k := 2 + g.n(14); k > 0; k-- {
		o := Op{G: pick(), Id: next(), Sc: g.script(), Path: Bytes{}, M: Bytes{}, To: Bytes{}}
		switch x := g.n(20 + heavy); {
		case x < 8:
			o.Op, o.Path, o.M = "route", Bytes(g.template()), Bytes(methods[g.n(len(methods))])
			if o.G > 1 && g.p(6) {
				o.Path = Bytes{}
			}
			if g.p(4) || heavy > 0 && g.p(2) {
				o.Mws = mws(1 + g.n(2))
			}
		case x < 11:
			if groups > 6 {
				continue
			}
			o.Op, o.Path = "group", Bytes(g.Pick("/a", "/b", "/api", "/{id}", "/a/b", "", "/static", "/v1", "/a/"))
			groups++
			if g.p(5) && len(o.Path) > 0 {
				o.Kind = "resource"
				closed[groups] = true
				ops = append(ops, o)
				seen := map[string]bool{}
				for j := 1 + g.n(3); j > 0; j-- {
					m := methods[g.n(len(methods))]
					if seen[m] {
						continue
					}
					seen[m] = true
					ops = append(ops, Op{Op: "route", Kind: "resource", G: groups, Id: next(), Sc: g.script(), Path: Bytes{}, M: Bytes(m), To: Bytes{}, Mws: mws(g.n(2))})
				}
				continue
			}
		case x < 13:
			o.Op, o.Path = "catch", Bytes(g.Pick("/", "/a", "/ab", "/a/", "/a/b", "/static", "/s", "", "/b/c", "/u"))
			if g.p(3) {
				o.Mws = mws(1)
			}
		case x < 15:
			o.Op = "err"
			for j := g.n(4); j > 0; j-- {
				o.Codes = append(o.Codes, []int{0, 400, 404, 405, 414, 431, 439, 500, 501, 505, 460, 413, 404, 405}[g.n(14)])
			}
		case x < 16 || x < 17 && g.Prop == "C24":
			o.Op, o.Kind = "mut", g.Pick("plain", "plain", "logm", "setpath")
			if o.Kind == "setpath" {
				o.To = Bytes(g.Pick("/a", "/b/", "/a/b", "/", "", "x"))
				if !g.p(4) {
					o.Kind = "plain"
				}
			}
		case x < 18:
			o.Op, o.Path, o.To = "alias", Bytes(g.Pick("/", "/a", "/b", "/a/b", "/c/", "/x")), Bytes(g.Pick("/a", "/b", "/a/b", "/c", "/", "/user/", "/nowhere"))
			if !(g.Prop == "C24" || g.Prop == "C21" || g.p(3)) {
				continue
			}
		default:
			o.Op, o.Mws = "use", mws(1+g.n(2))
		}
		ops = append(ops, o)
	}
	// the methods of a few paths in every combination
	if g.Prop == "C17" && g.p(2) || g.p(8) {
		for k := 1 + g.n(2); k > 0; k-- {
			g_, path := pick(), g.template()
			for _, j := range g.Rand.Perm(len(methods) - 1)[:g.n(len(methods))] {
				o := Op{Op: "route", G: g_, Id: next(), Sc: g.script(), Path: Bytes(path), M: Bytes(methods[j+1]), To: Bytes{}}
				ops = append(ops, o)
			}
			g.clusters = append(g.clusters, cluster{g_, path})
		}
	}
	if many {
		g_, base := pick(), g.Pick("", "/a", "/many")
		m := methods[g.n(len(methods))]
		for k := 25 + g.n(20); k > 0; k-- {
			ops = append(ops, Op{Op: "route", G: g_, Id: next(), Sc: Script{Code: 200, Body: Bytes{}}, Path: Bytes(base + "/s" + strconv.Itoa(k) + g.Pick("", "", "/x")), M: Bytes(m), To: Bytes{}})
		}
	}
	// registrations of a resource stay together; everything else comes in the order generated
	return ops
}

func (g *gen) reqs(ops []Op, n int) []Req {
	clusters := g.clusters
	g.clusters = nil
	// full templates to aim at
	prefix := []string{""}
	aims := []string{"/", "/a", "/nowhere/at/all"}
	for _, o := range ops {
		switch o.Op {
		case "group":
			prefix = append(prefix, prefix[o.G-1]+string(o.Path))
		case "route", "catch", "alias":
			aims = append(aims, prefix[o.G-1]+string(o.Path), prefix[o.G-1]+string(o.Path))
		}
	}
	out := []Req{}
	order := g.Rand.Perm(len(methods) - 1)
	for k := n; k > 0; k-- {
		t := aims[g.n(len(aims))]
		aimed := len(clusters) > 0 && k%4 != 0
		if aimed {
			c := clusters[k%len(clusters)]
			t = prefix[c.g-1] + c.path
		}
		segs := strings.Split(t, "/")
		for i, s := range segs {
			if strings.HasPrefix(s, "{") {
				segs[i] = g.Pick("a", "b", "42", "x.y", "user", "{id}", "", "ab", "\xff", "static")
			}
		}
		change := g.n(9)
		if aimed {
			change = 9
		}
		switch change {
		case 0:
			segs = append(segs, g.Pick("a", "b", "", "", "more"))
		case 1:
			segs = segs[:len(segs)-1]
		case 2:
			segs[g.n(len(segs))] = g.Pick("a", "b", "", "zzz", "A")
		case 3:
			segs[len(segs)-1] += g.Pick("x", "/", "//", ".txt")
		}
		path := strings.Join(segs, "/")
		q := Req{M: Bytes(methods[g.n(len(methods))]), Plain: g.p(2)}
		for _, o := range ops {
			if o.Op == "route" && prefix[o.G-1]+string(o.Path) == t && g.p(2) && !aimed {
				q.M = o.M
			}
		}
		if aimed && !g.p(3) {
			q.M = Bytes(methods[1+order[k%len(order)]])
		}
		if g.p(30) {
			path = g.Pick("*", "a", "///", "//a", "/a//b")
		} else if !strings.HasPrefix(path, "/") {
			path = "/" + path
		}
		if g.p(12) && g.Prop == "C24" {
			path += g.Pick("/x\r\nSet-Cookie: a", "/sp ace", "/%", "/a?b", "/é", "/#", "/\x00")
		}
		q.Path = Bytes(path)
		if g.p(3) {
			q.Query = Bytes(g.Pick("a=b", "x", "q=1&z"))
		}
		for k := g.n(3); k > 0; k-- {
			q.Hdrs = append(q.Hdrs, KV{Bytes(g.Pick("X-A", "accept", "Content-Type")), Bytes(g.Pick("1", "", "text/html"))})
		}
		if !g.p(5) {
			q.Hdrs = append(q.Hdrs, KV{Bytes(g.Pick("Host", "host")), Bytes(g.Pick("example.com", "example.com:8080", "localhost"))})
		}
		if g.p(4) || g.Prop == "C20" && g.p(3) {
			q.Err = errKinds[g.n(len(errKinds))].name
			if g.p(5) {
				q.M = nil
			}
		}
		if q.M == nil {
			q.M = Bytes{}
		}
		out = append(out, q)
	}
	return out
}

func (g *gen) randomRouter(i int) {
	ops := g.ops()
	n := 12
	if len(g.clusters) > 0 {
		n = 20
	}
	g.run(ops, g.reqs(ops, n))
}

// ---------------------------------------------------------------- virtual hosts
type Reg struct {
	Host Bytes `json:"host"`
	Id   int   `json:"id"`
	Def  bool  `json:"def"`
}

type vstim struct {
	Regs []Reg
	Reqs [][]Bytes
}

func (g *gen) vhosts(raw []byte) {
	var s vstim
	Parse(raw, &s)
	g.runV(s.Regs, s.Reqs)
}

func (g *gen) runV(regs []Reg, reqs [][]Bytes) {
	ev := []M{}
	who := 0
	whoErr := false
	res := Guard(func() M {
		v := virtual.New()
		for _, r := range regs {
			id := r.Id
			var sub = simple.New(func(req *http.Request) *http.Response { who = id; return http.Respond(req) },
				func(req *http.Request) *http.Response {
					who = id
					whoErr = req.Env.Error != nil
					return http.Respond(req)
				})
			in := inbuilt.New()
			in.Get("/", func(req *http.Request) *http.Response { who = id; return http.Respond(req) })
			in.RouteError(func(req *http.Request) *http.Response {
				who = id
				whoErr = req.Env.Error != nil
				return http.Respond(req)
			}, 400, 404, 405, 413, 414, 415, 431, 439, 460, 500, 501, 505, inbuilt.AllErrors)
			switch {
			case r.Def && id%2 == 0:
				v.Default(sub)
			case r.Def:
				v.Default(in)
			case id%2 == 0:
				v.Host(string(r.Host), sub)
			default:
				v.Host(string(r.Host), in)
			}
		}
		rt := v.Initialize()
		for at, hosts := range reqs {
			for _, fails := range []bool{false, true} {
				req := construct.Request(config.Default(), dummy.NewNopClient(), nil)
				req.Method, req.Path = 1, "/"
				for k, h := range hosts {
					req.Headers.Add([]string{"Host", "host", "HOST"}[k%3], string(h))
				}
				who, whoErr = 0, false
				var resp *http.Response
				if fails {
					resp = rt.OnError(req, errKinds[at%len(errKinds)].err)
				} else {
					resp = rt.OnRequest(req)
				}
				code := 0
				if who == 0 {
					code = int(resp.Reveal().Code)
				}
				if who != 0 && whoErr != fails {
					code = -1
				}
				if hosts == nil {
					hosts = []Bytes{}
				}
				ev = append(ev, M{"op": "vhost", "hosts": hosts, "fails": fails, "id": who, "code": code})
			}
		}
		return nil
	})
	if res != nil {
		ev = append(ev, res)
	}
	g.Emit(M{"what": "vhost", "regs": regs, "ev": ev})
}

func (g *gen) host() string {
	return g.Pick("", "", "", "www.", "WWW.", "www.www.") + g.Pick("a.com", "A.com", "b.com", "localhost", "1.2.3.4", "0.0.0.0", "sub.a.com", "wwwa.com", "", "com", "a.con") +
		g.Pick("", "", "", ":80", ":443", ":8080", ":8081", ":", ":080", ":4430", ":44")
}

func (g *gen) randomVhosts(int) {
	regs := []Reg{}
	for k := g.n(6); k > 0; k-- {
		r := Reg{Id: len(regs) + 1, Host: Bytes(g.host())}
		if g.p(6) {
			r.Def, r.Host = true, Bytes{}
		}
		regs = append(regs, r)
	}
	reqs := [][]Bytes{}
	for k := 10; k > 0; k-- {
		hs := []Bytes{}
		for j := []int{0, 1, 1, 1, 1, 1, 1, 2, 3}[g.n(9)]; j > 0; j-- {
			h := g.host()
			if len(regs) > 0 && g.p(2) {
				h = string(regs[g.n(len(regs))].Host)
				switch g.n(6) {
				case 0:
					h = strings.ToUpper(h)
				case 1:
					h = "www." + h
				case 2:
					h += g.Pick(":80", ":443", ":8080")
				case 3:
					h = strings.TrimPrefix(h, "www.")
				case 4:
					if len(h) > 0 {
						b := []byte(h)
						b[g.n(len(b))] ^= 0x20
						h = string(b)
					}
				}
			}
			hs = append(hs, Bytes(h))
		}
		reqs = append(reqs, hs)
	}
	g.runV(regs, reqs)
}
