// Driver of the routers: builds them from lists of registrations and records what requests do.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/keyvalue"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
)

// Mw, Script and Op are the specification's records
type Mw struct {
	Id   int    `json:"id"`
	Kind string `json:"kind"`
	A    Bytes  `json:"a"`
	B    Bytes  `json:"b"`
}

type Script struct {
	Code   int   `json:"code"`
	Body   Bytes `json:"body"`
	None   bool  `json:"none"`
	Panics bool  `json:"panics"`
}

type Op struct {
	Op    string `json:"op"`
	G     int    `json:"g"`
	Path  Bytes  `json:"path"`
	M     Bytes  `json:"m"`
	Id    int    `json:"id"`
	Mws   []Mw   `json:"mws"`
	Codes []int  `json:"codes"`
	Kind  string `json:"kind"`
	To    Bytes  `json:"to"`
	Sc    Script `json:"sc"`
}

func (o Op) fix() Op {
	if o.Mws == nil {
		o.Mws = []Mw{}
	}
	if o.Codes == nil {
		o.Codes = []int{}
	}
	if o.Sc.Code == 0 {
		o.Sc.Code = 200
	}
	return o
}

// world records the calls made while a request is being processed
type world struct {
	calls []M
	logs  []Bytes
	snap  M
	errs  map[error]string
	lists [][]inbuilt.Middleware
}

func (w *world) call(k string, id int) { w.calls = append(w.calls, M{"k": k, "id": id}) }

// whatever handlers may panic with
var panics = []any{"as told", errors.New("as told"), 42, status.ErrNotFound, io.EOF, struct{}{}, fmt.Errorf("told: %w", io.EOF), []string{"told"}, runtimeError(), ""}

func runtimeError() (err any) {
	defer func() { err = recover() }()
	var m map[string]int
	m["told"] = 1
	return nil
}

type ctxKey struct{}

func (w *world) handler(k string, o Op) inbuilt.Handler {
	return func(r *http.Request) *http.Response {
		w.call(k, o.Id)
		name := ""
		if r.Env.Error != nil {
			name = w.errs[r.Env.Error]
			if name == "" {
				name = "unknown: " + r.Env.Error.Error()
			}
		}
		ctx := 0
		if v, ok := r.Ctx.Value(ctxKey{}).(int); ok {
			ctx = v
		}
		w.snap = M{"path": S(r.Path), "alias": S(r.Env.AliasFrom), "params": pairs(r.Params), "err": name,
			"allow": S(r.Env.AllowedMethods), "ctx": ctx}
		if o.Sc.Panics {
			panic(panics[o.Id%len(panics)])
		}
		if o.Sc.None {
			return nil
		}
		return r.Respond().Code(status.Code(o.Sc.Code)).Bytes(o.Sc.Body)
	}
}

func pairs(st *keyvalue.Storage) []M {
	out := []M{}
	for _, p := range st.Unwrap() {
		out = append(out, M{"k": S(p.Key), "v": S(p.Value)})
	}
	return out
}

type logger struct{ w *world }

// loggers: one, and some more
func loggers(w *world, more int) (out []middleware.Logger) {
	for ; more >= 0; more-- {
		out = append(out, logger{w})
	}
	return out
}

func (l logger) Printf(f string, v ...any) { l.w.logs = append(l.w.logs, S(fmt.Sprintf(f, v...))) }

func (w *world) middleware(m Mw) inbuilt.Middleware {
	switch m.Kind {
	case "pass":
		return func(next inbuilt.Handler, r *http.Request) *http.Response {
			w.call("in", m.Id)
			resp := next(r)
			w.call("out", m.Id)
			return resp
		}
	case "stop":
		return func(next inbuilt.Handler, r *http.Request) *http.Response {
			w.call("in", m.Id)
			return r.Respond().Code(299)
		}
	case "ctx":
		return middleware.CustomContext(context.WithValue(context.Background(), ctxKey{}, m.Id))
	case "recover":
		return middleware.Recover
	case "server":
		if string(m.A) == middleware.DefaultServerHeader {
			return middleware.ServerHeader()
		}
		return middleware.ServerHeader(string(m.A))
	case "log":
		return middleware.LogRequests(loggers(w, len(m.A))...)
	case "redirect":
		return middleware.Redirect(string(m.A), string(m.B))
	case "https":
		if len(m.A) == 0 && len(m.B) == 0 {
			return middleware.HTTPSOnly()
		}
		return middleware.HTTPSOnly(middleware.HTTPOnlyParams{RedirectTo: string(m.A), Port: string(m.B)})
	}
	panic("driver: unknown middleware " + m.Kind)
}

// middlewares makes a list whose owner has some more room in it, and will use that room later
func (w *world) middlewares(ms []Mw) []inbuilt.Middleware {
	out := make([]inbuilt.Middleware, 0, len(ms)+4)
	for _, m := range ms {
		out = append(out, w.middleware(m))
	}
	w.lists = append(w.lists, out)
	return out
}

// reuse is the owners of the lists going on with them
func (w *world) reuse() {
	for _, l := range w.lists {
		for i := len(l); i < cap(l); i++ {
			l[:cap(l)][i] = func(next inbuilt.Handler, r *http.Request) *http.Response {
				w.call("in", -1)
				return next(r)
			}
		}
	}
	w.lists = nil
}

type route func(string, inbuilt.Handler, ...inbuilt.Middleware) *inbuilt.Router

// register carries one registration out; style chooses among the equivalent ways of saying the same
func (w *world) register(gs []*inbuilt.Router, o Op, style int) []*inbuilt.Router {
	g := gs[0]
	if o.Op != "err" || o.G > 0 {
		g = gs[o.G-1]
	}
	mws := w.middlewares(o.Mws)
	switch o.Op {
	case "group":
		gs = append(gs, g.Group(string(o.Path)))
	case "use":
		g.Use(mws...)
	case "route":
		h := w.handler("route", o)
		m := method.Parse(string(o.M))
		if style%3 == 0 {
			short := map[method.Method]route{method.GET: g.Get, method.HEAD: g.Head, method.POST: g.Post, method.PUT: g.Put,
				method.DELETE: g.Delete, method.CONNECT: g.Connect, method.OPTIONS: g.Options, method.TRACE: g.Trace, method.PATCH: g.Patch}
			short[m](string(o.Path), h, mws...)
			break
		}
		g.Route(m, string(o.Path), h, mws...)
	case "catch":
		g.Catch(string(o.Path), w.handler("catch", o), mws...)
	case "err":
		codes := []status.Code{}
		for _, c := range o.Codes {
			codes = append(codes, status.Code(c))
		}
		g.RouteError(w.handler("err", o), codes...)
	case "mut":
		switch o.Kind {
		case "logm":
			g.Mutator(mutator.RequestsLog(logger{w}))
		case "setpath":
			g.Mutator(func(r *http.Request) { w.call("mut", o.Id); r.Path = string(o.To) })
		default:
			g.Mutator(func(*http.Request) { w.call("mut", o.Id) })
		}
	case "alias":
		g.Alias(string(o.Path), string(o.To))
	default:
		panic("driver: unknown registration " + o.Op)
	}
	return gs
}

// resource registers through a Resource what could be registered through a group
func (w *world) resource(g *inbuilt.Router, path string, routes []Op) {
	r := g.Resource(path)
	for _, o := range routes {
		h, mws := w.handler("route", o), w.middlewares(o.Mws)
		switch string(o.M) {
		case "GET":
			r.Get(h, mws...)
		case "POST":
			r.Post(h, mws...)
		case "PUT":
			r.Put(h, mws...)
		case "DELETE":
			r.Delete(h, mws...)
		case "HEAD":
			r.Head(h, mws...)
		case "CONNECT":
			r.Connect(h, mws...)
		case "OPTIONS":
			r.Options(h, mws...)
		case "TRACE":
			r.Trace(h, mws...)
		case "PATCH":
			r.Patch(h, mws...)
		default:
			r.Route(method.Parse(string(o.M)), h, mws...)
		}
	}
}

// build makes the router; nil if it was refused
func (w *world) build(ops []Op, style func() int, inits int) (rt router.Router, why string) {
	defer func() {
		if r := recover(); r != nil {
			rt, why = nil, fmt.Sprint(r)
		}
	}()
	root := inbuilt.New()
	gs := []*inbuilt.Router{root}
	for i := 0; i < len(ops); i++ {
		o := ops[i]
		if o.Op == "group" && o.Kind == "resource" {
			// a group whose registrations follow it at once, all of them with an empty path
			k := i + 1
			for k < len(ops) && ops[k].Op == "route" && ops[k].Kind == "resource" {
				k++
			}
			w.resource(gs[o.G-1], string(o.Path), ops[i+1:k])
			gs = append(gs, nil) // (keeps the numbering; nobody else registers there)
			i = k - 1
			continue
		}
		gs = w.register(gs, o, style())
	}
	w.reuse()
	for ; inits > 0; inits-- {
		rt = root.Initialize()
	}
	return rt, ""
}

type Req struct {
	M     Bytes `json:"m"`
	Path  Bytes `json:"path"`
	Query Bytes `json:"query"`
	Hdrs  []KV  `json:"hdrs"`
	Plain bool  `json:"plain"`
	Err   string
}

type KV struct {
	K Bytes `json:"k"`
	V Bytes `json:"v"`
}

func (q Req) request() *http.Request {
	r := construct.Request(config.Default(), dummy.NewNopClient(), nil)
	r.Method = method.Parse(string(q.M))
	r.Path = string(q.Path)
	if len(q.Query) > 0 {
		r.Query.Set(q.Query)
	}
	for _, h := range q.Hdrs {
		r.Headers.Add(string(h.K), string(h.V))
	}
	if !q.Plain {
		// the enumeration may be extended
		r.Env.Encryption = []encryption.Token{encryption.TLS, encryption.TLS, encryption.Extend, encryption.Extend + 7}[(len(q.Path)+len(q.M)+len(q.Hdrs))%4]
	}
	return r
}

func (q Req) M_() M {
	hs := q.Hdrs
	if hs == nil {
		hs = []KV{}
	}
	return M{"m": q.M, "path": C(q.Path), "query": C(q.Query), "hdrs": hs, "plain": q.Plain, "alias": Bytes{}}
}

type errKind struct {
	name string
	code int
	err  error
}

var errKinds = []errKind{
	{"BadRequest", 400, status.ErrBadRequest}, {"URIDecoding", 400, status.ErrURIDecoding}, {"BadQuery", 400, status.ErrBadQuery},
	{"TooLongRequestLine", 400, status.ErrTooLongRequestLine}, {"NotFound", 404, status.ErrNotFound},
	{"MethodNotAllowed", 405, status.ErrMethodNotAllowed}, {"TooLarge", 413, status.ErrTooLarge}, {"URITooLong", 414, status.ErrURITooLong},
	{"HeaderFieldsTooLarge", 431, status.ErrHeaderFieldsTooLarge}, {"TooManyHeaders", 431, status.ErrTooManyHeaders},
	{"CloseConnection", 439, status.ErrCloseConnection}, {"InternalServerError", 500, status.ErrInternalServerError},
	{"NotImplemented", 501, status.ErrNotImplemented}, {"MethodNotImplemented", 501, status.ErrMethodNotImplemented},
	{"UnsupportedProtocol", 505, status.ErrUnsupportedProtocol}, {"UnsupportedMediaType", 415, status.ErrUnsupportedMediaType},
	{"own404", 404, status.NewError(404, "not here")}, {"own405", 405, status.NewError(405, "not so")},
	{"own460", 460, status.NewError(460, "odd")}, {"plain", 0, errors.New("something else")},
}

func errTable() map[error]string {
	m := map[error]string{}
	for _, k := range errKinds {
		m[k.err] = k.name
	}
	return m
}

func kindOf(name string) errKind {
	for _, k := range errKinds {
		if k.name == name {
			return k
		}
	}
	panic("driver: no error " + name)
}

// send puts a request through the router and records everything
func (w *world) send(rt router.Router, q Req) M {
	w.calls, w.logs = []M{}, []Bytes{}
	w.snap = M{"path": Bytes{}, "alias": Bytes{}, "params": []M{}, "err": "", "allow": Bytes{}, "ctx": 0}
	ev := M{"op": "req", "q": q.M_(), "code": 0, "hdrs": []M{}, "body": Bytes{}, "panicked": false}
	func() {
		defer func() {
			if r := recover(); r != nil {
				ev["panicked"] = true
				ev["what"] = fmt.Sprint(r)
			}
		}()
		req := q.request()
		var resp *http.Response
		if q.Err != "" {
			k := kindOf(q.Err)
			ev["op"], ev["err"] = "error", M{"name": k.name, "code": k.code}
			resp = rt.OnError(req, k.err)
		} else {
			resp = rt.OnRequest(req)
		}
		if resp == nil {
			ev["code"] = 200
			return
		}
		f := resp.Reveal()
		hs := []M{}
		for _, h := range f.Headers {
			hs = append(hs, M{"k": S(h.Key), "v": S(h.Value)})
		}
		ev["code"], ev["hdrs"], ev["body"] = int(f.Code), hs, C(f.Body)
	}()
	ev["calls"], ev["logs"], ev["snap"] = w.calls, w.logs, w.snap
	return ev
}

func init() { log.SetOutput(io.Discard) }
