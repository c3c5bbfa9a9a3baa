package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/keyvalue"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
)

// Limits are the specification's configuration c
type Limits struct {
	Url, Hnum, Klen, Kspace, Vlen, Vspace, Toks, Body, Chunk int
}

func (l Limits) M() M {
	return M{"url": l.Url, "hnum": l.Hnum, "klen": l.Klen, "kspace": l.Kspace, "vlen": l.Vlen, "vspace": l.Vspace,
		"toks": l.Toks, "body": l.Body, "chunk": l.Chunk}
}

type Pair struct{ K, V string }

// Script is what a handler does with a request
type Script struct {
	Mode   string // how the body is read: none, string, bytes, twice, callback, retrieve, read
	Stop   int    // after how many pieces to stop, 0 - never
	Sizes  []int  // buffer sizes of read
	Hijack bool
	Held   bool // the response is an object of the handler, used for every request
	Nil    bool // no response at all
	Calls  []Call
	JSON   []string // the models to read the body into
}

// Call is a call of the response builder
type Call struct {
	F        string
	N        int
	S        string
	K        string
	Vs       []string
	Ctype    string
	Size     int
	Pieces   []string
	Fails    bool
	Closer   bool
	Together bool
	Idle     bool
	Http     bool
	Cookie   cookie.Cookie
	V        any // a value to be sent as JSON
	Hs       []Heads
}

// Heads are the values of a header
type Heads struct {
	K  string
	Vs []string
}

func (h Heads) M() M {
	vs := []Bytes{}
	for _, v := range h.Vs {
		vs = append(vs, S(v))
	}
	return M{"k": S(h.K), "vs": vs}
}

func (c Call) M() M {
	switch c.F {
	case "code":
		return M{"f": c.F, "n": c.N}
	case "status", "ctype", "string", "bytes", "write", "badjson":
		return M{"f": c.F, "s": S(c.S)}
	case "header":
		m := Heads{c.K, c.Vs}.M()
		m["f"] = c.F
		return m
	case "headers":
		hs := []M{}
		for _, h := range c.Hs {
			hs = append(hs, h.M())
		}
		return M{"f": c.F, "hs": hs}
	case "json":
		return M{"f": c.F, "v": tree(c.V)}
	case "file":
		return M{"f": c.F, "s": S(c.S), "ctype": S(c.Ctype)}
	case "nofile", "dirfile":
		return M{"f": "error", "http": true, "n": 404}
	case "attach":
		return M{"f": c.F, "s": S(strings.Join(c.Pieces, "")), "size": c.Size, "fails": c.Fails, "closer": c.Closer}
	case "cookie":
		k := c.Cookie
		exp := ""
		if !k.Expires.IsZero() {
			exp = k.Expires.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
		}
		return M{"f": c.F, "name": S(k.Name), "value": S(k.Value), "path": S(k.Path), "domain": S(k.Domain), "expires": S(exp),
			"maxage": k.MaxAge, "samesite": S(string(k.SameSite)), "secure": k.Secure, "httponly": k.HttpOnly}
	case "error":
		return M{"f": c.F, "http": c.Http, "n": c.N, "s": S(c.S)}
	case "nothing", "clear":
		return M{"f": c.F}
	}
	panic("driver: unknown call " + c.F)
}

func callsM(cs []Call) []M {
	out := []M{}
	for _, c := range cs {
		out = append(out, c.M())
	}
	return out
}

// server is the router under the connection: it follows the scripts and records everything
type server struct {
	conn    *conn
	scripts []Script
	n       int
	ev      []M
	owed    bool // a response is due
	held    map[int]*http.Response
	closed  int
	files   []string
	onerr   []Call
	late    []func()
	real    bool // what was written is known in the end only
	// the buffers that attachments were read into, and those of them which nothing else limited
	att, full map[int]bool
	// memory passed to the responses: it stays as it was
	mems []lent
}

type lent struct {
	mem []byte
	was string
}

// lent is memory holding the text, with something of its owner behind it
func (s *server) lent(text string) []byte {
	was := text + "<of the owner, not of the response, which is to copy whatever it wants to add>"
	mem := []byte(was)
	s.mems = append(s.mems, lent{mem, was})
	return mem[:len(text)]
}

func (s *server) flush() {
	for _, f := range s.files {
		if !isOpen(f) {
			s.closed++
		}
		_ = os.Remove(f)
	}
	s.files = nil
	for _, m := range s.mems {
		if string(m.mem) != m.was {
			s.ev = append(s.ev, M{"op": "panic", "what": "memory passed to a response was written to"})
		}
	}
	s.mems = nil
	if s.owed || len(s.conn.out) > 0 || s.closed > 0 {
		s.ev = append(s.ev, M{"op": "wrote", "out": C(s.conn.out), "failed": s.conn.failed, "closes": s.closed})
	}
	s.owed = false
	s.conn.out = nil
	s.closed = 0
}

func isOpen(path string) bool {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("driver: " + err.Error())
	}
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && l == path {
			return true
		}
	}
	return false
}

func toks(xs []string) []Bytes {
	out := []Bytes{}
	for _, x := range xs {
		out = append(out, S(x))
	}
	return out
}

func pairs(st *keyvalue.Storage) []M {
	out := []M{}
	for _, p := range st.Unwrap() {
		out = append(out, M{"k": S(p.Key), "v": S(p.Value)})
	}
	return out
}

func seen(r *http.Request) M {
	return M{
		"m": methodOf(r), "path": S(r.Path), "query": C(r.Query.Raw()), "proto": S(r.Proto.String()),
		"hdrs": pairs(r.Headers), "cl": S(strconv.Itoa(r.ContentLength)), "ctype": S(r.ContentType),
		"te": toks(r.Encoding.Transfer), "ce": toks(r.Encoding.Content), "chunked": r.Encoding.Chunked,
		"trailer": r.Encoding.HasTrailer, "conn": S(r.Connection), "upg": S(r.Upgrade.String()),
		"ident": r.Encoding.Identity(),
	}
}

func methodOf(r *http.Request) Bytes {
	if r.Method == 0 {
		return Bytes{}
	}
	return S(r.Method.String())
}

func seenEnv(r *http.Request) M {
	e := ""
	if r.Env.Error != nil {
		e = r.Env.Error.Error()
	}
	return M{"err": S(e), "allowed": S(r.Env.AllowedMethods), "alias": S(r.Env.AliasFrom), "params": pairs(r.Params),
		"ctx": r.Ctx == context.Background(), "enc": int(r.Env.Encryption), "remote": S(r.Remote.String())}
}

func (s *server) OnRequest(r *http.Request) *http.Response {
	s.flush()
	var sc Script
	if len(s.scripts) > 0 {
		sc = s.scripts[s.n%len(s.scripts)]
	}
	idx := s.n
	if len(s.scripts) > 0 {
		idx = s.n % len(s.scripts)
	}
	s.n++
	ev := M{"op": "req", "a": seen(r), "env": seenEnv(r)}
	qp, qerr := r.Query.Unwrap()
	if qerr != nil {
		ev["q"] = M{"err": "bad", "pairs": []M{}}
	} else {
		ev["q"] = M{"err": "", "pairs": pairs(qp)}
	}
	jar, jerr := r.Cookies()
	if jerr != nil {
		ev["cookies"] = M{"ok": false, "pairs": []M{}}
	} else {
		ev["cookies"] = M{"ok": true, "pairs": pairs(jar)}
	}
	acc := readBody(r.Body, sc)
	js := readJSON(r, sc)
	ev["json"] = []M{}
	if len(js) > 0 { // (looked at after everything else has happened)
		s.late = append(s.late, func() {
			ms := []M{}
			for _, f := range js {
				ms = append(ms, f())
			}
			ev["json"] = ms
		})
	}
	was := []bool{r.WasHijacked(), false}
	ev["hij"] = M{"on": false, "err": false, "data": Bytes{}, "was": was}
	ok := false
	if sc.Hijack {
		client, err := r.Hijack()
		h := M{"on": true, "err": err != nil, "data": Bytes{}, "was": was}
		if err == nil {
			ok = true
			data := []byte{}
			s.conn.own = true
			_ = client.Write([]byte("hijacked"))
			for {
				p, err := client.Read()
				data = append(data, p...)
				if err != nil {
					break
				}
			}
			s.conn.own = false
			h["data"] = Bytes(data)
		}
		ev["hij"] = h
	}
	was[1] = r.WasHijacked()
	ev["z"] = seen(r)
	ev["body"] = acc()
	// leave as much behind as a handler can, or only some of it
	leave := func(n int, f func()) {
		if mix := len(r.Headers.Value("host")) + len(s.scripts) + s.n; mix%3 != 0 || (mix/3+n)%3 == 0 {
			f()
		}
	}
	if s.n%2 == 1 {
		leave(0, func() { r.Env.Error = errors.New("left behind") })
		leave(1, func() { r.Env.AllowedMethods = "LEFT" })
		leave(2, func() { r.Env.AliasFrom = "/left" })
		leave(3, func() { r.Ctx = context.WithValue(r.Ctx, "left", "behind") })
		leave(4, func() { r.Params.Add("left", "behind") })
		leave(5, func() { r.Path = "/left-behind" })
	}
	s.owed = true
	if ok {
		s.conn.handed = true
		s.owed = false
		ev["calls"] = []M{}
		s.ev = append(s.ev, ev)
		return nil
	}
	calls := sc.Calls
	if sc.Nil {
		calls = nil
	}
	ev["calls"] = callsM(calls)
	s.ev = append(s.ev, ev)
	switch {
	case sc.Nil:
		return nil
	case sc.Held:
		if s.held == nil {
			s.held = map[int]*http.Response{}
		}
		if s.held[idx] == nil {
			s.held[idx] = s.build(http.NewResponse(), calls)
		}
		return s.held[idx]
	default:
		return s.build(s.start(r, calls))
	}
}

// start makes the first call, maybe by means of the predicates
// odd is an excess argument, now and then
func (s *server) odd() []status.Code {
	if s.n%2 == 0 {
		return nil
	}
	return []status.Code{402, 507}[:1+s.n/2%2]
}

func (s *server) start(r *http.Request, calls []Call) (*http.Response, []Call) {
	if s.n%3 != 0 || len(calls) == 0 {
		return r.Respond(), calls
	}
	switch c := calls[0]; c.F {
	case "code":
		return http.Code(r, status.Code(c.N)), calls[1:]
	case "string":
		return http.String(r, c.S), calls[1:]
	case "bytes":
		return http.Bytes(r, s.lent(c.S)), calls[1:]
	case "json":
		return http.JSON(r, c.V), calls[1:]
	case "nothing":
		return http.Error(r, nil), calls[1:]
	case "nofile":
		return http.File(r, filepath.Join(scratch, "there-is-no-such-file")), calls[1:]
	case "error":
		if c.Http {
			// (the code of an HTTP error is its own)
			return http.Error(r, status.NewError(status.Code(c.N), "text of the error"), s.odd()...), calls[1:]
		}
		return http.Error(r, errors.New(c.S), status.Code(c.N)), calls[1:]
	}
	return http.Respond(r), calls
}

type doc struct {
	Name string   `json:"name"`
	N    int      `json:"n"`
	F    float64  `json:"f"`
	On   bool     `json:"on"`
	Tags []string `json:"tags"`
}

// canon: the digits and a power of ten
func canon(x float64) string {
	s := strconv.FormatFloat(x, 'e', -1, 64)
	sign := ""
	if s[0] == '-' {
		sign, s = "-", s[1:]
	}
	d, e, _ := strings.Cut(s, "e")
	n, _ := strconv.Atoi(e)
	whole, frac, _ := strings.Cut(d, ".")
	d, n = whole+frac, n-len(frac)
	for len(d) > 0 && d[len(d)-1] == '0' {
		d, n = d[:len(d)-1], n+1
	}
	if d == "" {
		return sign + "0e0"
	}
	return sign + d + "e" + strconv.Itoa(n)
}

// readJSON reads the body as JSON
func readJSON(r *http.Request, sc Script) (out []func() M) {
	for _, model := range sc.JSON {
		m := M{"model": model, "err": false, "code": 0}
		var err error
		switch model {
		case "any":
			var v any
			err = r.JSON(&v)
			out = append(out, func() M { m["val"] = tree(v); return m })
		default:
			var v doc
			err = r.JSON(&v)
			out = append(out, func() M { m["val"] = tree(&v); return m })
		}
		m["err"] = err != nil
		if he, ok := err.(status.HTTPError); ok {
			m["code"] = int(he.Code)
		}
	}
	return out
}

// tree is the specification's form of a value
func tree(v any) M {
	switch x := v.(type) {
	case nil:
		return M{"t": "z"}
	case string:
		return M{"t": "s", "s": S(x)}
	case bool:
		return M{"t": "b", "b": x}
	case int:
		return M{"t": "n", "s": S(canon(float64(x)))}
	case float64:
		return M{"t": "n", "s": S(canon(x))}
	case []any:
		a := []M{}
		for _, e := range x {
			a = append(a, tree(e))
		}
		return M{"t": "a", "a": a}
	case []string:
		a := []M{}
		for _, e := range x {
			a = append(a, tree(e))
		}
		return M{"t": "a", "a": a}
	case map[string]any:
		o := []M{}
		for k, e := range x {
			o = append(o, M{"k": S(k), "v": tree(e)})
		}
		return M{"t": "o", "o": o}
	case *doc:
		return tree(map[string]any{"name": x.Name, "n": x.N, "f": x.F, "on": x.On, "tags": x.Tags})
	}
	panic(fmt.Sprintf("driver: a value of the type %T", v))
}

func (s *server) OnError(r *http.Request, err error) *http.Response {
	code := 0
	if he, ok := err.(status.HTTPError); ok {
		code = int(he.Code)
	}
	if s.real && code == 439 {
		return r.Respond().Error(err)
	}
	s.flush()
	ev := M{"op": "err", "code": code, "a": seen(r), "env": seenEnv(r)}
	calls := append(append([]Call{}, Call{F: "error", Http: true, N: code}), s.onerr...)
	ev["calls"] = callsM(calls)
	s.ev = append(s.ev, ev)
	if code == 439 {
		return r.Respond().Error(err)
	}
	s.owed = true
	return s.build(r.Respond().Error(err), calls[1:])
}

func (s *server) build(resp *http.Response, calls []Call) *http.Response {
	for i := 0; i < len(calls); i++ {
		c := calls[i]
		switch c.F {
		case "code":
			resp = resp.Code(status.Code(c.N))
		case "status":
			resp = resp.Status(c.S)
		case "ctype":
			resp = resp.ContentType(c.S)
		case "string":
			resp = resp.String(c.S)
		case "bytes":
			resp = resp.Bytes(s.lent(c.S))
		case "write":
			if n, err := resp.Write([]byte(c.S)); n != len(c.S) || err != nil {
				panic("Write of a response failed")
			}
		case "json":
			if s.n%2 == 1 {
				var err error
				if resp, err = resp.TryJSON(c.V); err != nil {
					panic("TryJSON: " + err.Error())
				}
				break
			}
			resp = resp.JSON(c.V)
		case "badjson":
			resp = resp.JSON(c.V)
		case "header":
			resp = resp.Header(c.K, c.Vs...)
		case "headers":
			m := map[string][]string{}
			for _, h := range c.Hs {
				m[h.K] = h.Vs
			}
			resp = resp.Headers(m)
		case "file":
			f := filepath.Join(scratch, fmt.Sprintf("f%d%s", atomic.AddInt64(&fileNo, 1), c.K))
			if err := os.WriteFile(f, []byte(c.S), 0o600); err != nil {
				panic("driver: " + err.Error())
			}
			s.files = append(s.files, f)
			if s.n%2 == 1 {
				var err error
				if resp, err = resp.TryFile(f); err != nil {
					panic("TryFile: " + err.Error())
				}
				break
			}
			resp = resp.File(f)
		case "dirfile":
			f, err := os.MkdirTemp(scratch, "dir")
			if err != nil {
				panic("driver: " + err.Error())
			}
			resp = resp.File(f)
			if isOpen(f) {
				s.closed += 1000 // never closed
			}
			_ = os.Remove(f)
		case "nofile":
			gone := filepath.Join(scratch, "there-is-no-such-file")
			if s.n%2 == 1 {
				same, err := resp.TryFile(gone)
				if err == nil {
					panic("TryFile finds what is not there")
				}
				resp = same.Error(err)
				break
			}
			resp = resp.File(gone)
		case "attach":
			rd := &reader{end: io.EOF, together: c.Together, idle: c.Idle, att: s.att}
			if c.Size <= 0 {
				rd.full = s.full
			}
			if c.Fails {
				rd.end = errReset
			}
			for _, p := range c.Pieces {
				rd.pieces = append(rd.pieces, []byte(p))
			}
			if c.Closer {
				resp = resp.Attachment(closingReader{rd, &s.closed}, c.Size)
			} else {
				resp = resp.Attachment(rd, c.Size)
			}
		case "cookie":
			k := c.Cookie
			if s.n%2 == 1 {
				b := cookie.Build(k.Name, k.Value).HttpOnly(k.HttpOnly).Secure(k.Secure).SameSite(k.SameSite).MaxAge(k.MaxAge)
				k = b.Expires(k.Expires).Domain(k.Domain).Path(k.Path).Cookie()
			}
			ks := []cookie.Cookie{k}
			for s.n%3 == 1 && i+1 < len(calls) && calls[i+1].F == "cookie" {
				i++
				ks = append(ks, calls[i].Cookie)
			}
			resp = resp.Cookie(ks...)
		case "error":
			if c.Http {
				resp = resp.Error(status.NewError(status.Code(c.N), "text of the error"), s.odd()...)
			} else if c.N == 500 {
				resp = resp.Error(errors.New(c.S))
			} else {
				resp = resp.Error(errors.New(c.S), append([]status.Code{status.Code(c.N)}, s.odd()...)...)
			}
		case "nothing":
			resp = resp.Error(nil)
		case "clear":
			resp = resp.Clear()
		default:
			panic("driver: unknown call " + c.F)
		}
	}
	return resp
}

var (
	scratch = os.Getenv("VERIF_SCRATCH")
	fileNo  int64
	errStop = errors.New("enough")
)

// readBody reads the body in some way; the results are collected as late as possible
func readBody(b http.Body, sc Script) func() []M {
	out := []func() M{}
	res := func(data []byte, err error, empties int) {
		end, code := "eof", 0
		switch {
		case err == nil || err == io.EOF:
		case err == errStop:
			end = "stop"
		default:
			end = "err"
			if he, ok := err.(status.HTTPError); ok {
				code = int(he.Code)
			}
		}
		out = append(out, func() M {
			return M{"data": C(data), "end": end, "code": code, "empties": empties}
		})
	}
	str := func() {
		s, err := b.String()
		res([]byte(nil), err, 0)
		last := out[len(out)-1]
		out[len(out)-1] = func() M {
			m := last()
			m["data"] = S(s)
			return m
		}
	}
	byt := func() {
		p, err := b.Bytes()
		res(p, err, 0)
	}
	switch sc.Mode {
	case "", "none":
	case "string":
		str()
	case "bytes":
		byt()
	case "twice":
		str()
		byt()
		str()
	case "callback":
		var data []byte
		n, empties := 0, 0
		err := b.Callback(func(p []byte) error {
			n++
			if len(p) == 0 {
				empties++
			}
			data = append(data, p...)
			if sc.Stop > 0 && n >= sc.Stop {
				return errStop
			}
			return nil
		})
		if err == nil {
			// nothing must come after the end
			e2 := b.Callback(func(p []byte) error {
				data = append(data, "<after the end>"...)
				return nil
			})
			if e2 != nil {
				err = e2
			}
		}
		res(data, err, empties)
	case "retrieve", "read":
		var data []byte
		var err error
		for n := 0; ; n++ {
			if sc.Stop > 0 && n >= sc.Stop {
				err = errStop
				break
			}
			var p []byte
			if sc.Mode == "retrieve" {
				p, err = b.Retrieve()
			} else {
				p = make([]byte, sc.Sizes[n%len(sc.Sizes)])
				var k int
				k, err = b.Read(p)
				p = p[:k]
			}
			data = append(data, p...)
			if err != nil {
				break
			}
			if n > 100000 {
				panic(spinning{})
			}
		}
		if err == io.EOF {
			for n := 0; n < 2; n++ {
				var p []byte
				var e2 error
				if sc.Mode == "retrieve" {
					p, e2 = b.Retrieve()
				} else {
					p = make([]byte, 5)
					var k int
					k, e2 = b.Read(p)
					p = p[:k]
				}
				if len(p) > 0 || e2 != io.EOF {
					data = append(data, "<after the end>"...)
				}
			}
		}
		res(data, err, 0)
	case "mixed":
		// whatever a second way of reading gives, it may only be of this body
		_ = b.Discard()
		p, err := b.Bytes()
		if err == nil {
			err = errStop
		}
		res(p, err, 0)
	case "discard":
		err := b.Discard()
		if err == nil {
			err = errStop
		}
		res(nil, err, 0)
	default:
		panic("driver: unknown mode " + sc.Mode)
	}
	return func() []M {
		ms := []M{}
		for _, f := range out {
			ms = append(ms, f())
		}
		return ms
	}
}

// Case is one connection
type Case struct {
	Stream    string
	Scripts   []Script
	Limits    Limits
	Defaults  []Pair
	Enc       int
	ReadBuf   int
	RespBuf   int
	Prealloc  int
	Segs      []int // lengths of the pieces, cyclically; empty - everything at once
	Reset     bool
	Together  bool
	FailAfter int
	OnErr     []Call
}

func clip(n, max int) int {
	if n > max {
		return max
	}
	return n
}

// peer is the client of the connection
func (c Case) peer() *conn {
	cn := &conn{end: io.EOF, together: c.Together, failAfter: c.FailAfter}
	if c.Reset {
		cn.end = errReset
	}
	rest := []byte(c.Stream)
	for n := 0; len(rest) > 0; n++ {
		k := len(rest)
		if len(c.Segs) > 0 && c.Segs[n%len(c.Segs)] < k {
			k = c.Segs[n%len(c.Segs)]
		}
		cn.segs = append(cn.segs, rest[:k:k])
		rest = rest[k:]
	}
	return cn
}

func run(d *Driver, c Case) {
	cfg := config.Default()
	pre := c.Prealloc
	cfg.URL.BufferSize = config.URLBufferSize{Default: clip(pre, c.Limits.Url), Maximal: c.Limits.Url}
	cfg.Headers.Number = config.HeadersNumber{Default: clip(pre, c.Limits.Hnum), Maximal: c.Limits.Hnum}
	cfg.Headers.MaxKeyLength = c.Limits.Klen
	cfg.Headers.KeySpace = config.HeadersKeysSpace{Default: clip(pre, c.Limits.Kspace), Maximal: c.Limits.Kspace}
	cfg.Headers.MaxValueLength = c.Limits.Vlen
	cfg.Headers.ValueSpace = config.HeadersValuesSpace{Default: clip(pre, c.Limits.Vspace), Maximal: c.Limits.Vspace}
	cfg.Headers.MaxEncodingTokens = c.Limits.Toks
	cfg.Body.MaxSize = uint(c.Limits.Body)
	cfg.Body.MaxChunkSize = int64(c.Limits.Chunk)
	cfg.TCP.ReadBufferSize = c.ReadBuf
	cfg.TCP.ReadTimeout = time.Hour
	cfg.HTTP.ResponseBuffSize = c.RespBuf
	cfg.HTTP.FileBuffSize = c.RespBuf
	cfg.Headers.Default = map[string]string{}
	defs := []M{}
	for _, p := range c.Defaults {
		cfg.Headers.Default[p.K] = p.V
		defs = append(defs, M{"k": S(p.K), "v": S(p.V)})
	}

	cn := c.peer()
	s := &server{conn: cn, scripts: c.Scripts, onerr: c.OnErr}
	ev := Guard(func() (m M) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(spinning); ok {
					m = M{"op": "spin"}
					return
				}
				buf := make([]byte, 3000)
				n := runtime.Stack(buf, false)
				m = M{"op": "panic", "what": fmt.Sprint(r), "stack": string(buf[:n])}
			}
		}()
		serve.HTTP1(cfg, cn, encryption.Token(c.Enc), s)
		return M{"op": "end", "reads": cn.late}
	})
	hang := ev["op"] == "hang"
	if hang {
		// (the connection's goroutine is still running: leave its records alone)
		s = &server{conn: &conn{}}
	}
	s.flush()
	for _, f := range s.late {
		f()
	}
	s.ev = append(s.ev, ev)
	tr := M{"stream": S(c.Stream), "c": c.Limits.M(), "defaults": defs, "enc": c.Enc, "remote": S("peer"), "ev": s.ev,
		"segs": c.Segs, "rbuf": c.ReadBuf, "wbuf": c.RespBuf}
	if c.Segs == nil {
		tr["segs"] = []int{}
	}
	d.Emit(tr)
}
