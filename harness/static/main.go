// Driver of what connections have in common: static files (C23) and independence of connections (C16).
package main

import (
	"bufio"
	"bytes"
	"io"
	"net"
	nethttp "net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

func main() { Main(drive) }

func drive(d *Driver) {
	g := &gen{Driver: d}
	if d.Prop == "C16" {
		g.conns()
	} else {
		g.static()
	}
}

type gen struct{ *Driver }

func (g *gen) n(k int) int  { return g.Rand.Intn(k) }
func (g *gen) p(k int) bool { return g.Rand.Intn(k) == 0 }

// wire is a connection whose client sends everything at once
type wire struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (w *wire) Read(b []byte) (int, error)       { return w.in.Read(b) }
func (w *wire) Write(b []byte) (int, error)      { return w.out.Write(b) }
func (w *wire) Close() error                     { return nil }
func (w *wire) LocalAddr() net.Addr              { return addr{} }
func (w *wire) RemoteAddr() net.Addr             { return addr{} }
func (w *wire) SetDeadline(time.Time) error      { return nil }
func (w *wire) SetReadDeadline(time.Time) error  { return nil }
func (w *wire) SetWriteDeadline(time.Time) error { return nil }

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "10.0.0.1:1" }

// ---------------------------------------------------------------- static files
type file struct {
	Path []Bytes `json:"path"`
	Data Bytes   `json:"data"`
	Type Bytes   `json:"type"`
}

type root struct {
	Files []file    `json:"files"`
	Dirs  [][]Bytes `json:"dirs"`
}

func segs(p string) []Bytes {
	out := []Bytes{}
	for _, s := range strings.Split(p, "/") {
		out = append(out, Bytes(s))
	}
	return out
}

// lay writes the files of a root into the folder
func lay(dir string, names map[string]string, types map[string]string) root {
	r := root{Files: []file{}, Dirs: [][]Bytes{{}}}
	seen := map[string]bool{"": true}
	for _, name := range Keys(names) {
		full := filepath.Join(dir, name)
		must(os.MkdirAll(filepath.Dir(full), 0o755))
		if strings.HasSuffix(name, "/") {
			must(os.MkdirAll(full, 0o755))
			name = strings.TrimSuffix(name, "/") + "/."
		} else {
			must(os.WriteFile(full, []byte(names[name]), 0o644))
			typ := types[filepath.Ext(name)]
			if typ == "" {
				typ = "application/octet-stream"
			}
			r.Files = append(r.Files, file{segs(name), Bytes(names[name]), Bytes(typ)})
		}
		for d := filepath.Dir(name); d != "."; d = filepath.Dir(d) {
			if !seen[d] {
				seen[d] = true
				r.Dirs = append(r.Dirs, segs(d))
			}
		}
	}
	return r
}

func must(err error) {
	if err != nil {
		panic("driver: " + err.Error())
	}
}

var types = map[string]string{
	".txt": "", ".css": "text/css; charset=utf-8", ".html": "text/html; charset=utf-8", ".js": "text/javascript; charset=utf-8",
	".json": "application/json", ".png": "image/png", ".svg": "image/svg+xml", ".gz": "application/gzip",
}

var long = strings.Repeat("long.d/", 12) + strings.Repeat("n", 200) + ".json"

type mount struct {
	Catch Bytes `json:"catch"`
	Root  int   `json:"root"`
	group string
	pref  string
	dir   string
}

func (g *gen) mounts(base string) []mount {
	ms := []mount{}
	dirs := []string{base + "/pub", base + "/pub/", "../pub", "./../pub", "q/../../pub", base + "/x/../pub", "../pub/"}
	taken := map[string]bool{}
	for k := 1 + g.n(3); k > 0; k-- {
		m := mount{Root: []int{1, 1, 2, 2, 3, 4}[g.n(6)], group: g.Pick("", "", "", "/g", "/s", "/g/h"), pref: g.Pick("/s", "/s/", "/static", "/", "/a/b", "/pub", "/s/sub/alt/", "/a.txt", "")}
		m.dir = dirs[g.n(len(dirs))]
		switch m.Root {
		case 2:
			m.dir = strings.ReplaceAll(m.dir, "pub", "alt")
		case 3:
			m.dir = g.Pick("", ".", "./", base+"/cwd")
		case 4:
			m.dir = g.Pick("q", "./q", "q/")
		}
		m.Catch = Bytes(m.group + m.pref)
		key := strings.TrimRight(string(m.Catch), "/")
		if taken[key] {
			continue
		}
		taken[key] = true
		ms = append(ms, m)
	}
	return ms
}

// route builds the router; every group is opened once
func route(ms []mount) router.Router {
	r := inbuilt.New()
	groups := map[string]*inbuilt.Router{"": r}
	for _, m := range ms {
		if groups[m.group] == nil {
			if m.group == "/g/h" {
				groups[m.group] = r.Group("/g").Group("/h")
			} else {
				groups[m.group] = r.Group(m.group)
			}
		}
		groups[m.group].Static(m.pref, m.dir)
	}
	return r.Initialize()
}

func exchange(rt router.Router, m, raw string) M {
	w := &wire{in: bytes.NewReader([]byte(m + " " + raw + " HTTP/1.1\r\nHost: e\r\n\r\n"))}
	serve.HTTP1(config.Default(), w, encryption.Plain, rt)
	ev := M{"op": "file", "raw": S(raw), "head": m == "HEAD", "code": 0, "body": Bytes{}, "type": Bytes{}, "len": 0}
	resp, err := nethttp.ReadResponse(bufio.NewReader(&w.out), &nethttp.Request{Method: m})
	if err != nil {
		ev["op"] = "garbled"
		return ev
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		ev["op"] = "garbled"
		return ev
	}
	ev["code"], ev["body"], ev["type"], ev["len"] = resp.StatusCode, C(body), S(resp.Header.Get("Content-Type")), resp.ContentLength
	return ev
}

func (g *gen) path(ms []mount) string {
	sb := strings.Builder{}
	if !g.p(12) {
		sb.WriteString(string(ms[g.n(len(ms))].Catch))
		if g.p(6) {
			sb.Reset()
			sb.WriteString(strings.TrimRight(string(ms[g.n(len(ms))].Catch), "/") + g.Pick("x", "/", "", ".", "pub/"))
		}
	}
	good := !g.p(3)
	if good {
		sb.WriteString(g.Pick("/", "/", "/", "", "/", "//", "/./") + g.Pick("a.txt", "sub/b.css", "sub/deep/c.js", "noext", ".dot", "empty", "pct%41", "sp ace", "a..b", "dir.d/in.html", "\xd0\xb6.png", "arch.tar.gz", "...", "sub", "dir.d", "UP.TXT", "UP.HTML", "Mixed.Css", "sub/index.html", "sub/", "dir.d/", "", "q.json", "big.json", "only-alt.svg", "v1.0..2", "x.y../f.txt", ".a..b", "a.b.c.d.e", "w./in.css", long, "x.y../..z", "p.q.r../f.txt", "sub/.p.q..r", "p.q/.r..", "p./.q/r..s/t.txt", "page.html.css", "page.css.txt", "a.json.d/in.svg", "m.js.", ".css"))
	}
	for k := g.n(5); k > 0 && (!good || g.p(5)); k-- {
		sb.WriteString(g.Pick("/", "/", "/..", "..", "/.", "a.txt", "sub", "/sub", "/sub/b.css", "secret.txt", "/secret.txt", "pub2", "/pub", "\\", "..\\", "\x00", ";", "~", "/proc/self/cmdline", "/etc/passwd", "x", "/deep"))
	}
	s := sb.String()
	// what may not be written on the request line goes encoded; the rest only sometimes
	out := strings.Builder{}
	prob := []int{1000, 1000, 6, 2}[g.n(4)]
	for i := 0; i < len(s); i++ {
		c := s[i]
		if i > 0 && g.Rand.Intn(prob) == 0 || c <= ' ' || c == '%' || c == '?' || c == '#' || c >= 0x7f {
			out.WriteByte('%')
			hex := g.Pick("0123456789abcdef", "0123456789ABCDEF")
			out.WriteByte(hex[c>>4])
			out.WriteByte(hex[c&15])
		} else {
			out.WriteByte(c)
		}
	}
	if g.p(60) {
		out.WriteString(g.Pick("%", "%2", "%zz"))
	}
	p := out.String()
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return p
}

func (g *gen) static() {
	base := os.Getenv("VERIF_SCRATCH")
	must(os.MkdirAll(base+"/cwd", 0o755))
	must(os.Chdir(base + "/cwd"))
	big := strings.Repeat("0123456789", 300)
	roots := []root{
		lay(base+"/pub", map[string]string{"a.txt": "A", "sub/b.css": "b {}", "sub/deep/c.js": "c()", "noext": "none", ".dot": "hidden", "empty": "", "pct%41": "percent",
			"sp ace": "space", "a..b": "dots", "dir.d/in.html": "<html>", "\xd0\xb6.png": "png", "arch.tar.gz": "gz", "...": "three", "UP.TXT": "up", "UP.HTML": "<UP>", "Mixed.Css": "m {}", "sub/index.html": "<i>", "index.html": "<root>", "dir.d/index.html": "<d>", "q.json/index.htm": "x", "big.json": big, "sub/a.txt": "inner", "a.txt.d/": "",
			"page.html.css": "pc {}", "page.css.txt": "pct", "a.json.d/in.svg": "<s>", "m.js.": "mjs", ".css": "only",
			"v1.0..2": "version", "x.y../f.txt": "in dots", "x.y../..z": "two", ".a..b": "hid", "a.b.c.d.e": "abcde", "w./in.css": "w {}", long: "long",
			"p.q.r../f.txt": "pqr", "sub/.p.q..r": "subpqr", "p.q/.r..": "r", "p./.q/r..s/t.txt": "t"}, types),
		lay(base+"/alt", map[string]string{"a.txt": "alt A", "only-alt.svg": "<svg>", "sub/b.css": "alt b", "secretive": "s"}, types),
		lay(base+"/cwd", map[string]string{"a.txt": "cwd A", "q/a.txt": "Q", "sub/b.css": "cwd b"}, types),
		lay(base+"/cwd/q", map[string]string{"a.txt": "Q"}, types),
	}
	must(os.MkdirAll(base+"/x", 0o755))
	for _, s := range []string{"secret.txt", "pub2/secret.txt", "pub2/a.txt", "x/secret.txt", "pubsecret.txt", "b.css", "sub/b.css"} {
		must(os.MkdirAll(filepath.Dir(base+"/"+s), 0o755))
		must(os.WriteFile(base+"/"+s, []byte("outside"), 0o644))
	}
	fromModel := []string{}
	g.Stimuli(func(raw []byte) {
		var s struct{ Raw Bytes }
		Parse(raw, &s)
		fromModel = append(fromModel, string(s.Raw))
	})
	run := func(ms []mount, reqs []string) {
		ev := make([]M, len(reqs))
		res := Guard(func() M {
			rt := route(ms)
			var wg sync.WaitGroup
			lanes := 1 + 7*g.n(2)
			ms := make([]string, len(reqs))
			for i := range ms {
				ms[i] = g.Pick("GET", "GET", "GET", "GET", "HEAD", "POST")
			}
			for l := 0; l < lanes; l++ {
				wg.Add(1)
				go func(l int) {
					defer wg.Done()
					for i := l; i < len(reqs); i += lanes {
						func() {
							defer func() {
								if r := recover(); r != nil {
									ev[i] = M{"op": "panic", "raw": S(reqs[i])}
								}
							}()
							ev[i] = exchange(rt, ms[i], reqs[i])
						}()
					}
				}(l)
			}
			wg.Wait()
			return nil
		})
		if res != nil {
			ev = []M{res}
		}
		g.Emit(M{"what": "static", "roots": roots, "mounts": ms, "ev": ev})
	}
	// the model's own mounts
	for len(fromModel) > 0 {
		k := 100
		if k > len(fromModel) {
			k = len(fromModel)
		}
		batch := []string{}
		for _, s := range fromModel[:k] {
			if !strings.HasPrefix(s, "/") {
				s = "/" + s
			}
			batch = append(batch, s)
		}
		run([]mount{{Catch: Bytes("/s"), Root: 1, pref: "/s", dir: base + "/pub"}, {Catch: Bytes("/s/sub/alt/"), Root: 2, pref: "/s/sub/alt/", dir: "../alt"}}, batch)
		fromModel = fromModel[k:]
	}
	for i := 0; i < g.N; i++ {
		ms := g.mounts(base)
		reqs := []string{}
		for k := 0; k < 30; k++ {
			reqs = append(reqs, g.path(ms))
		}
		run(ms, reqs)
	}
}
