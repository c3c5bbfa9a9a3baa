// Driver of whole applications: binding, serving, stopping and failing, with listeners that can be scheduled.
package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

type act struct {
	A    string // connect, finish, gstop, stop, fail; sleep - nothing, for K seconds
	K, L int
}

type stim struct {
	Dl   []bool // per listener: can accepts be interrupted by a deadline
	Bind int    // the listener which fails to bind, 0 if none
	Acts []act
	Mode string
	Hook string // a stop request made by the start hook
}

type world struct {
	mu sync.Mutex
	ev []M
	// sockets report errors when told to close or to hurry, although they do so
	sour bool
}

func (w *world) taste(err error) error {
	if w.sour {
		return errors.New("sour")
	}
	return err
}

func (w *world) log(m M) {
	w.mu.Lock()
	w.ev = append(w.ev, m)
	w.mu.Unlock()
}

var (
	errBind = errors.New("cannot bind")
	// the ways a listener may fail: whatever the error is, it stops the application
	fails = []error{
		errors.New("listener failed"),
		netErr{"failed: timed out", true, false},
		netErr{"failed: temporarily", false, true},
		netErr{"failed: both", true, true},
		&net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED},
		&net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE},
		&net.OpError{Op: "accept", Net: "tcp", Err: os.ErrDeadlineExceeded},
		&net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed},
		io.EOF, os.ErrDeadlineExceeded, context.Canceled, status.ErrCloseConnection,
		fmt.Errorf("wrapped: %w", os.ErrDeadlineExceeded),
	}
)

type netErr struct {
	msg       string
	to, tempo bool
}

func (e netErr) Error() string   { return e.msg }
func (e netErr) Timeout() bool   { return e.to }
func (e netErr) Temporary() bool { return e.tempo }

type item struct {
	conn net.Conn
	id   int
	err  error
}

type listener struct {
	w      *world
	id     int
	queue  chan item
	closed chan struct{}
	expire chan struct{}
	once   sync.Once
	eonce  sync.Once
}

type dlListener struct{ *listener }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (l dlListener) SetDeadline(t time.Time) error {
	if !t.IsZero() && !t.After(time.Now()) {
		l.eonce.Do(func() { close(l.expire) })
	}
	return l.w.taste(nil)
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case <-l.closed:
		return nil, net.ErrClosed
	case <-l.expire:
		return nil, timeoutErr{}
	default:
	}
	select {
	case it := <-l.queue:
		if it.err != nil {
			l.w.log(M{"op": "lerr", "err": causeName(it.err)})
			return nil, it.err
		}
		l.w.log(M{"op": "accept", "c": it.id})
		return it.conn, nil
	case <-l.closed:
		return nil, net.ErrClosed
	case <-l.expire:
		return nil, timeoutErr{}
	}
}
func (l *listener) Close() error {
	err := net.ErrClosed
	l.once.Do(func() {
		l.w.log(M{"op": "lclose", "l": l.id})
		close(l.closed)
		err = l.w.taste(nil)
	})
	return err
}
func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }

type conn struct {
	w      *world
	id     int
	finish chan struct{}
	fonce  sync.Once
}

func (c *conn) Close() error                     { c.w.log(M{"op": "close", "c": c.id}); return c.w.taste(nil) }
func (c *conn) Read([]byte) (int, error)         { return 0, io.EOF }
func (c *conn) Write(b []byte) (int, error)      { return len(b), nil }
func (c *conn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

func sockets() int {
	n := 0
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, "socket:") {
			n++
		}
	}
	return n
}

func causeName(err error) string {
	switch err {
	case nil:
		return "nil"
	case status.ErrGracefulShutdown:
		return "graceful"
	case status.ErrShutdown:
		return "shutdown"
	case errBind:
		return "bind"
	}
	return err.Error()
}

// run: listener 1 is the application's own (a real socket nobody connects to), the rest are ours
func run(d *Driver, s stim) {
	w := &world{sour: len(s.Acts)%3 == 0}
	before := sockets()
	n := len(s.Dl)
	ls := make([]*listener, n+1)
	addrs := []string{"127.0.0.1:0"}
	app := indigo.New("127.0.0.1:0")
	nbind := 0
	// the real socket is out of our sight: its close is noticed when looked at
	var realMu sync.Mutex
	realOpen := false
	look := func() {
		realMu.Lock()
		defer realMu.Unlock()
		if realOpen && sockets() == before {
			realOpen = false
			w.log(M{"op": "lclose", "l": 1})
		}
	}
	for i := 1; i <= n; i++ {
		i := i
		ls[i] = &listener{w: w, id: i + 1, queue: make(chan item, 64), closed: make(chan struct{}), expire: make(chan struct{})}
		addr := fmt.Sprintf("host%d:%d", i, 8000+i)
		if s.Bind%2 == 0 && i > 1 || len(s.Acts)%4 == 1 {
			// nothing prevents listeners of their own kind from having the same name
			addr = fmt.Sprintf("host:%d", 8000+i/3)
			if len(s.Acts)%3 == 1 {
				addr = "127.0.0.1:0"
			}
		}
		if i%2 == 0 && len(s.Acts)%4 != 1 {
			addr = fmt.Sprintf(":%d", 8000+i)
			addrs = append(addrs, "0.0.0.0"+addr)
		} else {
			addrs = append(addrs, addr)
		}
		app.Listen(addr, indigo.Listener{
			Listen: func(network, addr string) (net.Listener, error) {
				if i == s.Bind {
					w.log(M{"op": "bind", "l": i + 1, "ok": false})
					return nil, errBind
				}
				w.log(M{"op": "bind", "l": i + 1, "ok": true})
				if s.Dl[i-1] {
					return dlListener{ls[i]}, nil
				}
				return ls[i], nil
			},
			Handler: func(nc net.Conn, _ router.Router) {
				c := nc.(*conn)
				w.log(M{"op": "handle", "c": c.id, "h": i + 1})
				<-c.finish
				w.log(M{"op": "hret", "c": c.id})
			},
		})
	}
	app.OnBind(func(addr string) {
		nbind++
		if nbind == 1 {
			realMu.Lock()
			realOpen = true
			realMu.Unlock()
			w.log(M{"op": "bind", "l": 1, "ok": true})
		}
		w.log(M{"op": "bindhook", "l": nbind, "addr": addr})
	})
	var do func(a act)
	app.OnStart(func() {
		w.log(M{"op": "start"})
		if s.Hook != "" {
			// a request made while the application is just about to serve
			do(act{A: s.Hook})
		}
	})
	app.OnStop(func() {
		look()
		w.log(M{"op": "stophook"})
	})

	conns := map[int]*conn{}
	for _, a := range s.Acts {
		if (a.A == "connect" || a.A == "finish") && conns[a.K] == nil {
			conns[a.K] = &conn{w: w, id: a.K, finish: make(chan struct{})}
		}
	}
	serve := func() {
		err := app.Serve(inbuilt.New())
		look()
		w.log(M{"op": "serveret", "err": causeName(err)})
	}
	do = func(a act) {
		switch a.A {
		case "sleep":
			Sleep(a.K)
		case "connect":
			w.log(M{"op": "connect", "c": a.K, "l": a.L + 1})
			ls[a.L].queue <- item{conn: conns[a.K], id: a.K}
		case "fail":
			ls[a.K].queue <- item{err: fails[a.L%len(fails)]}
		case "finish":
			w.log(M{"op": "finish", "c": a.K})
			conns[a.K].fonce.Do(func() { close(conns[a.K].finish) })
		case "gstop":
			w.log(M{"op": "ask", "what": "graceful"})
			app.GracefulStop()
			w.log(M{"op": "asked"})
		case "stop":
			w.log(M{"op": "ask", "what": "shutdown"})
			app.Stop()
			w.log(M{"op": "asked"})
		}
	}
	settle := func() {
		if !Quiet() {
			w.log(M{"op": "norest"})
			return
		}
		look()
		w.log(M{"op": "settle"})
	}
	go serve()
	settle()
	for _, a := range s.Acts {
		a := a
		if s.Mode == "burst" {
			go do(a)
			continue
		}
		if a.A == "sleep" {
			do(a)
		} else {
			go do(a)
		}
		settle()
	}
	settle()
	for id, c := range conns {
		w.log(M{"op": "finish", "c": id})
		c.fonce.Do(func() { close(c.finish) })
	}
	settle()
	// whatever happened so far, the application is stopped now; requests after the end must not block either
	go do(act{A: d.Pick("stop", "gstop")})
	settle()
	go do(act{A: "stop"})
	go do(act{A: "gstop"})
	settle()
	w.log(M{"op": "socks", "n": sockets() - before})
	w.mu.Lock()
	defer w.mu.Unlock()
	d.Emit(M{"lis": n + 1, "addrs": addrs, "dl": s.Dl, "mode": s.Mode, "ev": w.ev})
}

// ---- C15: which handler and which encryption a connection is served with

type httpConn struct {
	conn
	in  string
	out strings.Builder
	end chan struct{}
}

func (c *httpConn) Read(b []byte) (int, error) {
	if c.in == "" {
		return 0, io.EOF
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *httpConn) Write(b []byte) (int, error) { return c.out.Write(b) }
func (c *httpConn) Close() error                { close(c.end); return nil }

const ask = "GET / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"

func bodyOf(resp string) string {
	if strings.HasPrefix(resp, "HTTP/1.1 404 ") || strings.HasPrefix(resp, "HTTP/1.0 404 ") {
		return "404"
	}
	_, b, ok := strings.Cut(resp, "\r\n\r\n")
	if !ok {
		return "?" + resp
	}
	return b
}

var certFile, keyFile string

func encName(e encryption.Token) string {
	switch e {
	case encryption.Plain:
		return "plain"
	case encryption.TLS:
		return "tls"
	}
	return fmt.Sprint(e)
}

// kinds: custom - own handler, plain - the default one, tls - HTTPS over a real socket, auto - AutoHTTPS of a local address
func own(d *Driver, kinds []string) bool {
	w := &world{}
	addr0 := FreeAddr()
	app := indigo.New(addr0)
	ls := make([]*listener, len(kinds)+1)
	addrs := []string{addr0}
	all := append([]string{"real"}, kinds...)
	for i := 1; i < len(all); i++ {
		i := i
		ls[i] = &listener{w: &world{}, id: i + 1, queue: make(chan item, 64), closed: make(chan struct{}), expire: make(chan struct{})}
		listen := func(network, addr string) (net.Listener, error) {
			w.log(M{"op": "listen", "l": i + 1, "addr": addr})
			return ls[i], nil
		}
		port := fmt.Sprintf(":%d", 8000+i/(1+len(kinds)%2))
		switch all[i] {
		case "custom":
			app.Listen(port, indigo.Listener{Listen: listen, Handler: func(nc net.Conn, _ router.Router) {
				_, _ = nc.Write([]byte(fmt.Sprintf("\r\n\r\ncustom %d", i+1)))
			}})
			addrs = append(addrs, "0.0.0.0"+port)
		case "plain":
			a := "h" + port
			if len(kinds)%2 == 0 {
				a = addr0 // (a listener of one's own may be known under any name)
			}
			app.Listen(a, indigo.Listener{Listen: listen})
			addrs = append(addrs, a)
		case "tls":
			a := FreeAddr()
			app.HTTPS(a, certFile, keyFile)
			addrs = append(addrs, a)
		case "auto":
			a := FreeAddr()
			app.AutoHTTPS(a)
			addrs = append(addrs, a)
		}
	}
	nb, hooked := 0, d.Rand.Intn(5) > 0
	if hooked {
		app.OnBind(func(addr string) {
			nb++
			w.log(M{"op": "bindhook", "l": nb, "addr": addr})
		})
	}
	r := inbuilt.New()
	r.Get("/", func(request *http.Request) *http.Response {
		return http.String(request, "http "+encName(request.Env.Encryption))
	})
	started, ended := make(chan struct{}), make(chan error, 1)
	app.OnStart(func() { close(started) })
	none := d.Rand.Intn(4) == 0
	go func() {
		if none {
			ended <- app.Serve(nil)
			return
		}
		ended <- app.Serve(r)
	}()
	select {
	case <-started:
	case <-ended:
		return false // a port was taken by somebody else in the meantime
	}
	probe := func(i int) {
		got := ""
		switch all[i] {
		case "custom", "plain":
			c := &httpConn{in: ask, end: make(chan struct{})}
			ls[i].queue <- item{conn: c, id: i + 1}
			select {
			case <-c.end:
				got = bodyOf(c.out.String())
			case <-time.After(30 * time.Second):
				got = "nothing"
				Hung()
			}
		default:
			var c net.Conn
			var err error
			if all[i] == "real" {
				c, err = net.Dial("tcp", addrs[i])
			} else {
				c, err = tls.Dial("tcp", addrs[i], &tls.Config{InsecureSkipVerify: true})
			}
			if err != nil {
				got = err.Error()
				break
			}
			_ = c.SetDeadline(time.Now().Add(30 * time.Second))
			_, _ = c.Write([]byte(ask))
			data, _ := io.ReadAll(c)
			_ = c.Close()
			got = bodyOf(string(data))
		}
		w.log(M{"op": "served", "l": i + 1, "by": got})
	}
	order := d.Rand.Perm(len(all))
	for _, i := range append(order, order...) {
		probe(i)
	}
	app.Stop()
	<-ended
	d.Emit(M{"kinds": all, "addrs": addrs, "none": none, "hooked": hooked, "ev": w.ev})
	return true
}

func main() {
	if os.Getenv("VERIF_CHILD") != "" {
		child()
		return
	}
	Main(drive)
}

func drive(d *Driver) {
	switch d.Prop {
	case "patient", "patientstop": // nobody loses patience with a connection that takes long
		how := map[string]string{"patient": "gstop", "patientstop": "stop"}[d.Prop]
		run(d, stim{Dl: []bool{true, false}, Mode: "step", Acts: []act{{"connect", 1, 1}, {"connect", 2, 2}, {"finish", 2, 0}, {"connect", 3, 2}, {A: how}, {A: "sleep", K: d.N}, {"finish", 3, 0}, {"finish", 1, 0}}})
	case "local":
		locals(d)
	case "own":
		dir := os.Getenv("VERIF_SCRATCH")
		certFile, keyFile = filepath.Join(dir, "c.crt"), filepath.Join(dir, "c.key")
		makeCert(certFile, keyFile)
		d.Stimuli(func(raw []byte) {
			var s struct{ Kinds []string }
			Parse(raw, &s)
			for try := 0; try < 5 && !own(d, s.Kinds); try++ {
			}
		})
		for i := 0; i < d.N; i++ {
			var kinds []string
			for k := 1 + d.Rand.Intn(6); k > 0; k-- {
				kinds = append(kinds, d.Pick("custom", "custom", "plain", "plain", "tls", "auto"))
			}
			for try := 0; try < 5 && !own(d, kinds); try++ {
			}
		}
	default:
		graceful := d.Prop == "graceful"
		d.Stimuli(func(raw []byte) {
			var s stim
			Parse(raw, &s)
			for i := range s.Acts {
				if s.Acts[i].A == "fail" {
					s.Acts[i].L = d.Rand.Intn(len(fails))
				}
			}
			for _, mode := range []string{"step", "burst"} {
				s.Mode = mode
				if mode == "burst" && graceful && !onlyGraceful(s) {
					continue // the first cause would be open
				}
				run(d, s)
			}
		})
		for i := 0; i < d.N; i++ {
			s := stim{Mode: d.Pick("step", "burst", "burst")}
			n := 1 + d.Rand.Intn(3)
			for k := 0; k < n; k++ {
				s.Dl = append(s.Dl, d.Rand.Intn(2) == 0)
			}
			if !graceful && d.Rand.Intn(8) == 0 {
				s.Bind = 1 + d.Rand.Intn(n)
				run(d, s)
				continue
			}
			c, stopped := 0, false
			if d.Rand.Intn(10) == 0 {
				s.Mode, s.Hook, stopped = "step", "stop", true
				if graceful {
					s.Hook = "gstop"
				}
			}
			for k := 3 + d.Rand.Intn(12); k > 0; k-- {
				a := act{A: d.Pick("connect", "connect", "connect", "finish", "finish", "gstop", "stop", "fail")}
				switch a.A {
				case "connect":
					c++
					a.K, a.L = c, 1+d.Rand.Intn(n)
				case "finish":
					if c == 0 {
						continue
					}
					a.K = 1 + d.Rand.Intn(c)
				default:
					if graceful && (!stopped || s.Mode == "burst") {
						a.A = "gstop"
					} else if !graceful && !stopped && a.A == "gstop" {
						a.A = "stop"
					}
					stopped = true
					a.K, a.L = 1+d.Rand.Intn(n), d.Rand.Intn(len(fails))
				}
				s.Acts = append(s.Acts, a)
			}
			run(d, s)
		}
	}
}

func onlyGraceful(s stim) bool {
	for _, a := range s.Acts {
		if a.A == "stop" || a.A == "fail" {
			return false
		}
	}
	return true
}
