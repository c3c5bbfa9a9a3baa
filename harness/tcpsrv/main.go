// Driver of the TCP server: schedules of connections, pauses, stops and failures.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/tcp"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
)

type act struct {
	A string // start, connect, slow, release, finish, pause, stop, wait, fail; crowd, leave (many at once), series (one by one); sleep (C seconds)
	C int    // the connection; the kind of a failure
	N int    // how many connections, from C on
}

type stim struct {
	Dl   bool // the listener can be given a deadline
	Mode string
	Cork bool // closing a served connection takes until everything else is at rest
	Acts []act
}

type world struct {
	mu sync.Mutex
	ev []M
	// sockets report errors when told to close or to hurry, although they do so
	sour bool
}

func (w *world) taste(err error) error {
	if w.sour {
		return errors.New("sour")
	}
	return err
}

func (w *world) log(m M) {
	w.mu.Lock()
	w.ev = append(w.ev, m)
	w.mu.Unlock()
}

// the ways a listener may fail: whatever the error is, it ends the accept loop
var fails = []error{
	errors.New("listener failed"),
	netErr{"failed: timed out", true, false},
	netErr{"failed: temporarily", false, true},
	netErr{"failed: both", true, true},
	netErr{"failed: none", false, false},
	&net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED},
	&net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE},
	&net.OpError{Op: "accept", Net: "tcp", Err: syscall.EINTR},
	&net.OpError{Op: "accept", Net: "tcp", Err: os.ErrDeadlineExceeded},
	&net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed},
	io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded,
	status.ErrGracefulShutdown, status.ErrShutdown, status.ErrCloseConnection,
	fmt.Errorf("wrapped: %w", os.ErrDeadlineExceeded),
}

type netErr struct {
	msg       string
	to, tempo bool
}

func (e netErr) Error() string   { return e.msg }
func (e netErr) Timeout() bool   { return e.to }
func (e netErr) Temporary() bool { return e.tempo }

type item struct {
	conn *conn
	err  error
}

type listener struct {
	w      *world
	queue  chan item
	closed chan struct{}
	expire chan struct{}
	once   sync.Once
	eonce  sync.Once
	nr     int // of a group: its number
}

type dlListener struct{ *listener }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (l dlListener) SetDeadline(t time.Time) error {
	if !t.IsZero() && !t.After(time.Now()) {
		l.eonce.Do(func() { close(l.expire) })
	}
	return l.w.taste(nil)
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case <-l.closed:
		return nil, net.ErrClosed
	case <-l.expire:
		return nil, timeoutErr{}
	default:
	}
	select {
	case it := <-l.queue:
		if it.err != nil {
			if l.nr > 0 {
				l.w.log(M{"op": "glerr", "s": l.nr, "err": it.err.Error()})
			} else {
				l.w.log(M{"op": "lerr", "err": it.err.Error()})
			}
			return nil, it.err
		}
		if it.conn.slow {
			// the hand-out may be overtaken by a pause or a stop
			l.w.log(M{"op": "hold", "c": it.conn.id})
			<-it.conn.release
			l.w.log(M{"op": "unhold", "c": it.conn.id})
		}
		l.w.log(M{"op": "accept", "c": it.conn.id})
		return it.conn, nil
	case <-l.closed:
		return nil, net.ErrClosed
	case <-l.expire:
		return nil, timeoutErr{}
	}
}
func (l *listener) Close() error {
	l.once.Do(func() {
		if l.nr > 0 {
			l.w.log(M{"op": "glclose", "s": l.nr})
		}
		close(l.closed)
	})
	return l.w.taste(nil)
}
func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }

type conn struct {
	w      *world
	id     int
	finish chan struct{}
	fonce  sync.Once

	slow    bool
	release chan struct{}
	ronce   sync.Once

	cork    chan struct{}
	handled atomic.Bool

	gone  chan struct{}
	gonce sync.Once
}

func (c *conn) Close() error {
	if c.cork != nil && c.handled.Load() {
		c.w.log(M{"op": "closing", "c": c.id})
		<-c.cork
	}
	c.w.log(M{"op": "close", "c": c.id})
	c.gonce.Do(func() { close(c.gone) })
	return c.w.taste(nil)
}
func (c *conn) Read([]byte) (int, error)         { return 0, io.EOF }
func (c *conn) Write(b []byte) (int, error)      { return len(b), nil }
func (c *conn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

func run(d *Driver, s stim) {
	w := &world{sour: len(s.Acts)%3 == 0}
	l := &listener{w: w, queue: make(chan item, 64), closed: make(chan struct{}), expire: make(chan struct{})}
	var sock net.Listener = l
	if s.Dl {
		sock = dlListener{l}
	}
	conns := map[int]*conn{}
	for _, a := range s.Acts {
		if a.A == "start" || a.A == "fail" || a.A == "sleep" || a.C == 0 {
			continue
		}
		for id := a.C; id == a.C || id < a.C+a.N; id++ {
			if conns[id] != nil {
				continue
			}
			conns[id] = &conn{w: w, id: id, finish: make(chan struct{}), release: make(chan struct{}), gone: make(chan struct{})}
			if s.Cork {
				conns[id].cork = make(chan struct{}, 8)
			}
		}
	}
	srv := tcp.NewServer(sock, func(nc net.Conn) {
		c := nc.(*conn)
		w.log(M{"op": "handle", "c": c.id})
		c.handled.Store(true)
		<-c.finish
		w.log(M{"op": "hret", "c": c.id})
	})
	var started sync.Once
	start := func() {
		started.Do(func() {
			w.log(M{"op": "start"})
			err := srv.Start()
			name := ""
			if err != nil {
				name = err.Error()
			}
			w.log(M{"op": "startret", "err": name})
		})
	}
	// the server may as well be started only later on: after it was paused or stopped, even
	later := false
	for _, a := range s.Acts {
		later = later || a.A == "start"
	}
	if !later {
		go start()
	}
	shut, shutOnce := make(chan struct{}), sync.Once{}
	do := func(a act) {
		switch a.A {
		case "start":
			start()
		case "sleep":
			Sleep(a.C)
		case "connect":
			w.log(M{"op": "connect", "c": a.C})
			l.queue <- item{conn: conns[a.C]}
		case "slow":
			w.log(M{"op": "connect", "c": a.C})
			conns[a.C].slow = true
			l.queue <- item{conn: conns[a.C]}
		case "crowd":
			for id := a.C; id < a.C+a.N; id++ {
				w.log(M{"op": "connect", "c": id})
				l.queue <- item{conn: conns[id]}
			}
		case "leave":
			for id := a.C; id < a.C+a.N; id++ {
				w.log(M{"op": "finish", "c": id})
				c := conns[id]
				c.fonce.Do(func() { close(c.finish) })
			}
		case "series": // (a connection that is never closed ends the series: the driver comes to rest)
			for id := a.C; id < a.C+a.N; id++ {
				c := conns[id]
				w.log(M{"op": "finish", "c": id})
				c.fonce.Do(func() { close(c.finish) })
				w.log(M{"op": "connect", "c": id})
				l.queue <- item{conn: c}
				<-c.gone
			}
		case "release":
			conns[a.C].ronce.Do(func() { close(conns[a.C].release) })
		case "fail":
			w.log(M{"op": "fail"})
			l.queue <- item{err: fails[a.C%len(fails)]}
		case "finish":
			w.log(M{"op": "finish", "c": a.C})
			conns[a.C].fonce.Do(func() { close(conns[a.C].finish) })
		case "pause":
			w.log(M{"op": "pause"})
			srv.Pause()
			w.log(M{"op": "pauseDone"})
			shutOnce.Do(func() { close(shut) })
		case "stop":
			w.log(M{"op": "stop"})
			_ = srv.Stop()
			w.log(M{"op": "stopDone"})
			shutOnce.Do(func() { close(shut) })
		case "wait":
			// (a server that still takes connections may not be awaited: it is a misuse of a wait group)
			<-shut
			w.log(M{"op": "wait"})
			srv.Wait()
			w.log(M{"op": "waitDone"})
		}
	}
	settle := func() {
		for {
			if !Quiet() {
				w.log(M{"op": "norest"})
				return
			}
			w.log(M{"op": "settle"})
			// let the connections being closed go, and have a look again
			id := 0
			w.mu.Lock()
			open := map[int]bool{}
			for _, e := range w.ev {
				switch e["op"] {
				case "closing":
					open[e["c"].(int)] = true
				case "close":
					delete(open, e["c"].(int))
				}
			}
			for c := range open {
				id = c
			}
			w.mu.Unlock()
			if id == 0 {
				return
			}
			conns[id].cork <- struct{}{}
		}
	}
	settle()
	for _, a := range s.Acts {
		a := a
		if a.A == "sleep" {
			do(a)
		} else {
			go do(a)
		}
		if s.Mode != "burst" {
			settle()
		}
	}
	settle()
	// wind down: everybody finishes, the server is stopped and awaited
	for id, c := range conns {
		c.ronce.Do(func() { close(c.release) })
		w.log(M{"op": "finish", "c": id})
		c.fonce.Do(func() { close(c.finish) })
	}
	settle()
	go start()
	settle()
	go do(act{A: "stop"})
	settle()
	go do(act{A: "wait"})
	settle()
	w.log(M{"op": "end"})
	w.mu.Lock()
	defer w.mu.Unlock()
	d.Emit(M{"dl": s.Dl, "mode": s.Mode, "ev": w.ev})
}

// group runs several servers, which are paused or stopped together
func group(d *Driver) {
	w := &world{sour: d.Rand.Intn(3) == 0}
	k := 1 + d.Rand.Intn(6)
	dl := d.Rand.Intn(2) == 0
	var servers []*tcp.Server
	var ls []*listener
	finish := map[int]chan struct{}{}
	var fmu sync.Mutex
	for n := 1; n <= k; n++ {
		n := n
		l := &listener{w: w, nr: n, queue: make(chan item, 64), closed: make(chan struct{}), expire: make(chan struct{})}
		var sock net.Listener = l
		if dl {
			sock = dlListener{l}
		}
		srv := tcp.NewServer(sock, func(nc net.Conn) {
			c := nc.(*conn)
			w.log(M{"op": "handle", "c": c.id})
			<-c.finish
			w.log(M{"op": "hret", "c": c.id})
		})
		servers, ls = append(servers, srv), append(ls, l)
		go func() {
			name := ""
			if err := srv.Start(); err != nil {
				name = err.Error()
			}
			w.log(M{"op": "gstartret", "s": n, "err": name})
		}()
	}
	settle := func() {
		if !Quiet() {
			w.log(M{"op": "norest"})
			return
		}
		w.log(M{"op": "gsettle"})
	}
	id := 0
	connect := func(at int) {
		id++
		c := &conn{w: w, id: id, finish: make(chan struct{}), release: make(chan struct{}), gone: make(chan struct{})}
		fmu.Lock()
		finish[id] = c.finish
		fmu.Unlock()
		w.log(M{"op": "connect", "c": id})
		ls[at].queue <- item{conn: c}
	}
	all := func(stop bool) {
		w.log(M{"op": "all", "stop": stop})
		if stop {
			tcp.StopAll(servers)
		} else {
			tcp.PauseAll(servers)
		}
		w.log(M{"op": "allDone"})
	}
	let := func() {
		fmu.Lock()
		var open []int
		for c := range finish {
			open = append(open, c)
		}
		if len(open) > 0 {
			sort.Ints(open)
			c := open[d.Rand.Intn(len(open))]
			w.log(M{"op": "finish", "c": c})
			close(finish[c])
			delete(finish, c)
		}
		fmu.Unlock()
	}
	step := d.Rand.Intn(3) > 0
	settle()
	for n := d.Rand.Intn(2 * k); n > 0; n-- {
		connect(d.Rand.Intn(k))
		if step {
			settle()
		}
		if d.Rand.Intn(3) == 0 {
			let()
		}
	}
	if d.Rand.Intn(4) == 0 {
		ls[d.Rand.Intn(k)].queue <- item{err: fails[d.Rand.Intn(len(fails))]}
	}
	settle()
	stop := d.Rand.Intn(2) == 0
	for n := 1 + d.Rand.Intn(2); n > 0; n-- {
		go all(stop)
		if step {
			settle()
		}
		stop = true
		if d.Rand.Intn(2) == 0 {
			connect(d.Rand.Intn(k))
		}
	}
	settle()
	for len(finish) > 0 {
		let()
		if step {
			settle()
		}
	}
	settle()
	go all(true)
	settle()
	w.log(M{"op": "gend"})
	w.mu.Lock()
	defer w.mu.Unlock()
	d.Emit(M{"dl": dl, "k": k, "mode": "group", "ev": w.ev})
}

func main() { Main(drive) }

func drive(d *Driver) {
	if d.Prop == "patient" { // nobody loses patience with a connection that takes long
		run(d, stim{Dl: true, Mode: "step", Acts: []act{{A: "connect", C: 1}, {A: "connect", C: 2}, {A: "finish", C: 2}, {A: "pause"}, {A: "wait"}, {A: "sleep", C: d.N}, {A: "finish", C: 1}}})
		return
	}
	d.Stimuli(func(raw []byte) {
		var s stim
		Parse(raw, &s)
		for i := range s.Acts {
			if s.Acts[i].A == "fail" {
				s.Acts[i].C = d.Rand.Intn(len(fails))
			}
		}
		for _, mode := range []string{"step", "burst"} {
			s.Mode, s.Cork = mode, false
			run(d, s)
		}
		s.Mode, s.Cork = d.Pick("step", "step", "burst"), true
		run(d, s)
	})
	// many at once, many one after the other: more than any count or limit hidden somewhere would bear
	for _, n := range []int{300, 1100} {
		run(d, stim{Dl: n == 300, Mode: "step", Acts: []act{{A: "crowd", C: 1, N: n}, {A: "leave", C: 5, N: n - 10}, {A: "connect", C: n + 1},
			{A: "pause"}, {A: "wait"}, {A: "leave", C: 1, N: n + 1}}})
		run(d, stim{Dl: n != 300, Mode: "step", Acts: []act{{A: "connect", C: 1}, {A: "series", C: 2, N: n}, {A: "pause"}, {A: "wait"}, {A: "finish", C: 1}}})
	}
	for i := 0; i < d.N/5; i++ {
		group(d)
	}
	for i := 0; i < d.N; i++ {
		s := stim{Dl: d.Rand.Intn(2) == 0, Mode: d.Pick("step", "burst", "burst"), Cork: d.Rand.Intn(3) == 0}
		n := 0
		for k := 3 + d.Rand.Intn(12); k > 0; k-- {
			a := act{A: d.Pick("connect", "connect", "slow", "release", "finish", "finish", "pause", "stop", "wait", "fail")}
			switch a.A {
			case "connect", "slow":
				n++
				a.C = n
			case "finish", "release":
				if n == 0 {
					continue
				}
				a.C = 1 + d.Rand.Intn(n)
			case "fail":
				a.C = d.Rand.Intn(len(fails))
			}
			s.Acts = append(s.Acts, a)
		}
		if d.Rand.Intn(5) == 0 {
			at := d.Rand.Intn(1 + len(s.Acts))
			s.Acts = append(s.Acts[:at:at], append([]act{{A: "start"}}, s.Acts[at:]...)...)
		}
		run(d, s)
	}
}
