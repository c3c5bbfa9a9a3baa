// Driver of the packages that depend on nothing outside the standard library.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/indigo-web/indigo/http/coding"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/mime"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/address"
	"github.com/indigo-web/indigo/internal/stash"
	"github.com/indigo-web/indigo/internal/strlenmap"
	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/internal/uridecode"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
	"github.com/indigo-web/indigo/router/inbuilt/uri"
)

func main() {
	Main(drive)
}

func drive(d *Driver) {
	switch d.Prop {
	case "decode":
		decode(d)
	case "normpath":
		pure(d, "normpath", func(in string) func() M {
			out := uri.Normalize(in)
			return func() M { return M{"op": "normpath", "out": S(out)} }
		},
			d.Longs("/", "//", "a", "/a", "%2f"),
			func() string {
				return "/" + d.Tokens(12, "/", "/", "//", "a", "hello", ".", "%2f", "\x00", "é", "{x}", " ", "?", "\\", "//")
			}, "", "/", "//", "/a", "/a/", "/a//", "a/", "//a//", "/a/b/", "/é/")
	case "address":
		pure(d, "address", func(in string) func() M {
			out, local, ip := address.Normalize(in), address.IsLocalhost(in), address.IsIP(in)
			return func() M { return M{"op": "address", "out": S(out), "local": local, "ip": ip} }
		}, d.Longs(":", ".", "1", "localhost", ":80", "1.", "1.2.3.4"), func() string {
			return d.Tokens(4, ":", "80", "localhost", "LOCALHOST", "localHost", "0.0.0.0", "127.0.0.1", "256.1.1.1", "1.2.3", "1.2.3.4", ".", "01.2.3.4", "example.com", "8080", "a", "192.168.0.255", "[", "]", "[::1]", "::1", "::", "[::]", "*", "*:80", " ", "\t", "0", "%", "/", "http://", "localhost.", ".localhost", "\x00", "fe80::1", "0:0", "-", "@", "é", ",")
		}, "", ":", ":80", "localhost", "localhost:80", "LocalHost:1", "1.2.3.4", "1.2.3.4:80", "255.255.255.255:1", "example.com:443", "[::1]:80", "::1", "a:b:c")
	case "stash":
		stashHistories(d)
	case "client":
		clientHistories(d)
	case "strmap":
		strmapHistories(d)
	case "coding":
		codingHistories(d)
	case "tables":
		tables(d)
	default:
		panic("unknown -prop " + d.Prop)
	}
}

// pure drives a function of one string
func pure(d *Driver, fn string, f func(in string) func() M, long []string, gen func() string, typical ...string) {
	var steady Steady
	run := func(in string) {
		d.Emit(M{"fn": fn, "in": S(in), "ev": steady.Run(in, f)})
	}
	d.Stimuli(func(raw []byte) {
		var s struct{ In Bytes }
		Parse(raw, &s)
		run(string(s.In))
	})
	for _, in := range long {
		run(in)
		run("/" + in)
	}
	Around(typical, run)
	for i := 0; i < d.N; i++ {
		run(gen())
	}
}

func decode(d *Driver) {
	prev := "x"
	run := func(in string) {
		var evs []M
		var later []func() M
		for _, kind := range []string{"nil", "own", "roomy", "tight"} {
			kind := kind
			evs = append(evs, Guard(func() M {
				src := append(make([]byte, 0, len(in)+3), in...)
				var buff []byte
				switch kind {
				case "own":
					buff = src[:0]
				case "roomy":
					buff = make([]byte, 0, 3*len(in)+8)
				case "tight":
					buff = make([]byte, 0, 1)
				}
				out, err := uridecode.Decode(src, buff)
				// (the source is left alone, unless it is the buffer, too)
				ev := M{"op": "decode", "buf": kind, "err": err != nil, "out": C(out), "kept": kind == "own" || string(src) == in}
				if err != nil {
					ev["out"] = Bytes{}
				} else if kind == "nil" || kind == "roomy" {
					later = append(later, func() M {
						return M{"op": "decode", "buf": kind + ", read later", "err": false, "out": C(out), "kept": true}
					})
				}
				return ev
			}))
		}
		// results stay what they were
		Guard(func() M { _, _ = uridecode.Decode([]byte(prev), nil); return nil })
		for _, f := range later {
			evs = append(evs, f())
		}
		prev = in
		d.Emit(M{"fn": "decode", "in": S(in), "ev": evs})
	}
	d.Stimuli(func(raw []byte) {
		var s struct{ In Bytes }
		Parse(raw, &s)
		run(string(s.In))
	})
	// every escape, exhaustively
	const hexd = "0123456789abcdefABCDEF"
	for _, a := range hexd {
		for _, b := range hexd {
			run("x%" + string(a) + string(b) + "y")
		}
	}
	// what follows an escape is text again, whatever it looks like together with it
	for c := 0; c < 256; c++ {
		hex := fmt.Sprintf("%02X", c)
		run("%25" + hex)
		run("%" + hex + "25")
		run("%25" + "%" + hex)
		run("%" + hex + "%25" + strings.ToLower(hex))
		run("a%" + hex)
		run("%" + hex + "%" + hex + "b")
	}
	for c := 0; c < 256; c++ {
		run("%" + string([]byte{byte(c)}) + "0")
		run("%0" + string([]byte{byte(c)}))
		run(string([]byte{byte(c)}))
	}
	// any number of escapes
	for _, n := range []int{2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 512} {
		run(strings.Repeat(d.Pick("%41", "%2f", "%20"), n))
		run(strings.Repeat(d.Pick("%41", "a%2f", "%20b"), n) + "x")
		run("x" + strings.Repeat("%25", n) + d.Pick("%", "%4", "%zz", "25"))
	}
	for _, in := range d.Longs("%", "%2f", "%41", "%25", "%g", "%00", "%4") {
		run(in)
	}
	for i := 0; i < d.N; i++ {
		if i%4 == 0 {
			run(d.RandBytes(40))
		} else {
			run(d.Tokens(14, "%", "%2", "%2f", "%2F", "%25", "%00", "%fF", "%20", "+", "/", "hello", "%g1", "%1g", "é", "%%", "\xff", "25", "2f", "41", "%41", "%c3%a9", "\x00"))
		}
	}
}

// ---------------------------------------------------------------- stash

type piece struct {
	Data Bytes
	Err  string
}

type stashStim struct {
	Pieces []piece
	Reads  []int // sizes; -1 is a reset
}

var errBoom = errors.New("boom")

type slowErr struct{}

func (slowErr) Error() string   { return "slow" }
func (slowErr) Timeout() bool   { return true }
func (slowErr) Temporary() bool { return true }

// errs are all the errors there are to meet, by name: whoever treats some of them in another way is to be seen
var errs = map[string]error{
	"eof": io.EOF, "boom": errBoom, "short": io.ErrUnexpectedEOF, "closed": net.ErrClosed, "late": os.ErrDeadlineExceeded,
	"pipe": io.ErrClosedPipe, "stuck": io.ErrNoProgress, "weof": fmt.Errorf("wrapped: %w", io.EOF), "slow": slowErr{},
	"signal": status.ErrCloseConnection, "reset": syscall.ECONNRESET, "unknown": coding.ErrUnknownToken,
	"op": &net.OpError{Op: "read", Net: "tcp", Err: syscall.EPIPE}, "cut": io.ErrShortWrite,
}

var errnames = Keys(errs)

func mkerr(s string) error {
	if s == "" {
		return nil
	}
	return errs[s]
}

func errname(err error) string {
	if err == nil {
		return ""
	}
	for _, n := range errnames {
		if errs[n] == err {
			return n
		}
	}
	return "other"
}

func runStash(d *Driver, s stashStim) {
	pos, calls := 0, 0
	mem := make([]byte, 6000) // the source reuses its memory, as the real one does
	// or its data lie in one place, not necessarily in order
	arena := d.Rand.Intn(2) == 0
	where, total := make([]int, len(s.Pieces)), 0
	for _, i := range d.Rand.Perm(len(s.Pieces)) {
		where[i] = total
		total += len(s.Pieces[i].Data)
	}
	place := make([]byte, total+64)
	for i, p := range s.Pieces {
		copy(place[where[i]:], p.Data)
	}
	was := string(place)
	r := stash.New(func() ([]byte, error) {
		calls++
		if arena && pos < len(s.Pieces) {
			p := s.Pieces[pos]
			at := where[pos]
			pos++
			return place[at : at+len(p.Data)], mkerr(p.Err)
		}
		for i := range mem {
			mem[i] = 0xEE
		}
		if pos >= len(s.Pieces) {
			return nil, io.EOF
		}
		p := s.Pieces[pos]
		pos++
		n := copy(mem, p.Data)
		return mem[:n], mkerr(p.Err)
	})
	var evs []M
	for _, size := range s.Reads {
		size := size
		evs = append(evs, Guard(func() M {
			if size < 0 {
				r.Reset()
				return M{"op": "reset"}
			}
			calls = 0
			buf := make([]byte, size)
			n, err := r.Read(buf)
			if string(place) != was {
				return M{"op": "panic", "what": "the memory of the source was written to"}
			}
			ev := M{"op": "read", "size": size, "n": n, "err": errname(err), "calls": calls}
			if n < 0 || n > size {
				ev["data"] = Bytes{}
			} else {
				ev["data"] = C(buf[:n])
			}
			return ev
		}))
	}
	d.Emit(M{"pieces": s.Pieces, "ev": evs})
}

func stashHistories(d *Driver) {
	d.Stimuli(func(raw []byte) {
		var s stashStim
		Parse(raw, &s)
		runStash(d, s)
	})
	for i := 0; i < d.N; i++ {
		var s stashStim
		c := byte('a')
		for k := d.Rand.Intn(6); k >= 0; k-- {
			p := piece{Data: Bytes{}}
			n := d.Rand.Intn(7)
			if i%20 == 0 {
				n = Sizes[d.Rand.Intn(len(Sizes))]
			}
			for j := n; j > 0; j-- {
				p.Data = append(p.Data, c)
				c++
			}
			switch d.Rand.Intn(6) {
			case 0:
				p.Err = "eof"
			case 1:
				p.Err = d.Pick(errnames...)
			}
			s.Pieces = append(s.Pieces, p)
		}
		for k := d.Rand.Intn(14) + 1; k > 0; k-- {
			switch d.Rand.Intn(12) {
			case 0:
				s.Reads = append(s.Reads, -1)
			case 1:
				s.Reads = append(s.Reads, 0)
			default:
				n := d.Rand.Intn(9)
				if i%20 == 0 && d.Rand.Intn(3) > 0 {
					n = Sizes[d.Rand.Intn(len(Sizes))] + d.Rand.Intn(3) - 1
				}
				s.Reads = append(s.Reads, n)
			}
		}
		runStash(d, s)
	}
}

// ---------------------------------------------------------------- client

type connScript struct {
	Data  Bytes
	Err   string
	DlErr bool `json:"dlerr"`
}

type clientOp struct {
	Op   string
	Arg  Bytes // unread data / written data
	Keep int   // unread: keep the last Keep bytes of the last read (-1: use Arg)
}

type clientStim struct {
	Buf   int
	Reads []connScript
	Ops   []clientOp
}

type mockConn struct {
	net.Conn
	reads    []connScript
	pos      int
	deadline time.Time
	dlCount  int
	rdCount  int
	lastLen  int
	dlAtRead time.Time
	written  []byte
	writes   int
	werr     error
	closed   int
	cerr     error
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (m *mockConn) SetReadDeadline(t time.Time) error {
	m.dlCount++
	if m.pos < len(m.reads) && m.reads[m.pos].DlErr {
		m.pos++
		if e := m.reads[m.pos-1].Err; e != "" {
			return mkerr(e)
		}
		return errBoom
	}
	m.deadline = t
	return nil
}
func (m *mockConn) SetDeadline(t time.Time) error      { return m.SetReadDeadline(t) }
func (m *mockConn) SetWriteDeadline(t time.Time) error { return nil }
func (m *mockConn) Read(b []byte) (int, error) {
	m.rdCount++
	m.lastLen = len(b)
	m.dlAtRead = m.deadline
	for i := range b {
		b[i] = 0xEE
	}
	if m.pos >= len(m.reads) {
		return 0, io.EOF
	}
	s := &m.reads[m.pos]
	n := copy(b, s.Data)
	if n < len(s.Data) {
		s.Data = s.Data[n:]
		return n, nil
	}
	m.pos++
	return n, mkerr(s.Err)
}
func (m *mockConn) Write(b []byte) (int, error) {
	m.writes++
	m.written = append(m.written, b...)
	if m.werr != nil {
		return m.writes % (len(b) + 1), m.werr
	}
	return len(b), nil
}
func (m *mockConn) Close() error         { m.closed++; return m.cerr }
func (m *mockConn) RemoteAddr() net.Addr { return addr("1.2.3.4:5") }
func (m *mockConn) LocalAddr() net.Addr  { return addr("0.0.0.0:80") }

func runClient(d *Driver, s clientStim) {
	timeout := []time.Duration{time.Hour, time.Minute, 90 * time.Second, 24 * time.Hour, time.Millisecond, time.Second, 0, 1, 500 * time.Microsecond, 999999, 365 * 24 * time.Hour}[d.Rand.Intn(11)]
	conn := &mockConn{}
	for _, r := range s.Reads {
		r.Data = C(r.Data)
		conn.reads = append(conn.reads, r)
	}
	cl := tcp.NewClient(conn, timeout, make([]byte, s.Buf))
	var last []byte
	var evs []M
	for _, op := range s.Ops {
		op := op
		evs = append(evs, Guard(func() M {
			switch op.Op {
			case "read":
				dl, rd := conn.dlCount, conn.rdCount
				before := time.Now()
				data, err := cl.Read()
				after := time.Now()
				last = data
				ev := M{"op": "read", "data": C(data), "err": errname(err), "reads": conn.rdCount - rd, "dls": conn.dlCount - dl, "dlok": true, "room": conn.lastLen}
				if conn.rdCount > rd {
					ev["dlok"] = !conn.dlAtRead.Before(before.Add(timeout)) && !conn.dlAtRead.After(after.Add(timeout))
				}
				return ev
			case "unread":
				arg := op.Arg
				if op.Keep >= 0 {
					k := op.Keep
					if k > len(last) {
						k = len(last)
					}
					arg = last[len(last)-k:]
				}
				if arg == nil {
					arg = Bytes{}
				}
				logged := C(arg)
				cl.Unread(arg)
				return M{"op": "unread", "data": logged, "held": C(last)}
			case "write":
				w, ws := len(conn.written), conn.writes
				arg := C(op.Arg)
				err := cl.Write(arg)
				return M{"op": "write", "arg": op.Arg, "data": C(conn.written[w:]), "err": errname(err), "writes": conn.writes - ws, "kept": bytes.Equal(arg, op.Arg), "held": C(last)}
			case "wfail":
				ws := conn.writes
				conn.werr = mkerr(d.Pick(errnames...))
				want := errname(conn.werr)
				err := cl.Write([]byte("x y z"[:d.Rand.Intn(6)]))
				conn.werr = nil
				return M{"op": "wfail", "err": errname(err), "want": want, "writes": conn.writes - ws}
			case "close":
				c := conn.closed
				conn.cerr = nil
				if len(op.Arg) > 0 && d.Rand.Intn(2) == 0 {
					conn.cerr = mkerr(d.Pick(errnames...))
				}
				err := cl.Close()
				return M{"op": "close", "closes": conn.closed - c, "err": errname(err), "want": errname(conn.cerr)}
			default:
				return M{"op": "info", "remote": S(cl.Remote().String()), "conn": cl.Conn() == net.Conn(conn)}
			}
		}))
	}
	d.Emit(M{"buf": s.Buf, "reads": s.Reads, "ev": evs})
}

func clientHistories(d *Driver) {
	d.Stimuli(func(raw []byte) {
		var s clientStim
		Parse(raw, &s)
		runClient(d, s)
	})
	for _, n := range []int{8193, 32769, 65537, 140001} {
		runClient(d, clientStim{Buf: 8, Reads: []connScript{}, Ops: []clientOp{{Op: "write", Arg: Bytes(strings.Repeat("abcdefghijk", n/11)), Keep: -1}, {Op: "close", Keep: -1, Arg: Bytes{}}}})
	}
	for i := 0; i < d.N; i++ {
		s := clientStim{Buf: 1 + d.Rand.Intn(6)}
		big := i%20 == 0
		if big {
			s.Buf = Sizes[d.Rand.Intn(len(Sizes))]
		}
		c := byte('a')
		for k := d.Rand.Intn(6); k >= 0; k-- {
			r := connScript{Data: Bytes{}}
			n := d.Rand.Intn(9)
			if big {
				n = Sizes[d.Rand.Intn(len(Sizes))]
			}
			for j := n; j > 0; j-- {
				r.Data = append(r.Data, c)
				c++
			}
			switch d.Rand.Intn(8) {
			case 0:
				r.Err = "eof"
			case 1:
				r.Err = d.Pick(errnames...)
			case 2:
				r.DlErr = true
				if d.Rand.Intn(2) == 0 {
					r.Err = d.Pick(errnames...)
				}
			}
			s.Reads = append(s.Reads, r)
		}
		for k := d.Rand.Intn(16) + 2; k > 0; k-- {
			switch d.Rand.Intn(10) {
			case 0, 1, 2:
				if n := len(s.Ops); n > 0 && (s.Ops[n-1].Op == "read" || d.Rand.Intn(3) == 0) {
					if d.Rand.Intn(3) == 0 {
						// any data may be returned, not only what was received last
						arg := Bytes{}
						n := d.Rand.Intn(14)
						if big {
							n = Sizes[d.Rand.Intn(len(Sizes))]
						}
						for j := n; j > 0; j-- {
							arg = append(arg, byte(d.Rand.Intn(10)))
						}
						s.Ops = append(s.Ops, clientOp{Op: "unread", Keep: -1, Arg: arg})
					} else {
						s.Ops = append(s.Ops, clientOp{Op: "unread", Keep: d.Rand.Intn(5 + s.Buf)})
					}
				}
			case 3:
				arg := S("hello"[:d.Rand.Intn(6)])
				if big && d.Rand.Intn(2) == 0 {
					arg = Bytes(strings.Repeat("0123456789", 500)[:Sizes[d.Rand.Intn(len(Sizes))]])
				}
				if i%500 == 0 && d.Rand.Intn(2) == 0 {
					arg = Bytes(strings.Repeat("abcdefgh", 1+d.Rand.Intn(17000)))
				}
				s.Ops = append(s.Ops, clientOp{Op: d.Pick("write", "write", "wfail", "close", "info"), Arg: arg, Keep: -1})
			default:
				s.Ops = append(s.Ops, clientOp{Op: "read"})
			}
		}
		s.Ops = append(s.Ops, clientOp{Op: "read"}, clientOp{Op: "read"}, clientOp{Op: "close", Arg: S("x"), Keep: -1})
		runClient(d, s)
	}
}

// ---------------------------------------------------------------- string map

type kvOp struct {
	Op  string
	Key Bytes
	Val int
}

func runStrmap(d *Driver, ops []kvOp) {
	m := strlenmap.New[int]()
	var evs []M
	for _, op := range ops {
		op := op
		evs = append(evs, Guard(func() M {
			if op.Op == "insert" {
				m.Insert(string(op.Key), op.Val)
				return M{"op": "insert", "key": op.Key, "val": op.Val}
			}
			v, found := m.Get(string(op.Key))
			return M{"op": "get", "key": op.Key, "val": v, "found": found}
		}))
	}
	d.Emit(M{"ev": evs})
}

func strmapHistories(d *Driver) {
	d.Stimuli(func(raw []byte) {
		var s struct{ Ops []kvOp }
		Parse(raw, &s)
		runStrmap(d, s.Ops)
	})
	keys := []string{"", "a", "b", "A", "ab", "ba", "aa", "abc", "abd", "hello", "hallo", "Hello", "a-very-long-key-of-some-length", "a-very-long-key-of-some-lengtH"}
	for i := 0; i < d.N; i++ {
		var ops []kvOp
		for k := 2 + d.Rand.Intn(20); k > 0; k-- {
			op := kvOp{Op: "get", Key: S(keys[d.Rand.Intn(len(keys))])}
			if d.Rand.Intn(2) == 0 {
				op.Op, op.Val = "insert", 1+d.Rand.Intn(1000)
			}
			ops = append(ops, op)
		}
		for _, k := range keys {
			ops = append(ops, kvOp{Op: "get", Key: S(k)})
		}
		runStrmap(d, ops)
	}
	// all lengths, up and down: every growth of the map keeps what is there
	for i := 0; i < 4; i++ {
		var ops []kvOp
		var used []Bytes
		lens := append(seq(0, 70), Sizes[15:]...)
		if i%2 == 1 {
			for a, b := 0, len(lens)-1; a < b; a, b = a+1, b-1 {
				lens[a], lens[b] = lens[b], lens[a]
			}
		}
		if i == 2 {
			d.Rand.Shuffle(len(lens), func(a, b int) { lens[a], lens[b] = lens[b], lens[a] })
		}
		for _, l := range lens {
			key := Bytes(strings.Repeat("k", l))
			used = append(used, key)
			ops = append(ops, kvOp{Op: "get", Key: key}, kvOp{Op: "insert", Key: key, Val: 1 + l})
			if i == 3 && l > 0 {
				other := C(key)
				other[l-1] = 'o'
				used = append(used, other)
				ops = append(ops, kvOp{Op: "insert", Key: other, Val: 10000 + l}, kvOp{Op: "insert", Key: key, Val: 20000})
			}
		}
		for _, k := range used {
			ops = append(ops, kvOp{Op: "get", Key: k})
		}
		runStrmap(d, ops)
	}
	// the same letters in another order, the same ends, the same prefix: still other keys
	for i := 0; i < 6; i++ {
		var ops []kvOp
		l := []int{2, 4, 8, 12, 40, 130}[i]
		for k := 0; k < 30; k++ {
			key := Bytes(strings.Repeat("abcdefghijklmnop", 9)[:l])
			a, b := d.Rand.Intn(l), d.Rand.Intn(l)
			key[a], key[b] = key[b], key[a]
			if k%3 == 0 {
				key[a]++
				key[b]--
			}
			ops = append(ops, kvOp{Op: "get", Key: key}, kvOp{Op: "insert", Key: key, Val: 1 + k}, kvOp{Op: "get", Key: key})
		}
		runStrmap(d, ops)
	}
	// many keys, of the same length and of many lengths, differing anywhere
	for i := 0; i < 12+d.N/50; i++ {
		var ops []kvOp
		var used []Bytes
		n := 1 + d.Rand.Intn(24)
		if i%3 == 0 {
			n = Sizes[d.Rand.Intn(22)]
		}
		for k := 8 + d.Rand.Intn(60); k > 0; k-- {
			l := n
			if i%2 == 0 {
				l = d.Rand.Intn(n + 1)
			}
			key := Bytes(strings.Repeat(string([]byte{byte('a' + d.Rand.Intn(2))}), l))
			for c := d.Rand.Intn(3); c > 0 && l > 0; c-- {
				key[d.Rand.Intn(l)] = byte(d.Rand.Intn(256))
			}
			used = append(used, key)
			ops = append(ops, kvOp{Op: "insert", Key: key, Val: 1 + len(used)})
			ops = append(ops, kvOp{Op: "get", Key: used[d.Rand.Intn(len(used))]})
		}
		for _, k := range used {
			ops = append(ops, kvOp{Op: "get", Key: k})
			if len(k) > 0 {
				other := C(k)
				other[d.Rand.Intn(len(k))] ^= 0x20
				ops = append(ops, kvOp{Op: "get", Key: other}, kvOp{Op: "get", Key: k[1:]}, kvOp{Op: "get", Key: k[:len(k)-1]})
			}
		}
		runStrmap(d, ops)
	}
}

// ---------------------------------------------------------------- codings

type tagCoding struct {
	token string
	tag   byte
	fail  string
	buff  []byte // the memory given to the coding is its own
}

func (c tagCoding) intact() byte {
	for _, b := range c.buff {
		if b != c.tag {
			return '!'
		}
	}
	return c.tag
}

func (c tagCoding) Token() string                    { return c.token }
func (c tagCoding) Encode(in []byte) ([]byte, error) { return c.code('e', in) }
func (c tagCoding) Decode(in []byte) ([]byte, error) { return c.code('d', in) }

// code fails with what is asked for (having done a part of it), gives nothing at all ("void"), or the tagged input
func (c tagCoding) code(dir byte, in []byte) ([]byte, error) {
	switch c.fail {
	case "":
		return append([]byte{dir, c.intact()}, in...), nil
	case "void":
		return []byte{}, nil
	}
	return []byte{'p', dir, c.intact()}, mkerr(c.fail)
}

type codingOp struct {
	Op   string
	Tok  Bytes
	Tag  int
	Fail string
	In   Bytes
}

func runCoding(d *Driver, size int64, ops []codingOp) {
	m := coding.NewManager(size)
	var evs []M
	for _, op := range ops {
		op := op
		evs = append(evs, Guard(func() M {
			switch op.Op {
			case "add":
				room := -1
				m.AddCoding(func(buff []byte) coding.Coding {
					room = len(buff)
					buff = buff[:cap(buff)]
					for i := range buff {
						buff[i] = byte(op.Tag)
					}
					return tagCoding{token: string(op.Tok), tag: byte(op.Tag), fail: op.Fail, buff: buff}
				})
				return M{"op": "add", "tok": op.Tok, "tag": op.Tag, "fail": op.Fail, "room": room}
			case "enc", "dec":
				f := m.Encode
				if op.Op == "dec" {
					f = m.Decode
				}
				in := C(op.In)
				out, err := f(string(op.Tok), in)
				if !bytes.Equal(in, op.In) {
					return M{"op": "the input was changed"}
				}
				e := errname(err)
				return M{"op": op.Op, "tok": op.Tok, "in": op.In, "out": C(out), "err": e}
			}
			panic("bad op " + op.Op)
		}))
	}
	d.Emit(M{"size": size, "ev": evs})
}

func codingHistories(d *Driver) {
	d.Stimuli(func(raw []byte) {
		var s struct{ Ops []codingOp }
		Parse(raw, &s)
		runCoding(d, 16, s.Ops)
	})
	toks := []string{"gzip", "compress", "x-gzip", "x-compress", "br", "identity", "deflate", "", "GZIP", "x-br"}
	odd := []string{"x-deflate", "zstd", "x-zstd", "x-identity", "x-", "x-x-gzip", "Identity", "gzip ", " gzip", "zlib", "x-zlib", "gzi", "gzipp", "*", "chunked", "x-chunked", "lzw", "X-Gzip", "Compress", "br;q=1", "gzip,br"}
	for i := 0; i < d.N; i++ {
		toks := append(append([]string{}, toks...), d.Pick(odd...), d.Pick(odd...), d.Pick("deflate", "zstd", "zlib", "*"))
		if t := d.Pick(toks...); len(t) > 0 {
			toks = append(toks, "x-"+t, t[:len(t)-1])
		}
		var ops []codingOp
		for k := 1 + d.Rand.Intn(7); k > 0; k-- {
			fail := ""
			switch d.Rand.Intn(9) {
			case 0:
				fail = "void"
			case 1:
				fail = d.Pick(errnames...)
			}
			ops = append(ops, codingOp{Op: "add", Tok: S(d.Pick(toks...)), Tag: '0' + d.Rand.Intn(10), Fail: fail, In: Bytes{}})
			for j := d.Rand.Intn(5); j > 0; j-- {
				ops = append(ops, codingOp{Op: d.Pick("enc", "dec"), Tok: S(d.Pick(toks...)), In: S(d.RandBytes(6))})
			}
		}
		for _, t := range toks {
			ops = append(ops, codingOp{Op: "enc", Tok: S(t), In: S("xyz")}, codingOp{Op: "dec", Tok: S(t), In: S("xyz")}, codingOp{Op: "enc", Tok: S(t), In: Bytes{}})
		}
		for k := 0; i%25 == 0 && k < 40; k++ {
			t := fmt.Sprintf("coding-%d", d.Rand.Intn(40))
			ops = append(ops, codingOp{Op: "add", Tok: S(t), Tag: 'a' + d.Rand.Intn(20), In: Bytes{}},
				codingOp{Op: d.Pick("enc", "dec"), Tok: S(fmt.Sprintf("coding-%d", d.Rand.Intn(40))), In: S(d.RandBytes(300))})
		}
		size := d.Rand.Intn(64)
		if i%25 == 1 {
			size = Sizes[d.Rand.Intn(len(Sizes))]
		} else if i%100 == 2 {
			size = []int{16384, 65535, 65536, 65537, 100000, 1 << 18, 1<<18 + 1}[d.Rand.Intn(7)]
		}
		runCoding(d, int64(size), ops)
	}
}

// ---------------------------------------------------------------- tables

func seq(from, to int) (out []int) {
	for i := from; i < to; i++ {
		out = append(out, i)
	}
	return out
}

func tables(d *Driver) {
	methodEv := func(in string) {
		d.Emit(M{"ev": []M{Guard(func() M {
			m := method.Parse(in)
			known := m != method.Unknown
			ev := M{"op": "method", "in": S(in), "known": known, "str": Bytes{}}
			if known {
				ev["str"] = S(m.String())
			}
			return ev
		})}})
	}
	d.Stimuli(func(raw []byte) {
		var s struct{ In Bytes }
		Parse(raw, &s)
		methodEv(string(s.In))
	})
	names := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}
	for _, n := range names {
		methodEv(n)
		methodEv(strings.ToLower(n))
		for i := range n {
			methodEv(n[:i])
			methodEv(n[:i] + n[i+1:])
			for _, c := range []byte("AEGTXh \x00") {
				methodEv(n[:i] + string([]byte{c}) + n[i+1:])
				methodEv(n[:i] + string([]byte{c}) + n[i:])
			}
		}
		methodEv(n + " ")
		methodEv(n + n)
	}
	// enumeration: List holds every method once, numbered consecutively
	d.Emit(M{"ev": []M{Guard(func() M {
		var lst []Bytes
		consec := true
		for i, m := range method.List {
			lst = append(lst, S(m.String()))
			consec = consec && int(m) == i+1
		}
		return M{"op": "methods", "list": lst, "consec": consec, "count": int(method.Count)}
	})}})
	for _, c := range append(seq(0, 1000), 1000, 1024, 4095, 65535) {
		c := c
		d.Emit(M{"ev": []M{Guard(func() M {
			return M{"op": "status", "code": c, "text": S(status.Text(status.Code(c))), "line": S(status.Line(status.Code(c)))}
		})}})
	}
	for name, e := range errTable {
		name, e := name, e
		d.Emit(M{"ev": []M{Guard(func() M {
			h, ok := e.(status.HTTPError)
			return M{"op": "error", "name": name, "ok": ok, "code": int(h.Code), "msg": h.Error() == h.Message && len(h.Message) > 0}
		})}})
	}
	d.Emit(M{"ev": []M{Guard(func() M {
		e, ok := status.NewError(418, "hi").(status.HTTPError)
		return M{"op": "newerror", "ok": ok && e.Code == 418 && e.Message == "hi" && e.Error() == "hi"}
	})}})
	for _, ext := range []string{".avif", ".css", ".gif", ".htm", ".html", ".jpeg", ".jpg", ".js", ".json", ".mjs", ".pdf", ".png", ".svg", ".wasm", ".webp", ".xml", ".gz", ".sql", ".tzif", ".xfdf", ".zlib", ".zstd", ".yaml", ".zip", ".ico", ".zzz", "", ".HTML", "html"} {
		d.Emit(M{"ev": []M{M{"op": "mime", "ext": ext, "type": mime.Extension[ext]}}})
	}
	d.Emit(M{"ev": []M{M{"op": "mimes", "octet": mime.OctetStream, "plain": mime.PlainText, "html": mime.HTML, "json": mime.JSON}}})
	for i := 0; i < d.N; i++ {
		if i%2 == 0 {
			methodEv(d.RandBytes(9))
		} else {
			methodEv(d.Tokens(4, "GET", "PO", "ST", "P", "UT", "HE", "AD", "OPTION", "S", "C", "ONNECT", "TRA", "CE", "ATCH", "DEL", "ETE"))
		}
	}
}

var errTable = map[string]error{
	"ConnectionTimeout": status.ErrConnectionTimeout, "CloseConnection": status.ErrCloseConnection,
	"Shutdown": status.ErrShutdown, "GracefulShutdown": status.ErrGracefulShutdown,
	"BadRequest": status.ErrBadRequest, "TooLongRequestLine": status.ErrTooLongRequestLine,
	"URIDecoding": status.ErrURIDecoding, "BadQuery": status.ErrBadQuery, "NotFound": status.ErrNotFound,
	"InternalServerError": status.ErrInternalServerError, "NotImplemented": status.ErrNotImplemented,
	"MethodNotImplemented": status.ErrMethodNotImplemented, "MethodNotAllowed": status.ErrMethodNotAllowed,
	"TooLarge": status.ErrTooLarge, "BodyTooLarge": status.ErrBodyTooLarge,
	"RequestEntityTooLarge": status.ErrRequestEntityTooLarge, "HeaderFieldsTooLarge": status.ErrHeaderFieldsTooLarge,
	"HeaderKeyTooLarge": status.ErrHeaderKeyTooLarge, "HeaderValueTooLarge": status.ErrHeaderValueTooLarge,
	"TooManyHeaders": status.ErrTooManyHeaders, "RequestHeaderFieldsTooLarge": status.ErrRequestHeaderFieldsTooLarge,
	"URITooLong": status.ErrURITooLong, "RequestURITooLong": status.ErrRequestURITooLong,
	"UnsupportedProtocol": status.ErrUnsupportedProtocol, "HTTPVersionNotSupported": status.ErrHTTPVersionNotSupported,
	"Unauthorized": status.ErrUnauthorized, "PaymentRequired": status.ErrPaymentRequired, "Forbidden": status.ErrForbidden,
	"NotAcceptable": status.ErrNotAcceptable, "ProxyAuthRequired": status.ErrProxyAuthRequired,
	"RequestTimeout": status.ErrRequestTimeout, "Conflict": status.ErrConflict, "Gone": status.ErrGone,
	"LengthRequired": status.ErrLengthRequired, "PreconditionFailed": status.ErrPreconditionFailed,
	"UnsupportedMediaType": status.ErrUnsupportedMediaType, "UnsupportedEncoding": status.ErrUnsupportedEncoding,
	"RequestedRangeNotSatisfiable": status.ErrRequestedRangeNotSatisfiable, "ExpectationFailed": status.ErrExpectationFailed,
	"Teapot": status.ErrTeapot, "MisdirectedRequest": status.ErrMisdirectedRequest,
	"UnprocessableEntity": status.ErrUnprocessableEntity, "Locked": status.ErrLocked,
	"FailedDependency": status.ErrFailedDependency, "TooEarly": status.ErrTooEarly,
	"UpgradeRequired": status.ErrUpgradeRequired, "PreconditionRequired": status.ErrPreconditionRequired,
	"TooManyRequests": status.ErrTooManyRequests, "UnavailableForLegalReasons": status.ErrUnavailableForLegalReasons,
	"BadGateway": status.ErrBadGateway, "ServiceUnavailable": status.ErrServiceUnavailable,
	"GatewayTimeout": status.ErrGatewayTimeout, "VariantAlsoNegotiates": status.ErrVariantAlsoNegotiates,
	"InsufficientStorage": status.ErrInsufficientStorage, "LoopDetected": status.ErrLoopDetected,
	"NotExtended": status.ErrNotExtended, "NetworkAuthenticationRequired": status.ErrNetworkAuthenticationRequired,
}
