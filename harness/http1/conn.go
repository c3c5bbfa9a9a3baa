package main

import (
	"errors"
	"io"
	"net"
	"time"
)

var errReset = errors.New("connection reset")
var errWrite = errors.New("broken pipe")

type spinning struct{}

// conn is a peer that follows a script: the stream arrives in the given pieces, then it is over.
type conn struct {
	segs      [][]byte
	end       error
	together  bool // the end comes together with the last bytes
	failAfter int  // number of writes that succeed; -1 - all
	out       []byte
	failed    bool
	own       bool // it's the hijacker who writes
	handed    bool // the hijacker has returned
	late      int  // reads after that
	ended     int
}

func (c *conn) Read(p []byte) (int, error) {
	if c.handed {
		c.late++
	}
	for len(c.segs) > 0 && len(c.segs[0]) == 0 {
		c.segs = c.segs[1:]
	}
	if len(c.segs) == 0 {
		if c.ended++; c.ended > 1000 {
			panic(spinning{})
		}
		return 0, c.end
	}
	if len(p) == 0 {
		panic("driver: empty read buffer")
	}
	n := copy(p, c.segs[0])
	c.segs[0] = c.segs[0][n:]
	if len(c.segs[0]) == 0 {
		c.segs = c.segs[1:]
	}
	if len(c.segs) == 0 && c.together {
		return n, c.end
	}
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	if c.own {
		return len(p), nil
	}
	if c.failAfter == 0 {
		c.failed = true
		return 0, errWrite
	}
	if c.failAfter > 0 {
		c.failAfter--
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *conn) Close() error                     { return nil }
func (c *conn) LocalAddr() net.Addr              { return addr("local") }
func (c *conn) RemoteAddr() net.Addr             { return addr("peer") }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

// reader is an attachment that follows a script
type reader struct {
	pieces   [][]byte
	end      error
	together bool
	idle     bool // returns nothing and no error from time to time
	turn     int
	// lengths of the buffers
	att, full map[int]bool
}

func (r *reader) Read(p []byte) (int, error) {
	r.turn++
	if r.att != nil {
		r.att[len(p)] = true
	}
	if r.full != nil {
		r.full[len(p)] = true
	}
	if r.turn > 200000 {
		panic(spinning{})
	}
	if r.idle && r.turn%3 == 1 {
		return 0, nil
	}
	for len(r.pieces) > 0 && len(r.pieces[0]) == 0 {
		r.pieces = r.pieces[1:]
	}
	if len(r.pieces) == 0 {
		return 0, r.end
	}
	n := copy(p, r.pieces[0])
	r.pieces[0] = r.pieces[0][n:]
	if len(r.pieces[0]) == 0 {
		r.pieces = r.pieces[1:]
	}
	if len(r.pieces) == 0 && r.together {
		return n, r.end
	}
	return n, nil
}

type closingReader struct {
	*reader
	closed *int
}

func (c closingReader) Close() error {
	*c.closed++
	return nil
}

var _ io.ReadCloser = closingReader{}
