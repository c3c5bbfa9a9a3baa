package common

import (
	"bytes"
	"runtime"
	"sync/atomic"
	"time"
)

// Quiet waits until no goroutine of the process but the caller can make a step by itself: all of them are
// parked. (A goroutine whose wake-up condition is met is runnable, so a snapshot taken with the world
// stopped tells.) Goroutines parked on timers or on the network poller count as moving for a while. It
// reports whether rest was reached.
func Quiet() bool {
	start := time.Now()
	for n := 0; ; n++ {
		switch moving() {
		case 0:
			return true
		case 1:
			if time.Since(start) > 100*time.Millisecond {
				return true
			}
		}
		if time.Since(start) > 60*time.Second {
			Hung()
			return false
		}
		if n < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

var stackBuf = make([]byte, 1<<16)

// moving: 2 - something runs, 1 - something sleeps, 0 - all is parked
func moving() int {
	var n int
	for {
		n = runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			break
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
	s := stackBuf[:n]
	res := 0
	first := true
	for len(s) > 0 {
		line := s
		if i := bytes.IndexByte(s, '\n'); i >= 0 {
			line, s = s[:i], s[i+1:]
		} else {
			s = nil
		}
		if !bytes.HasPrefix(line, []byte("goroutine ")) {
			continue
		}
		if first { // the caller itself
			first = false
			continue
		}
		i, j := bytes.IndexByte(line, '['), bytes.IndexByte(line, ']')
		if i < 0 || j < i {
			continue
		}
		block := s
		if k := bytes.Index(s, []byte("\n\n")); k >= 0 {
			block = s[:k]
		}
		if bytes.Contains(block, []byte("common.watch(")) { // (the watchdog is nobody's business)
			continue
		}
		st := line[i+1 : j]
		if k := bytes.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		switch {
		case parked(st):
		case bytes.HasPrefix(st, []byte("sleep")):
			res = 1
		default:
			return 2
		}
	}
	return res
}

// (a bare "semacquire" is the runtime's own, e.g. an allocation waiting for this very snapshot to be over)
func parked(st []byte) bool {
	for _, p := range []string{"chan receive", "chan send", "select", "IO wait", "sync.", "finalizer wait", "cleanup wait"} {
		if bytes.HasPrefix(st, []byte(p)) {
			return true
		}
	}
	return false
}

// Sleep lets the time pass: the watchdog is told that this is meant
func Sleep(seconds int) {
	for ; seconds > 0; seconds-- {
		time.Sleep(time.Second)
		atomic.AddInt64(&beat, 1)
	}
}
