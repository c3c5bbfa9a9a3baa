// Package common holds what all the drivers share: stimuli in, recorded traces out.
package common

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Bytes marshals as a JSON array of numbers: the byte strings of the specification.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(c), 10)
	}
	return append(out, ']'), nil
}

func (b *Bytes) UnmarshalJSON(data []byte) error {
	var ints []int
	if err := json.Unmarshal(data, &ints); err != nil {
		return err
	}
	*b = make([]byte, len(ints))
	for i, n := range ints {
		(*b)[i] = byte(n)
	}
	return nil
}

// S turns a string into a Bytes (copying it: the strings under test are often unsafe views)
func S(s string) Bytes { return append(Bytes{}, s...) }

// C copies a slice
func C(b []byte) Bytes { return append(Bytes{}, b...) }

type M = map[string]interface{}

// Driver is the frame of a driver: flags, seeded randomness, and the trace file.
type Driver struct {
	Prop string
	Stim string
	N    int
	Seed int64
	Rand *rand.Rand
	out  *bufio.Writer
	f    *os.File
	id   int

	limit int
}

// what runs: the watchdog stops the process when a call never comes back, when the memory runs away, or when the time
// is up, and leaves the traces recorded so far where they are looked for
var (
	mu      sync.Mutex // guards the writers
	beat    int64      // grows with every trace and guarded call
	hung    int32      // a guarded call did not come back
	endings func()     // flushes everything recorded so far (holding mu)
)

const (
	patience = 60       // seconds for a call
	silence  = 120      // seconds without any trace
	tooMuch  = 10 << 30 // bytes of memory
)

func stop(code int, why string) {
	mu.Lock()
	if endings != nil {
		endings()
	}
	fmt.Println("stopped:", why)
	os.Exit(code)
}

func memory() int64 {
	data, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	if f := strings.Fields(string(data)); len(f) > 1 {
		n, _ := strconv.ParseInt(f[1], 10, 64)
		return n * int64(os.Getpagesize())
	}
	return 0
}

// watch counts what it lives through itself, not the clock: a machine standing still is nobody's hang
func watch(limit int) {
	last, same := int64(-1), 0
	for tick := 1; ; tick++ {
		time.Sleep(250 * time.Millisecond)
		if memory() > tooMuch {
			stop(77, "the memory runs away")
		}
		if now := atomic.LoadInt64(&beat); now != last {
			last, same = now, 0
		} else if same++; same > 4*silence {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			stop(76, fmt.Sprintf("nothing has come back for %d seconds\n%s", silence, buf[:n]))
		}
		if limit > 0 && tick > 4*limit {
			stop(78, "the time is up")
		}
	}
}

// Main runs the body of a driver: once, or several times at once in the same process (-lanes), each time with
// its own randomness; the traces of all the lanes end up in the same file.
func Main(body func(d *Driver)) {
	d, out, lanes := flags()
	if lanes < 2 {
		d.Open(out)
		endings = func() { d.Close() }
		go watch(d.limit)
		body(d)
		mu.Lock()
		d.Close()
		os.Exit(0)
	}
	var wg sync.WaitGroup
	all := make([]bytes.Buffer, lanes)
	owns := make([]*Driver, lanes)
	endings = func() { // (run once: with mu held for good)
		f, err := os.Create(out)
		if err != nil {
			panic("driver: " + err.Error())
		}
		for l := range all {
			owns[l].Close()
			if _, err = f.Write(all[l].Bytes()); err != nil {
				panic("driver: " + err.Error())
			}
		}
		if err = f.Close(); err != nil {
			panic("driver: " + err.Error())
		}
	}
	for l := 0; l < lanes; l++ {
		own := *d
		owns[l] = &own
		own.Seed = own.Seed*100 + int64(l)
		own.seed()
		own.out = bufio.NewWriterSize(&all[l], 1<<20)
	}
	go watch(d.limit)
	for _, own := range owns {
		own := own
		wg.Add(1)
		go func() {
			defer wg.Done()
			body(own)
		}()
	}
	wg.Wait()
	mu.Lock()
	endings()
	os.Exit(0)
}

func flags() (d *Driver, out string, lanes int) {
	d = &Driver{}
	flag.IntVar(&lanes, "lanes", 1, "how many times to run at once")
	flag.StringVar(&d.Prop, "prop", "", "what to drive")
	flag.StringVar(&d.Stim, "stim", "", "stimuli file")
	flag.StringVar(&out, "out", "", "trace file")
	flag.IntVar(&d.N, "n", 0, "number of random cases")
	flag.IntVar(&d.limit, "limit", 0, "seconds to run at most")
	flag.Int64Var(&d.Seed, "seed", 1, "seed")
	flag.Parse()
	return d, out, lanes
}

func (d *Driver) Open(out string) {
	d.seed()
	f, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	d.f = f
	d.out = bufio.NewWriterSize(f, 1<<20)
}

func (d *Driver) seed() { d.Rand = rand.New(rand.NewSource(d.Seed*7919 + 17)) }

func (d *Driver) Close() {
	if err := d.out.Flush(); err != nil {
		panic(err)
	}
	if d.f == nil {
		return
	}
	if err := d.f.Close(); err != nil {
		panic(err)
	}
}

// Emit writes one trace
func (d *Driver) Emit(tr M) {
	d.id++
	tr["id"] = d.id
	data, err := json.Marshal(tr)
	if err != nil {
		panic(err)
	}
	atomic.AddInt64(&beat, 1)
	mu.Lock()
	if _, err = d.out.Write(append(data, '\n')); err != nil {
		panic(err)
	}
	mu.Unlock()
	if atomic.LoadInt32(&hung) != 0 {
		stop(0, "a call did not come back") // (the trace says so)
	}
}

// Stimuli calls f for every line of the stimuli file
func (d *Driver) Stimuli(f func(raw []byte)) {
	if d.Stim == "" {
		return
	}
	data, err := os.ReadFile(d.Stim)
	if err != nil {
		panic(err)
	}
	for _, line := range strings.Split(string(data), "\n") {
		if len(line) > 0 {
			f([]byte(line))
		}
	}
}

func Parse(raw []byte, into interface{}) {
	if err := json.Unmarshal(raw, into); err != nil {
		panic(fmt.Sprintf("bad stimulus %s: %s", raw, err))
	}
}

// Guard runs f; a panic or a call that never comes back is an observation too.
func Guard(f func() M) (ev M) {
	if atomic.LoadInt32(&hung) != 0 {
		return M{"op": "hang"}
	}
	atomic.AddInt64(&beat, 1)
	ch := make(chan M, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 2048)
				n := runtime.Stack(buf, false)
				ch <- M{"op": "panic", "what": fmt.Sprint(r), "stack": string(buf[:n])}
			}
		}()
		ch <- f()
	}()
	select { // (what comes back at once, most of the time)
	case ev = <-ch:
		return ev
	case <-time.After(time.Second):
	}
	for i := 0; i < patience; i++ {
		select {
		case ev = <-ch:
			return ev
		case <-time.After(time.Second):
		}
	}
	Hung()
	return M{"op": "hang"}
}

// Hung makes the next trace the last one
func Hung() { atomic.StoreInt32(&hung, 1) }

// Pick returns a random element
func (d *Driver) Pick(xs ...string) string { return xs[d.Rand.Intn(len(xs))] }

// Tokens concatenates up to n random tokens
func (d *Driver) Tokens(n int, xs ...string) string {
	var sb strings.Builder
	for k := d.Rand.Intn(n + 1); k > 0; k-- {
		sb.WriteString(xs[d.Rand.Intn(len(xs))])
	}
	return sb.String()
}

// RandBytes returns up to n random bytes
func (d *Driver) RandBytes(n int) string {
	b := make([]byte, d.Rand.Intn(n+1))
	for i := range b {
		b[i] = byte(d.Rand.Intn(256))
	}
	return string(b)
}

// Keys returns the keys of a map in order
func Keys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Sizes are the lengths around which implementations change their ways
var Sizes = []int{15, 16, 17, 24, 25, 26, 31, 32, 33, 39, 40, 41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1024, 1025, 2049, 4097}

// Longs returns long strings: every size made of one token all over, and of a filler with tokens in front, behind and
// within
func (d *Driver) Longs(toks ...string) (out []string) {
	fit := func(n int, toks ...string) string {
		var sb strings.Builder
		for sb.Len() < n {
			sb.WriteString(toks[d.Rand.Intn(len(toks))])
		}
		return sb.String()
	}
	for _, n := range Sizes {
		t, t2 := d.Pick(toks...), d.Pick(toks...)
		pad := strings.Repeat(d.Pick("a", "xy", "-"), n)[:n]
		at := d.Rand.Intn(n)
		if n > 600 {
			out = append(out, fit(n, t), pad[:at]+t+pad[at:]+t2)
			continue
		}
		out = append(out, fit(n, t), fit(n, t2), t+fit(n, t2), fit(n, t)+t2, pad+t, t+pad, pad[:at]+t+pad[at:]+t2, fit(n, append(toks, "a", "b")...))
	}
	return out
}

// Steady drives a function of one string: its result is what it is at once, and still is after the function
// was called with something else. call calls the function, and returns what describes its result.
type Steady struct{ prev string }

func (s *Steady) Run(in string, call func(in string) func() M) []M {
	var show func() M
	evs := []M{Guard(func() M {
		show = call(strings.Clone(in))
		return show()
	})}
	Guard(func() M { call(strings.Clone(s.prev)); return nil })
	s.prev = in
	if show != nil {
		evs = append(evs, Guard(show))
	}
	return evs
}

// Around runs every input with any one byte put in anywhere (at the ends of it, mostly), or taken out
func Around(inputs []string, run func(in string)) {
	for _, in := range inputs {
		run(in)
		for at := 0; at <= len(in); at++ {
			if at < len(in) {
				run(in[:at] + in[at+1:])
			}
			step := 1
			if at > 1 && at < len(in) && len(inputs) > 6 {
				step = 7
			}
			for c := at % step; c < 256; c += step {
				run(in[:at] + string([]byte{byte(c)}) + in[at:])
			}
		}
	}
}

var addrs atomic.Int64

// FreeAddr gives an address nobody else is going to be given: of an own host of the loopback network each time, as a
// port alone, free now, may be somebody else's a moment later
func FreeAddr() string {
	n := addrs.Add(1)
	pid := int64(os.Getpid())
	host := fmt.Sprintf("127.%d.%d.%d", 1+(pid/250+n/250)%250, 1+pid%250, 1+n%250)
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		panic("driver: " + err.Error())
	}
	defer l.Close()
	return l.Addr().String()
}
