// Driver of the data structures requests are made of.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/query"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/keyvalue"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
)

func main() {
	Main(drive)
}

func drive(d *Driver) {
	switch d.Prop {
	case "header":
		headerValues(d)
	case "escape":
		escape(d)
	case "query":
		queries(d)
	case "cookie":
		cookies(d)
	case "kv":
		kvHistories(d)
	case "config":
		configs(d)
	case "proto":
		protos(d)
	default:
		panic("unknown -prop " + d.Prop)
	}
}

func words(d *Driver, run func(in string), long []string, gen func() string) {
	d.Stimuli(func(raw []byte) {
		var s struct{ In Bytes }
		Parse(raw, &s)
		run(string(s.In))
	})
	for _, in := range long {
		run(in)
	}
	for i := 0; i < d.N; i++ {
		run(gen())
	}
}

func headerValues(d *Driver) {
	var steady Steady
	words(d, func(in string) {
		for _, p := range [][2]string{{"q", "zz"}, {"charset", ""}, {"a", "or"}} {
			p := p
			d.Emit(M{"in": S(in), "name": S(p[0]), "or": S(p[1]), "ev": steady.Run(in, func(in string) func() M {
				param := headers.ParamOfOr(in, p[0], p[1])
				if p[1] == "" {
					param = headers.ParamOf(in, p[0])
				}
				value, charset, quality := headers.ValueOf(in), headers.CharsetOf(in), headers.QualityOf(in)
				return func() M {
					return M{"op": "header", "value": S(value), "param": S(param), "charset": S(charset), "quality": quality}
				}
			})})
		}
	}, d.Longs(";", ";q=0.5", ";a=b", ";charset=utf-8", "=", ";q=0."), func() string {
		return d.Tokens(9, ";", ";q=", ";q=0.", "q=", "0.5", "12", "-3", "+4", ";charset=", "utf-8", "=", "text/html", " ", ";a=", "b", ";qq=0.1", ";;", "Charset=", "\xff")
	})
}

func escape(d *Driver) {
	var steady Steady
	run := func(in string) {
		d.Emit(M{"in": S(in), "ev": steady.Run(in, func(in string) func() M {
			out := http.Escape(in)
			return func() M { return M{"op": "escape", "out": S(out)} }
		})})
	}
	for c := 0; c < 256; c++ {
		run(string([]byte{byte(c)}))
		run("/a" + string([]byte{byte(c)}) + "b")
	}
	run(strings.Repeat("/long/path", 9) + "\x00\n" + strings.Repeat("é", 40))
	words(d, run, d.Longs("\x00", "\n", "é", "\x7f", "~", "\\"), func() string {
		if d.Rand.Intn(2) == 0 {
			return d.RandBytes(60)
		}
		return d.Tokens(20, "/", "hello", "\x00", "\n", "é", "日本", "\\", " ", "\x7f", "\x1b", "~", "%")
	})
}

// ---------------------------------------------------------------- queries

func pairsOf(s *keyvalue.Storage) []M {
	out := []M{}
	for _, p := range s.Unwrap() {
		out = append(out, M{"k": S(p.Key), "v": S(p.Value)})
	}
	return out
}

func queries(d *Driver) {
	q := query.New(keyvalue.New())
	run := func(fresh bool, ins ...string) {
		if fresh {
			q = query.New(keyvalue.New())
		}
		var evs []M
		for _, in := range ins {
			in := in
			evs = append(evs, Guard(func() M { q.Set([]byte(in)); return M{"op": "set", "raw": S(in)} }))
			raw := func() { evs = append(evs, Guard(func() M { return M{"op": "raw", "raw": C(q.Raw())} })) }
			get := func(k string) {
				evs = append(evs, Guard(func() M {
					v, err := q.Get(k)
					e := ""
					if err == query.ErrNoSuchKey {
						e = "nokey"
					} else if err != nil {
						e = "bad"
					}
					return M{"op": "get", "key": S(k), "val": S(v), "err": e}
				}))
			}
			unwrap := func() {
				evs = append(evs, Guard(func() M {
					ps, err := q.Unwrap()
					ev := M{"op": "unwrap", "pairs": []M{}, "err": ""}
					if err != nil {
						ev["err"] = "bad"
					} else {
						ev["pairs"] = pairsOf(ps)
					}
					return ev
				}))
			}
			steps := []func(){raw, unwrap, func() { get("a") }, func() { get("B") }, func() { get("a b") }, func() { get("") }, raw, unwrap}
			k := d.Rand.Intn(len(steps))
			for j := range steps {
				steps[(j+k)%len(steps)]()
			}
		}
		d.Emit(M{"ev": evs})
	}
	d.Stimuli(func(raw []byte) {
		var s struct{ In Bytes }
		Parse(raw, &s)
		run(true, string(s.In))
	})
	gen := func() string {
		return d.Tokens(9, "&", "=", "a", "b", "+", "%26", "%3d", "%3D", "%2B", "%2", "%zz", "hello=world&", "flag&", "a+b=c%20d", "%61", "\xff", "?", "#", "%25", "&&")
	}
	for i, in := range d.Longs("&", "a=b&", "%41", "+", "&x", "=", "%2", "k%20=v+&") {
		run(i%2 == 0, gen(), in, gen())
	}
	for i := 0; i < d.N; i++ {
		run(i%2 == 0, gen(), gen(), gen())
	}
}

// ---------------------------------------------------------------- cookies

func cookies(d *Driver) {
	cfg := config.Default()
	run := func(hs [][2]string) {
		req := construct.Request(cfg, dummy.NewNopClient(), nil)
		var all []Bytes
		for _, h := range hs {
			req.Headers.Add(h[0], h[1])
			if strings.EqualFold(h[0], "cookie") {
				all = append(all, S(h[1]))
			}
		}
		if all == nil {
			all = []Bytes{}
		}
		var evs []M
		for k := 0; k < 3; k++ {
			evs = append(evs, Guard(func() M {
				jar, err := req.Cookies()
				ev := M{"op": "cookies", "err": err != nil, "pairs": []M{}, "jar": jar != nil}
				if jar != nil {
					ev["pairs"] = pairsOf(jar)
				}
				return ev
			}))
		}
		d.Emit(M{"headers": all, "ev": evs})
	}
	d.Stimuli(func(raw []byte) {
		var s struct{ In Bytes }
		Parse(raw, &s)
		run([][2]string{{"Cookie", string(s.In)}})
	})
	gen := func() string {
		return d.Tokens(8, ";", "; ", "=", "a", "b=c", " ", "hello=world; ", "x=y=z", ";;", "%3D", "\"q\"", "lang=en", "\xff")
	}
	for _, in := range d.Longs(";", "a=b; ", "a=b;", "; ", "=", "x=y") {
		run([][2]string{{"Cookie", gen()}, {"cookie", in}, {"COOKIE", gen()}})
		run([][2]string{{"Cookie", in}})
	}
	for i := 0; i < d.N; i++ {
		var hs [][2]string
		for k := d.Rand.Intn(4); k >= 0; k-- {
			hs = append(hs, [2]string{d.Pick("Cookie", "cookie", "COOKIE", "Cookie2", "X-Cookie"), gen()})
		}
		run(hs)
	}
}

// ---------------------------------------------------------------- key-value storage

type kvStep struct {
	Op  string
	On  int
	Key Bytes
	Val Bytes
}

// arena makes strings out of one block of memory, as the parser does, to be overwritten later on
type arena struct{ mem []byte }

func (a *arena) str(s []byte) string {
	if len(s) == 0 {
		return ""
	}
	off := len(a.mem)
	if off+len(s) > cap(a.mem) {
		panic("driver: arena is full")
	}
	a.mem = append(a.mem, s...)
	view := a.mem[off : off+len(s)]
	return *(*string)(unsafe.Pointer(&view))
}

func runKV(d *Driver, steps []kvStep) {
	ar := &arena{mem: make([]byte, 0, 1<<14)}
	stores := []*keyvalue.Storage{keyvalue.New()}
	if d.Rand.Intn(2) == 0 {
		stores[0] = keyvalue.NewPreAlloc(d.Rand.Intn(4))
	}
	var evs []M
	for _, st := range steps {
		st := st
		evs = append(evs, Guard(func() M {
			on := st.On
			if on >= len(stores) {
				on = len(stores) - 1
			}
			s := stores[on]
			key := string(st.Key)
			ev := M{"op": st.Op, "on": on + 1}
			switch st.Op {
			case "add":
				k, v := key, string(st.Val)
				if on == 0 {
					k, v = ar.str(st.Key), ar.str(st.Val)
				}
				r := s.Add(k, v)
				ev["key"], ev["val"], ev["same"] = st.Key, st.Val, r == s
			case "clear":
				ev["same"] = s.Clear() == s
			case "clone":
				stores = append(stores, s.Clone())
			case "scribble": // the memory of the first storage's strings is reused
				for i := range ar.mem {
					ar.mem[i] = '#'
				}
				stores[0].Clear()
			case "look":
				v, found := s.Get(key)
				vals := []Bytes{}
				for _, x := range s.Values(key) {
					vals = append(vals, S(x))
				}
				ev["key"], ev["found"], ev["val"] = st.Key, found, S(v)
				ev["values"], ev["has"] = vals, s.Has(key)
				ev["value"], ev["or"] = S(s.Value(key)), S(s.ValueOr(key, "dflt"))
			case "all":
				keys := []Bytes{}
				for _, x := range s.Keys() {
					keys = append(keys, S(x))
				}
				ev["keys"], ev["pairs"], ev["len"] = keys, pairsOf(s), s.Len()
				it := s.Iter()
				seen := []M{}
				for {
					p, cont := it.Next()
					if !cont {
						break
					}
					seen = append(seen, M{"k": S(p.Key), "v": S(p.Value)})
				}
				ev["iter"] = seen
			}
			return ev
		}))
	}
	d.Emit(M{"ev": evs})
}

func kvHistories(d *Driver) {
	d.Stimuli(func(raw []byte) {
		var s struct{ Steps []kvStep }
		Parse(raw, &s)
		runKV(d, s.Steps)
	})
	keys := []string{"a", "A", "b", "Accept", "ACCEPT", "accept", "accept-encoding", "Accept-Encoding", "x", "", "host", "aB", "Ab"}
	for i := 0; i < d.N; i++ {
		var steps []kvStep
		n := 1
		for k := 4 + d.Rand.Intn(24); k > 0; k-- {
			st := kvStep{Op: d.Pick("add", "add", "add", "look", "all", "look", "clear", "clone", "scribble"), On: d.Rand.Intn(n), Key: S(d.Pick(keys...)), Val: S(d.Tokens(2, "v", "1", "2", ""))}
			if st.Op == "clear" && d.Rand.Intn(3) > 0 {
				st.Op = "all"
			}
			if st.Op == "clone" {
				n++
			}
			steps = append(steps, st)
		}
		for on := 0; on < n; on++ {
			steps = append(steps, kvStep{Op: "all", On: on, Key: Bytes{}, Val: Bytes{}}, kvStep{Op: "look", On: on, Key: S(d.Pick(keys...)), Val: Bytes{}})
		}
		runKV(d, steps)
	}
	// many pairs, long ones
	for i := 0; i < 12+d.N/50; i++ {
		var steps []kvStep
		n := 1 + d.Rand.Intn(20)
		for k := 8 + d.Rand.Intn(50); k > 0; k-- {
			l := 1 + d.Rand.Intn(n)
			if d.Rand.Intn(20) == 0 {
				l = Sizes[d.Rand.Intn(14)]
			}
			key := Bytes(strings.Repeat("a", l))
			for c := d.Rand.Intn(3); c > 0; c-- {
				key[d.Rand.Intn(l)] = "aAbB-"[d.Rand.Intn(5)]
			}
			steps = append(steps, kvStep{Op: d.Pick("add", "add", "add", "look"), Key: key, Val: S(fmt.Sprint("v", k))})
			if d.Rand.Intn(12) == 0 {
				steps = append(steps, kvStep{Op: d.Pick("all", "clone", "clear"), Key: key, Val: Bytes{}})
			}
		}
		steps = append(steps, kvStep{Op: "all", Key: Bytes{}, Val: Bytes{}}, kvStep{Op: "clone", Key: Bytes{}, Val: Bytes{}},
			kvStep{Op: "scribble", Key: Bytes{}, Val: Bytes{}}, kvStep{Op: "all", On: 99, Key: Bytes{}, Val: Bytes{}})
		runKV(d, steps)
	}
	// a great many pairs, and long names that differ in nothing but their case (or in nothing but one byte)
	for i, total := range []int{60, 63, 64, 65, 66, 100, 127, 128, 129, 130, 257, 300} {
		var steps []kvStep
		long := strings.Repeat("Long-Name-", 1+d.Rand.Intn(5)) + strings.Repeat("x", d.Rand.Intn(3))
		for k := 0; k < total; k++ {
			key := fmt.Sprint("k", k%(7+i))
			switch d.Rand.Intn(5) {
			case 0:
				key = strings.ToLower(long)
			case 1:
				b := []byte(long)
				for j := range b {
					if d.Rand.Intn(3) == 0 {
						b[j] = strings.ToUpper(string(b[j : j+1]))[0]
					}
				}
				key = string(b)
			case 2:
				if d.Rand.Intn(3) == 0 {
					b := []byte(long)
					b[d.Rand.Intn(len(b))] = 'z'
					key = string(b)
				}
			}
			steps = append(steps, kvStep{Op: "add", Key: S(key), Val: S(fmt.Sprint("v", k))})
		}
		look := func() {
			steps = append(steps, kvStep{Op: "look", Key: S(long), Val: Bytes{}}, kvStep{Op: "look", Key: S("K0"), Val: Bytes{}}, kvStep{Op: "all", Key: Bytes{}, Val: Bytes{}})
		}
		look()
		steps = append(steps, kvStep{Op: "clear", Key: Bytes{}, Val: Bytes{}})
		look()
		for k := 0; k < i%4; k++ {
			steps = append(steps, kvStep{Op: "add", Key: S(fmt.Sprint("K", k)), Val: S("again")})
		}
		look()
		runKV(d, steps)
	}
	// construction from a map: the values of a key stay in order
	for n := 0; n < 12; n++ {
		m := map[string][]string{}
		if n >= 5 {
			m["lone"], m["Empty"], m[""], m["none"], m["Nil"] = []string{""}, []string{"", "x", ""}, []string{"unnamed"}, []string{}, nil
			if n%3 == 0 {
				m["lone"], m["same"] = []string{"x"}, []string{"v", "v", "v"}
			}
		}
		for k := 0; k < n; k++ {
			key := fmt.Sprintf("Key%d", k)
			for j := 0; j < k; j++ {
				m[key] = append(m[key], fmt.Sprint(j))
			}
		}
		d.Emit(M{"ev": []M{Guard(func() M {
			s := keyvalue.NewFromMap(m)
			if n%2 == 0 {
				s = headers.NewFromMap(m)
			}
			total := 0
			ok := true
			for k, vs := range m {
				got := append([]string{}, s.Values(strings.ToUpper(k))...)
				ok = ok && fmt.Sprint(got) == fmt.Sprint(vs)
				total += len(vs)
			}
			return M{"op": "frommap", "ok": ok, "len": s.Len(), "want": total}
		})}})
	}
}

// ---------------------------------------------------------------- configuration

func leaves(v reflect.Value, path string, f func(path string, v reflect.Value)) {
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), path+"."+v.Type().Field(i).Name, f)
		}
		return
	}
	f(path, v)
}

func flat(c config.Config) (names, vals []string) {
	leaves(reflect.ValueOf(&c).Elem(), "", func(p string, v reflect.Value) {
		names = append(names, p)
		data, err := json.Marshal(v.Interface())
		if err != nil {
			panic(err)
		}
		vals = append(vals, string(data))
	})
	return
}

func configs(d *Driver) {
	var n int
	leaves(reflect.ValueOf(config.Config{}), "", func(string, reflect.Value) { n++ })
	run := func(set func(i int) bool) {
		var src config.Config
		i := 0
		leaves(reflect.ValueOf(&src).Elem(), "", func(p string, v reflect.Value) {
			if set(i) {
				x := int64(1 + d.Rand.Intn(1000000))
				switch v.Kind() {
				case reflect.Int, reflect.Int64, reflect.Int32:
					if d.Rand.Intn(4) == 0 {
						x = -x
					}
					v.SetInt(x)
				case reflect.Uint, reflect.Uint64, reflect.Uint32:
					v.SetUint(uint64(x))
				case reflect.Map:
					m := map[string]string{}
					for k := d.Rand.Intn(3); k > 0; k-- {
						m[fmt.Sprint(k)] = "v"
					}
					v.Set(reflect.ValueOf(m))
				default:
					panic("driver: a configuration field of an unexpected type: " + p)
				}
			}
			i++
		})
		d.Emit(M{"ev": []M{Guard(func() M {
			names, s := flat(src)
			_, z := flat(config.Config{})
			_, def := flat(config.Default())
			out := config.Fill(src)
			_, o := flat(out)
			_, again := flat(config.Fill(out))
			return M{"op": "fill", "names": names, "src": s, "zero": z, "def": def, "out": o, "again": again}
		})}})
	}
	run(func(int) bool { return false })
	run(func(int) bool { return true })
	for k := 0; k < n; k++ {
		k := k
		run(func(i int) bool { return i == k })
		run(func(i int) bool { return i != k })
	}
	for k := 0; k < d.N; k++ {
		run(func(int) bool { return d.Rand.Intn(2) == 0 })
	}
}

// ---------------------------------------------------------------- protocols

func protos(d *Driver) {
	run := func(in string) {
		d.Emit(M{"ev": []M{Guard(func() M {
			p := proto.FromBytes([]byte(in))
			return M{"op": "proto", "in": S(in), "known": p != proto.Unknown, "str": S(p.String())}
		})}})
	}
	for a := 0; a < 12; a++ {
		for b := 0; b < 12; b++ {
			run(fmt.Sprintf("HTTP/%d.%d", a, b))
			d.Emit(M{"ev": []M{Guard(func() M {
				p := proto.Parse(uint8(a), uint8(b))
				return M{"op": "version", "major": a, "minor": b, "known": p != proto.Unknown, "str": S(p.String())}
			})}})
		}
	}
	for _, ok := range []string{"HTTP/1.0", "HTTP/1.1", "HTTP/2.0"} {
		for i := range ok {
			for c := 0; c < 256; c++ {
				run(ok[:i] + string([]byte{byte(c)}) + ok[i+1:])
			}
			run(ok[:i])
			run(ok[:i] + ok[i+1:])
		}
		run(ok + " ")
		run(strings.ToLower(ok))
	}
	up := func(in string) {
		d.Emit(M{"ev": []M{Guard(func() M {
			p := proto.ChooseUpgrade(in)
			return M{"op": "upgrade", "in": S(in), "known": p != proto.Unknown, "str": S(p.String())}
		})}})
	}
	for i := 0; i < d.N; i++ {
		run(d.Tokens(5, "HTTP/", "1", ".", "0", "2", "HTTP", "/", "1.1", "http/1.1", "\x00", ":", "HTTP/1.1"))
		up(d.Tokens(7, ",", " ", ", ", "http/1.0", "HTTP/1.1", "h2c", "H2C", "websocket", "http/1.1", "HTTP/1.0", "h2", "foo/2"))
	}
}
