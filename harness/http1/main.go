// Driver of the HTTP/1 connection: whole connections are served by the real code over a scripted peer.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	. "github.com/indigo-web/indigo/internal/zzverif/common"
)

// Knobs are the emphasis of a property: probabilities in percents
type Knobs struct {
	Reqs      int // requests per connection, at most
	Malformed int // a defect in some request
	Mutate    int // random damage of the stream
	Truncate  int
	Limits    int // limits close to what the requests need
	Body      int
	Conn      int // Connection headers
	Old       int // HTTP/1.0
	Upgrade   int
	Hijack    int
	Attach    int
	Rich      int // builder calls
	Heads     int // number of headers, at most
	Fail      int // write failures
	Segs      int // segmentations per stream
	Big       int
	Read      int // handlers reading bodies
	JSON      int // JSON bodies, and handlers reading them
}

var base = Knobs{Reqs: 3, Malformed: 10, Mutate: 5, Truncate: 10, Limits: 5, Body: 40, Conn: 10, Old: 15, Upgrade: 5, Hijack: 3,
	Attach: 15, Rich: 20, Heads: 5, Fail: 3, Segs: 2, Big: 1, Read: 60}

func knobs(prop string) Knobs {
	k := base
	switch prop {
	case "C01":
		k.Segs, k.Malformed, k.Mutate = 5, 20, 10
	case "C02":
		k.Heads, k.Malformed, k.Mutate, k.Truncate, k.Segs = 10, 0, 0, 2, 3
	case "C03":
		k.Reqs, k.Body, k.Malformed, k.Mutate, k.Truncate, k.Conn, k.Old, k.Segs = 5, 80, 3, 0, 5, 3, 5, 3
	case "C04":
		k.Malformed, k.Mutate, k.Truncate = 60, 30, 25
	case "C05":
		k.Limits, k.Malformed, k.Mutate, k.Heads, k.Body = 95, 0, 0, 7, 60
	case "C06":
		k.Reqs, k.Malformed, k.Rich, k.Attach, k.Conn, k.Old, k.Segs = 5, 15, 60, 15, 3, 5, 2
	case "C07":
		k.Conn, k.Old, k.Upgrade, k.Attach, k.Reqs, k.Malformed, k.Mutate = 60, 50, 25, 30, 4, 0, 0
	case "C08":
		k.Attach, k.Fail, k.Malformed, k.Mutate, k.Big, k.Old = 70, 8, 3, 0, 4, 30
	case "C09":
		k.Rich, k.Attach, k.Malformed, k.Mutate, k.Reqs = 95, 20, 10, 0, 4
	case "C10":
		k.Body, k.Read, k.Malformed, k.Mutate, k.Reqs, k.Segs, k.Limits = 95, 100, 0, 0, 4, 3, 15
	case "C39":
		k.JSON, k.Body, k.Read, k.Malformed, k.Mutate, k.Reqs, k.Segs, k.Rich, k.Truncate, k.Limits, k.Hijack = 95, 95, 30, 0, 3, 4, 3, 60, 8, 8, 1
	case "C41":
		k.Attach, k.Malformed, k.Mutate, k.Truncate, k.Reqs, k.Hijack = 50, 3, 0, 5, 2, 3
	case "C11":
		k.Hijack, k.Upgrade, k.Body, k.Malformed, k.Mutate, k.Segs = 35, 40, 60, 0, 0, 3
	}
	return k
}

type gen struct {
	*rand.Rand
	k Knobs
}

func (g gen) p(percent int) bool { return g.Intn(100) < percent }
func (g gen) of(xs ...string) string {
	return xs[g.Intn(len(xs))]
}

// token of printable characters
func (g gen) word(n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[g.Intn(len(alphabet))]
	}
	return string(b)
}

func (g gen) flipCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if g.p(30) {
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			} else if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
	}
	return string(b)
}

const letters = "abcdefghijklmnopqrstuvwxyz"
const tchars = "!#$%&'*+-.^_`|~0123456789ABCXYZabcxyz"

func (g gen) bodyText(n int) string {
	if g.p(25) {
		s := g.of("GET / HTTP/1.1\r\n\r\n", "\r\n0\r\n\r\n", "0\r\n\r\nPOST /x HTTP/1.1\r\nContent-Length: 1\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", "\r\n\r\n", "\n", "HTTP/1.1 200 OK\r\n\r\n")
		for len(s) < n {
			s += s
		}
		return s[:n]
	}
	b := make([]byte, n)
	for i := range b {
		switch g.Intn(8) {
		case 0:
			b[i] = byte(g.Intn(256))
		case 1:
			b[i] = "\r\n0;:"[g.Intn(5)]
		default:
			b[i] = letters[g.Intn(26)]
		}
	}
	return string(b)
}

func (g gen) length() int {
	switch g.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 1 + g.Intn(3)
	case 3:
		return 100 + g.Intn(200)
	default:
		return 1 + g.Intn(40)
	}
}

// req is a request being generated
type req struct {
	method, target, proto string
	eol, eol2             string
	heads                 []Pair
	sep                   []string
	framing               string // none, length, chunked
	body                  string // as framed
	payload               int
}

func (r req) render() string {
	var sb strings.Builder
	sb.WriteString(r.method + " " + r.target + " " + r.proto + r.eol)
	for i, h := range r.heads {
		sb.WriteString(h.K + ":" + r.sep[i] + h.V + r.eol)
	}
	sb.WriteString(r.eol2)
	sb.WriteString(r.body)
	return sb.String()
}

func (r *req) head(g gen, k, v string) {
	at := len(r.heads)
	if at > 0 && g.p(60) {
		at = g.Intn(at + 1)
	}
	r.heads = append(r.heads, Pair{})
	copy(r.heads[at+1:], r.heads[at:])
	r.heads[at] = Pair{k, v}
	r.sep = append(r.sep, g.of(" ", " ", " ", "", "   "))
}

// nearly is a header, whose name is almost one of those that mean something
func (g gen) nearly() (string, string) {
	h := []Pair{{"Content-Length", "3"}, {"Transfer-Encoding", "chunked"}, {"Connection", "close"}, {"Upgrade", "HTTP/1.0"}, {"Trailer", "X-T"},
		{"Content-Type", "a/b"}, {"Content-Encoding", "gzip"}, {"Cookie", "a=b"}}[g.Intn(8)]
	k := []byte(h.K)
	at := g.Intn(len(k))
	switch g.Intn(6) {
	case 0:
		k[at] ^= 1 << g.Intn(7)
	case 1:
		k[at] = tchars[g.Intn(len(tchars))]
	case 2:
		k[at] = k[g.Intn(len(k))]
	case 3:
		at2 := g.Intn(len(k))
		k[at], k[at2] = k[at2], k[at]
	case 4:
		k = append(k[:at], k[at+1:]...)
	case 5:
		k[at]++
	}
	for i, c := range k {
		if !strings.ContainsRune(tchars+letters+strings.ToUpper(letters), rune(c)) {
			k[i] = '-'
		}
	}
	return g.flipCase(string(k)), h.V
}

func (g gen) request() req {
	r := req{method: "GET", proto: "HTTP/1.1", eol: "\r\n", eol2: "\r\n"}
	r.method = g.of("GET", "GET", "POST", "POST", "HEAD", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH")
	r.target = "/" + g.word(g.Intn(6), letters)
	if g.p(7) {
		r.target += g.word(20+g.Intn(60), letters+"/")
	}
	if g.p(30) {
		r.target += g.of("%20", "%41%42", "%2f", "%C3%a9", "%00", "//", "a b", "/../", "é", "*", ";v=1", "\"", "\\", "<>", "|", "#", "#top", "&", "=", "+", "%23", "%3f")
	}
	if g.p(3) {
		r.target = g.of("*", "http://host/path", "a", "host:443")
	}
	if g.p(30) {
		r.target += "?" + g.of("a=1", "a=1&b=2", "", "flag", "a=%20+x", "a=1&a=2", "=", "%zz", "a=1?b", "x=%", "&&", "Key=Value&key=value", "a=#", "a=1#b", "#", "a=1;b=2", "a=\"x\"", "a=\\", "a[]=1", "?", "a=b=c", "a=é", "/x/y")
	}
	if g.p(g.k.Old) {
		r.proto = "HTTP/1.0"
	}
	if g.p(8) {
		r.eol = "\n"
	}
	if g.p(8) {
		r.eol2 = "\n"
	}
	for n := g.Intn(g.k.Heads + 1); n > 0; n-- {
		switch g.Intn(7) {
		case 0:
			r.head(g, g.flipCase("Cookie"), g.of("a=b", "a=b; c=d", "a=b;c=d", "x", "a=; b=1", "=x", "a=1; a=2;"))
		case 1:
			r.head(g, g.word(1+g.Intn(12), tchars), g.bodyLine(g.Intn(12)))
		case 2:
			r.head(g, g.of("Host", "host", "Accept", "accept", "X-Same", "x-same"), g.of("a", "b", "localhost", "", "a, b;q=0.5", "v "))
		case 3:
			r.head(g, g.flipCase("Content-Type"), g.of("text/html", "application/json", "", "a/b;charset=x", "a/b;", "A/B; ", ";", "a/b,c/d", "\"x\"", "a/b; charset=utf-8; x=\"y\""))
		case 4:
			r.head(g, g.flipCase("Content-Encoding"), g.of("gzip", "gzip, br", "", " , ", "identity"))
		case 5:
			r.head(g, g.of("X-Contents", "Content-Lengt", "Content-Lengthy", "Transfer-Encodings", "Connections", "Upgrades", "Trailers", "Content-Typ"), g.of("5", "chunked", "close", "HTTP/1.0"))
		case 6:
			k, v := g.nearly()
			r.head(g, k, v)
		}
	}
	if g.p(g.k.Conn) {
		r.head(g, g.flipCase("Connection"), g.of("close", "Close", "keep-alive", "Keep-Alive", "KEEP-ALIVE", "upgrade", "closed", "", "close, x", "keep-alive "))
		if g.p(10) {
			r.head(g, g.flipCase("Connection"), g.of("close", "keep-alive"))
		}
	}
	if g.p(g.k.Upgrade) {
		r.head(g, g.flipCase("Upgrade"), g.of("HTTP/1.0", "HTTP/1.1", "http/1.1", "websocket", "h2c", "websocket, HTTP/1.1", "h2c, HTTP/1.1", "HTTP/2.0", "HTTP/1.0,h2c", ""))
		if g.p(15) {
			r.head(g, g.flipCase("Upgrade"), g.of("HTTP/1.0", "HTTP/1.1", "h2c", ""))
		}
	}
	if g.p(g.k.Body) {
		n := g.length()
		r.payload = n
		text := g.bodyText(n)
		if g.p(g.k.JSON) {
			text = g.jsonText()
			n = len(text)
			r.payload = n
			if g.p(80) {
				r.head(g, g.flipCase("Content-Type"), g.of("application/json", "application/json", "application/json; charset=utf-8", "Application/JSON", "application/json;charset=UTF-8",
					"application/json ; x=y", "application/json;", "text/plain", "application/jsonx", "application/jso", "text/json", "", "application/json, text/plain", "; application/json", "application/json-patch+json"))
			}
		}
		if g.p(50) {
			r.framing = "length"
			r.head(g, g.flipCase("Content-Length"), g.of("", "", "0", "000")+strconv.Itoa(n))
			if g.p(5) {
				r.head(g, "Content-Length", strconv.Itoa(n))
			}
			r.body = text
		} else {
			r.framing = "chunked"
			r.head(g, g.flipCase("Transfer-Encoding"), g.of("chunked", "chunked", "Chunked", "gzip, chunked", "gzip,,chunked", "chunked, gzip"))
			for g.p(12) { // the codings may be spread over several headers
				r.head(g, g.flipCase("Transfer-Encoding"), g.of("chunked", "gzip", "gzip, br", "", "identity", "a,b", " , "))
			}
			trailer := g.p(20)
			if trailer {
				r.head(g, g.flipCase("Trailer"), g.of("X-T", "X-T", "", "x-t, y", "chunked"))
			}
			if g.p(15) {
				r.head(g, "Content-Length", strconv.Itoa(g.Intn(30)))
			}
			r.body = g.chunks(text, trailer)
		}
	}
	return r
}

// value is something with a JSON text
func (g gen) value(depth int) any {
	switch k := g.Intn(9); {
	case k < 2 && depth > 0:
		xs := []any{}
		for n := g.Intn(4); n > 0; n-- {
			xs = append(xs, g.value(depth-1))
		}
		return xs
	case k < 5 && depth > 0:
		m := map[string]any{}
		for n := g.Intn(4); n > 0; n-- {
			m[g.jsonString()] = g.value(depth - 1)
		}
		return m
	case k == 5:
		return g.p(50)
	case k == 6 && g.p(40):
		return g.float()
	case k == 6:
		return []int{0, 1, -1, 7, 42, -305, 999999999, -999999999, 65536}[g.Intn(9)]
	case k == 7 && g.p(40):
		return nil
	}
	return g.jsonString()
}

func (g gen) float() float64 {
	f, _ := strconv.ParseFloat(g.of("0.5", "-0.25", "3.14159265358979", "1e21", "1e-7", "123456.789", "0.1", "-2.5e-3", "1e20", "0.000001", "12345678.12345", "100.5", "1e45", "-7e-12", "0.1234567891"), 64)
	return f
}

func (g gen) jsonString() string {
	s := ""
	for n := g.Intn(5); n > 0; n-- {
		s += g.of("a", "b", "name", "n", "on", "tags", "\"", "\\", "/", "<", "&", "é", "\n", "\x01", "\x7f", "€", "😀", "\u2028", " ", "{", "}", "[", ",", ":", "x y")
	}
	return s
}

// text writes a value, in one of the many ways
func (g gen) text(v any) string {
	ws := func() string {
		if g.p(80) {
			return ""
		}
		return g.of(" ", "\n", "\t", "\r\n", "  ")
	}
	switch x := v.(type) {
	case []any:
		parts := []string{}
		for _, e := range x {
			parts = append(parts, ws()+g.text(e)+ws())
		}
		return "[" + strings.Join(parts, ",") + "]"
	case map[string]any:
		parts := []string{}
		for _, k := range sortedKeys(x) {
			parts = append(parts, ws()+g.text(k)+ws()+":"+ws()+g.text(x[k])+ws())
			if g.p(3) {
				parts = append(parts, g.text(k)+":"+g.text(g.value(0)))
			}
		}
		return "{" + strings.Join(parts, ",") + "}"
	case string:
		out := `"`
		for _, r := range x {
			switch {
			case r == '"' || r == '\\':
				out += g.of("\\"+string(r), fmt.Sprintf("\\u%04x", r))
			case r == '\n' && g.p(60):
				out += "\\n"
			case r == '/' && g.p(30):
				out += "\\/"
			case r < 32 || g.p(10) && r < 65536:
				out += fmt.Sprintf(g.of("\\u%04x", "\\u%04X"), r)
			case r >= 65536 && g.p(50):
				out += fmt.Sprintf("\\u%04x\\u%04x", 0xd800+(r-65536)>>10, 0xdc00+(r-65536)&0x3ff)
			default:
				out += string(r)
			}
		}
		return out + `"`
	}
	if f, ok := v.(float64); ok && g.p(60) {
		return g.of(strconv.FormatFloat(f, 'e', -1, 64), strconv.FormatFloat(f, 'E', -1, 64), strconv.FormatFloat(f, 'f', -1, 64))
	}
	js, err := json.Marshal(v)
	if err != nil {
		panic("driver: " + err.Error())
	}
	return string(js)
}

func sortedKeys(m map[string]any) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (g gen) jsonText() string {
	v := g.value(3)
	if g.p(60) { // something like the model
		m := map[string]any{}
		for _, k := range []string{"name", "n", "f", "on", "tags", "other", "nam", "names"} {
			if !g.p(60) {
				continue
			}
			switch {
			case g.p(4):
				m[k] = g.value(1)
			case k == "n":
				m[k] = []int{0, 5, -17, 123456789}[g.Intn(4)]
			case k == "f":
				m[k] = g.float()
			case k == "on":
				m[k] = g.p(60)
			case k == "tags":
				tags := []any{}
				for n := g.Intn(4); n > 0; n-- {
					tags = append(tags, g.jsonString())
				}
				m[k] = tags
			case k == "name":
				m[k] = g.jsonString()
			default:
				m[k] = g.value(2)
			}
		}
		v = m
	}
	s := g.text(v)
	switch g.Intn(12) {
	case 0:
		s = s[:g.Intn(len(s)+1)]
	case 1:
		s += g.of(" ", "x", "{}", "\n", ",", "}", "\x00", " 1", "]", "\n\n", "null")
	case 2:
		s = g.of(" ", "\n", "\t\r\n") + s + g.of("", " ")
	case 3:
		at := g.Intn(len(s))
		s = s[:at] + s[at+1:]
	}
	return s
}

func (g gen) bodyLine(n int) string {
	s := g.word(n, letters+" ,;=\t:/")
	return strings.TrimRight(s, " ")
}

func (g gen) chunks(text string, trailer bool) string {
	var sb strings.Builder
	for len(text) > 0 {
		n := 1 + g.Intn(len(text))
		if g.p(50) {
			n = 1 + g.Intn(8)
			if n > len(text) {
				n = len(text)
			}
		}
		f := g.of("%x", "%X", "%03x")
		sb.WriteString(fmt.Sprintf(f, n) + g.of("", "", "", ";ext", ";a=b") + g.of("\r\n", "\r\n", "\r\n", "\n"))
		sb.WriteString(text[:n] + g.of("\r\n", "\r\n", "\r\n", "\n"))
		text = text[n:]
	}
	sb.WriteString(g.of("0", "0", "00", "0;x") + "\r\n")
	if trailer {
		for n := g.Intn(3); n > 0; n-- {
			sb.WriteString("X-T: " + g.word(g.Intn(5), letters) + "\r\n")
		}
	}
	sb.WriteString("\r\n")
	return sb.String()
}

// spoil plants a defect in a request
func (g gen) spoil(r *req) {
	switch g.Intn(16) {
	case 0:
		r.method = g.of("", "get", "FOO", "GE", "GETT", "POS", "\r\nGET", "\tGET")
	case 1:
		r.proto = g.of("", "HTTP/2.0", "HTTP/1.2", "HTTP/0.9", "http/1.1", "HTTP/1.1x", "HTP/1.1", "HTTP/1", "HTTP/11", "HTTP/1.10", "\x00", "HTTP/3.0", "HTTP 1.1")
	case 2:
		r.target = g.of("", "?a=b", "/%", "/%4", "/%zz", "/a%g0", "/%0", "%")
	case 3:
		r.head(g, g.of("", " ", "a b", "a ", "\t", "a\x00b", " folded", "a\vb", "\x01", "k\x1f", "\x0bx", "k\b", "\f"), "x")
	case 4:
		r.head(g, g.flipCase("Content-Length"), g.of("", "-1", "+5", "0x10", "5a", "a5", "1 2", "99999999999999999999", "9223372036854775808", "9223372036854775807", "18446744073709551616", "1,1", "5;", " "))
	case 5:
		for n := 2 + g.Intn(2); n > 0; n-- {
			r.head(g, g.flipCase("Content-Length"), g.of("7", "8", "0", "00", "07", "1", "10", "78"))
		}
	case 6:
		r.eol2 = g.of("\rX", "\r\r\n", "garbage\r\n", "novalue\r\n\r\n", "\r", "x")
	case 7:
		r.eol = "\r"
	case 8:
		r.framing = "chunked"
		r.head(g, "Transfer-Encoding", "chunked")
		r.body = g.of("x\r\n", "\r\n", "5\r\nhell\r\n0\r\n\r\n", "5\r\nhellooo\r\n", "5 \r\nhello\r\n", "-1\r\n", "5\r\nhello0\r\n\r\n", "5\r\nhello\r\n0\r\nx", "ffffffffffffffff\r\n", "5\rhello", "5;\r\nhello\r\n0\r\n\r\n", "0\r\n\rx", "0\r\n")
	case 9:
		toks := strings.Repeat("gzip,", 1+g.Intn(40))
		r.head(g, g.of("Transfer-Encoding", "Content-Encoding"), toks)
	case 10:
		r.target += strings.Repeat("a", 1+g.Intn(80))
	case 11:
		r.head(g, strings.Repeat("k", 1+g.Intn(60)), strings.Repeat("v", g.Intn(100)))
	case 12:
		for n := g.Intn(12); n > 0; n-- {
			r.head(g, "K", "v")
		}
	case 13:
		r.method, r.target, r.proto = "", "", ""
	case 14:
		r.method = g.of("GET", "HEAD")
		r.head(g, "bad key", "")
	case 15:
		r.target = g.of("/ HTTP/1.1 ", "/a  ", " ", "/\x00", "/ /", "/?")
	}
}

func (g gen) response() []Call {
	cs := []Call{}
	add := func(c Call) { cs = append(cs, c) }
	if g.p(g.k.Rich) {
		for n := g.Intn(6); n > 0; n-- {
			switch g.Intn(16) {
			case 14:
				hs := []Heads{}
				for _, k := range []string{"X-One", "X-Two", "Content-Type", "X-Many", "Date"} {
					if g.p(35) {
						h := Heads{K: g.flipCase(k)}
						for n := g.Intn(4); n > 0; n-- {
							h.Vs = append(h.Vs, g.bodyLineTight(1+g.Intn(6)))
						}
						hs = append(hs, h)
					}
				}
				add(Call{F: "headers", Hs: hs})
			case 15:
				if g.p(70) {
					var v any = g.value(3)
					if g.p(30) {
						v = &doc{g.jsonString(), g.Intn(1000) - 500, g.float(), g.p(50), []string{g.jsonString()}}
					}
					add(Call{F: "json", V: v})
				} else {
					v := map[string]any{"a": strings.Repeat("x", g.Intn(2)*700), "b": g.bad()}
					_, err := http.NewResponse().TryJSON(v)
					if err == nil {
						panic("a value without a JSON text was sent")
					}
					add(Call{F: "badjson", V: v, S: err.Error()})
				}
			case 0:
				add(Call{F: "code", N: []int{200, 201, 202, 206, 226, 300, 301, 307, 400, 404, 418, 500, 503, 511, 299, 599, 999, 666}[g.Intn(18)]})
			case 1:
				add(Call{F: "status", S: g.of("Fine", "Not So Fine", "", "OK", "x")})
			case 2:
				add(Call{F: "ctype", S: g.of("text/plain", "", "application/json", "a/b; charset=utf-8")})
			case 3, 4, 5:
				vs := []string{}
				if !g.p(5) {
					vs = append(vs, g.bodyLineTight(g.Intn(10)))
				}
				for g.p(25) {
					vs = append(vs, g.bodyLineTight(1+g.Intn(6)))
				}
				add(Call{F: "header", K: g.flipCase(g.of("X-One", "X-Two", "Server", "Accept-Encodings", "Date", "Content-Type", "Content-Language", "X", "Location")), Vs: vs})
			case 6, 7:
				k := cookie.Cookie{Name: g.word(1+g.Intn(4), letters), Value: g.word(g.Intn(6), letters+"=/")}
				if g.p(40) {
					k.Path = "/" + g.word(g.Intn(4), letters)
				}
				if g.p(40) {
					k.Domain = g.word(1+g.Intn(4), letters) + ".com"
				}
				if g.p(40) {
					k.Expires = time.Date(2000+g.Intn(50), time.Month(1+g.Intn(12)), 1+g.Intn(28), g.Intn(24), g.Intn(60), g.Intn(60), g.Intn(1000000), time.FixedZone("Z", (g.Intn(25)-12)*3600))
				}
				if g.p(40) {
					k.MaxAge = []int{-1, 1, 3600, -100, 2147483647}[g.Intn(5)]
				}
				if g.p(40) {
					k.SameSite = cookie.SameSite(g.of("Lax", "Strict", "None"))
				}
				k.Secure, k.HttpOnly = g.p(30), g.p(30)
				add(Call{F: "cookie", Cookie: k})
			case 8:
				add(Call{F: "string", S: g.bodyText(g.length())})
			case 9:
				if g.p(50) { // something to be continued
					add(Call{F: g.of("bytes", "bytes", "string"), S: g.bodyText(g.length())})
				}
				add(Call{F: "write", S: g.bodyText(g.length())})
			case 10:
				xs := []string{}
				for n := g.Intn(4); n > 0; n-- {
					xs = append(xs, g.word(g.Intn(6), letters))
				}
				add(Call{F: "json", V: xs})
			case 11:
				add(Call{F: "error", N: []int{500, 400, 404, 503, 418}[g.Intn(5)], S: "went " + g.word(3, letters)})
			case 12:
				add(Call{F: "error", Http: true, N: []int{500, 400, 404, 503, 418, 401}[g.Intn(6)]})
			case 13:
				if g.p(30) {
					add(Call{F: "clear"})
				} else {
					add(Call{F: g.of("nothing", "nofile", "dirfile")})
				}
			}
		}
	}
	if g.p(g.k.Attach) {
		c := Call{F: "attach", Closer: g.p(70), Together: g.p(40), Idle: g.p(20), Fails: g.p(12)}
		total := 0
		big := g.p(g.k.Big)
		for n := g.Intn(4); n > 0; n-- {
			l := g.length()
			if big {
				l = 1500 + g.Intn(3000)
			}
			p := g.bodyText(l)
			total += len(p)
			c.Pieces = append(c.Pieces, p)
		}
		switch g.Intn(8) {
		case 0, 1, 2:
			c.Size = []int{0, -1, -7}[g.Intn(3)]
		case 3:
			c.Size = total + 1 + g.Intn(5)
		case 4:
			c.Size = total - 1 - g.Intn(5)
		default:
			c.Size = total
		}
		if g.p(25) {
			ext := g.of(".html", ".css", ".json", ".png", ".unknown", "", ".HTML")
			ct := map[string]string{".html": "text/html; charset=utf-8", ".css": "text/css; charset=utf-8", ".json": "application/json", ".png": "image/png"}[ext]
			if ct == "" {
				ct = "application/octet-stream"
			}
			c = Call{F: "file", S: strings.Join(c.Pieces, ""), K: ext, Ctype: ct}
		}
		at := 0
		for i, x := range cs {
			if x.F == "clear" {
				at = i + 1
			}
		}
		at += g.Intn(len(cs) - at + 1)
		cs = append(cs[:at:at], append([]Call{c}, cs[at:]...)...)
	} else if g.p(70) {
		add(Call{F: g.of("string", "bytes", "string", "write"), S: g.bodyText(g.length())})
	}
	return cs
}

// bad has no JSON text
func (g gen) bad() any {
	switch g.Intn(3) {
	case 0:
		return make(chan int)
	case 1:
		return math.NaN()
	}
	return func() {}
}

func (g gen) bodyLineTight(n int) string {
	return strings.TrimSpace(g.word(n, letters+" ,;=:/"))
}

func (g gen) script() Script {
	s := Script{Mode: "none"}
	if g.p(g.k.Read) {
		s.Mode = g.of("string", "bytes", "twice", "callback", "retrieve", "read", "read", "discard", "mixed")
		if g.p(30) && (s.Mode == "callback" || s.Mode == "retrieve" || s.Mode == "read") {
			s.Stop = 1 + g.Intn(3)
		}
		for n := 1 + g.Intn(3); n > 0; n-- {
			s.Sizes = append(s.Sizes, 1+g.Intn(12))
		}
	}
	if g.p(g.k.JSON) {
		if g.p(70) {
			s.Mode = g.of("none", "none", "string", "bytes")
		}
		switch s.Mode {
		case "none", "string", "bytes", "twice":
			for n := 1 + g.Intn(2); n > 0; n-- {
				s.JSON = append(s.JSON, g.of("any", "doc", "doc"))
			}
		}
	}
	s.Calls = g.response()
	s.Hijack = g.p(g.k.Hijack)
	plain := true
	for _, c := range s.Calls {
		plain = plain && c.F != "attach" && c.F != "file" && c.F != "clear"
	}
	s.Held = plain && g.p(15)
	s.Nil = plain && g.p(8)
	if s.Hijack {
		s.Held, s.Nil = false, false
		if !plain {
			s.Calls = nil
		}
	}
	return s
}

var wide = Limits{Url: 2000, Hnum: 50, Klen: 100, Kspace: 1000, Vlen: 500, Vspace: 2000, Toks: 15, Body: 10000, Chunk: 5000}

// limits puts one of the limits next to what the request needs
func (g gen) limits(rs []req) Limits {
	l := wide
	r := rs[g.Intn(len(rs))]
	near := func(n int) int {
		n += []int{-2, -1, -1, 0, 0, 0, 1, 2}[g.Intn(8)]
		if n < 1 {
			n = 1
		}
		return n
	}
	for n := 1 + g.Intn(2); n > 0; n-- {
		switch g.Intn(9) {
		case 0:
			n := len(r.target) + 1 + len(r.proto)
			if r.eol == "\r\n" {
				n++
			}
			l.Url = near(n)
			if l.Url < 4 {
				l.Url = 4
			}
		case 1:
			l.Hnum = near(len(r.heads))
		case 2, 3:
			max, sum := 0, 0
			for _, h := range r.heads {
				if len(h.K) > max {
					max = len(h.K)
				}
				sum += len(h.K)
			}
			if g.p(50) {
				l.Klen = near(max)
			} else {
				l.Kspace = near(sum)
			}
		case 4, 5:
			max, sum := 0, 0
			for _, h := range r.heads {
				if len(h.V) > max {
					max = len(h.V)
				}
				sum += len(h.V)
				if r.eol == "\r\n" {
					sum++
				}
			}
			if g.p(50) {
				l.Vlen = near(max)
			} else {
				l.Vspace = near(sum)
			}
		case 6:
			l.Toks = 1 + g.Intn(3)
		case 7:
			l.Body = near(r.payload)
		case 8:
			l.Chunk = 1 + g.Intn(12)
		}
	}
	return l
}

func (g gen) around(c *Case) {
	c.ReadBuf = []int{1, 2, 3, 5, 8, 16, 33, 64, 4096, 4096, 4096}[g.Intn(11)]
	c.RespBuf = []int{0, 16, 17, 20, 64, 64, 200, 1024, 1024}[g.Intn(9)]
	if g.p(g.k.Big) {
		c.RespBuf = 8192
	}
	c.Prealloc = []int{0, 1, 4, 16, 64, 1024}[g.Intn(6)]
	c.Enc = g.Intn(3)
	c.Reset, c.Together = g.p(30), g.p(20)
	c.FailAfter = -1
	if g.p(g.k.Fail) {
		c.FailAfter = g.Intn(5)
	}
	c.Defaults = nil
	for _, p := range []Pair{{"Accept-Encodings", "identity"}, {"Server", "indigo"}, {"x-one", "default"}, {"X-Default", ""}, {"SERVER", "also"}, {"X-ONE", "another"}} {
		if g.p(35) {
			c.Defaults = append(c.Defaults, p)
		}
	}
	if g.p(25) {
		c.OnErr = []Call{{F: "header", K: "X-One", Vs: []string{"err"}}, {F: "string", S: "sorry"}}
		if g.p(30) {
			c.OnErr = append(c.OnErr, Call{F: "attach", Closer: true, Pieces: []string{"so", "sorry"}, Size: 7 * g.Intn(2)})
		}
	}
}

func (g gen) segs() []int {
	switch g.Intn(6) {
	case 0:
		return []int{1}
	case 1:
		return nil
	case 2:
		return []int{2 + g.Intn(6)}
	}
	out := []int{}
	for n := 1 + g.Intn(8); n > 0; n-- {
		out = append(out, 1+g.Intn([]int{4, 20, 80}[g.Intn(3)]))
	}
	return out
}

func (g gen) stream(c *Case) {
	rs := []req{}
	for n := 1 + g.Intn(g.k.Reqs); n > 0; n-- {
		rs = append(rs, g.request())
	}
	if g.p(g.k.Malformed) {
		g.spoil(&rs[g.Intn(len(rs))])
	}
	c.Limits = wide
	if g.p(g.k.Limits) {
		c.Limits = g.limits(rs)
	}
	s := ""
	for _, r := range rs {
		s += r.render()
	}
	if g.p(5) {
		s += g.of("\r\n", "garbage", "GET", "\x00\xff")
	}
	if g.p(g.k.Mutate) {
		b := []byte(s)
		for n := 1 + g.Intn(3); n > 0 && len(b) > 0; n-- {
			at := g.Intn(len(b))
			switch g.Intn(4) {
			case 0:
				b[at] = byte(g.Intn(256))
			case 1:
				b = append(b[:at], b[at+1:]...)
			case 2:
				b = append(b[:at], append([]byte{"\r\n :%?/HTTP"[g.Intn(10)]}, b[at:]...)...)
			case 3:
				e := at + g.Intn(len(b)-at)
				b = append(b[:at], b[e:]...)
			}
		}
		s = string(b)
	}
	if g.p(g.k.Truncate) {
		s = s[:g.Intn(len(s)+1)]
	}
	c.Stream = s
}

var modelLimits = map[string]Limits{
	"tight": {Url: 12, Hnum: 2, Klen: 3, Kspace: 5, Vlen: 3, Vspace: 7, Toks: 1, Body: 3, Chunk: 3},
	"":      {Url: 64, Hnum: 5, Klen: 30, Kspace: 100, Vlen: 40, Vspace: 120, Toks: 3, Body: 20, Chunk: 15},
}

type stimulus struct {
	Area   string
	Stream Bytes
	Doc    Bytes
	Kinds  []struct{ Rd, Rs string } // what the handlers do
	Calls  []struct {                // how the application is built
		Op  string
		Set []string
	}
}

func (g gen) kind(rd, rs string) Script {
	s := Script{Mode: rd, Sizes: []int{3, 1}}
	switch rd {
	case "some":
		s.Mode, s.Stop = g.of("callback", "retrieve", "read"), 1
	case "all":
		s.Mode = g.of("string", "bytes", "twice", "callback", "retrieve", "read")
	}
	switch rs {
	case "text":
		s.Calls = []Call{{F: "string", S: "hello"}}
	case "empty":
		s.Nil = true
	case "held":
		s.Held = true
		s.Calls = []Call{{F: "header", K: "Server", Vs: []string{"held"}}, {F: "string", S: "held"}}
	case "custom":
		s.Calls = []Call{{F: "code", N: 299}, {F: "status", S: "Custom"}, {F: "ctype", S: "a/b"}, {F: "header", K: "X-One", Vs: []string{"1", "2"}},
			{F: "cookie", Cookie: cookie.Cookie{Name: "n", Value: "v", Path: "/", MaxAge: -1, Secure: true}}, {F: "write", S: "cus"}, {F: "write", S: "tom"}}
	case "sized":
		s.Calls = []Call{{F: "attach", Closer: true, Pieces: []string{"attach", "ment"}, Size: 10}}
	case "short":
		s.Calls = []Call{{F: "attach", Closer: true, Pieces: []string{"short"}, Size: 10}}
	case "unsized":
		s.Calls = []Call{{F: "attach", Closer: true, Pieces: []string{"attach", "ment"}, Together: true}}
	case "failing":
		s.Calls = []Call{{F: "attach", Closer: true, Pieces: []string{"attach"}, Fails: true}}
	case "error":
		s.Calls = []Call{{F: "error", Http: true, N: 404}}
	case "hijack":
		s.Hijack = true
	default:
		panic("driver: unknown response kind " + rs)
	}
	return s
}

// huge is about what does not fit into what is usually enough: bodies and buffers of tens of kilobytes
func (g gen) huge(d *Driver) {
	text := func(n int) string { return strings.Repeat(g.bodyText(97), n/97+1)[:n] }
	for _, n := range []int{4096, 65535, 65536, 65537, 70001} {
		c := Case{Limits: wide, ReadBuf: []int{512, 4096, 100000}[g.Intn(3)], RespBuf: []int{1024, 4096, 66000, 100000}[g.Intn(4)], FailAfter: -1}
		c.Limits.Body, c.Limits.Chunk = 200000, 200000
		var sc Script
		switch d.Prop {
		case "C07", "C08":
			c.RespBuf = []int{n, 100000}[g.Intn(2)]
			size := []int{0, -1, n}[g.Intn(3)]
			sc.Calls = []Call{{F: "attach", Closer: true, Pieces: []string{text(n)}, Size: size}}
			c.Stream = g.of("GET / HTTP/1.1\r\n\r\n", "HEAD / HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n")
			c.Scripts = []Script{sc}
			run(d, c)
			sc.Calls[0].Size = 0
			c.Scripts = []Script{sc}
			c.Stream = "GET / HTTP/1.1\r\n\r\n"
			c.RespBuf = n + 5000
			run(d, c)
			continue
		case "C09":
			sc.Calls = []Call{{F: g.of("string", "write", "bytes"), S: text(n)}, {F: "header", K: "X-One", Vs: []string{"x"}}}
			c.Stream = "GET / HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n"
		case "C03", "C10", "C11":
			sc.Mode = g.of("string", "bytes", "callback", "retrieve", "none")
			c.Stream = "POST / HTTP/1.1\r\nContent-Length: " + strconv.Itoa(n) + "\r\n\r\n" + text(n) + "GET /x HTTP/1.1\r\n\r\n"
			if g.p(60) {
				c.Stream = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + fmt.Sprintf("%x\r\n", n) + text(n) + "\r\n0\r\n\r\nGET /x HTTP/1.1\r\n\r\n"
			}
		default:
			return
		}
		c.Scripts = []Script{sc}
		run(d, c)
	}
}

// long: a connection that is used for a long time
func (g gen) long(d *Driver) {
	switch d.Prop {
	case "C02", "C03", "C06", "C07", "C08", "C09":
	default:
		return
	}
	c := Case{Limits: wide, ReadBuf: 4096, RespBuf: 1024, FailAfter: -1, Segs: []int{1000}}
	n := 300 + g.Intn(20)
	if d.Prop == "C07" {
		n = 1100
	}
	for i := 0; i < n; i++ {
		sc := Script{Mode: "none"}
		switch g.Intn(7) {
		case 0:
			c.Stream += "POST /p HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"
			sc.Mode = g.of("none", "string", "bytes")
		case 1:
			c.Stream += "POST /p?a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\n\r\n"
			sc.Mode = g.of("none", "string", "callback")
		case 2:
			c.Stream += "GET /h HTTP/1.1\r\nX-A: " + strconv.Itoa(i) + "\r\nCookie: a=b\r\n\r\n"
		case 3:
			c.Stream += "HEAD / HTTP/1.1\r\n\r\n"
			sc.Calls = []Call{{F: "string", S: "text"}}
		case 4:
			c.Stream += "GET / HTTP/1.0\r\nConnection: keep-alive\r\n\r\n"
			sc.Calls = []Call{{F: "header", K: "X-One", Vs: []string{strconv.Itoa(i)}}}
		default:
			c.Stream += "GET / HTTP/1.1\r\n\r\n"
			if g.p(10) {
				sc.Calls = []Call{{F: "attach", Closer: true, Pieces: []string{"ab"}, Size: 2 * g.Intn(2)}}
			}
		}
		c.Scripts = append(c.Scripts, sc)
	}
	run(d, c)
}

func main() {
	log.SetOutput(io.Discard)
	Main(drive)
}

func drive(d *Driver) {
	g := gen{d.Rand, knobs(d.Prop)}
	d.Stimuli(func(raw []byte) {
		var st stimulus
		Parse(raw, &st)
		if st.Area == "tune" {
			g.tuned(d, st.Calls)
			return
		}
		var c Case
		g.around(&c)
		c.FailAfter = -1
		c.Stream = string(st.Stream)
		if st.Area == "json" {
			doc := string(st.Doc)
			ct := g.of("", "", "Content-Type: application/json\r\n", "Content-Type: application/json; charset=utf-8\r\n")
			if g.p(50) {
				c.Stream = "POST / HTTP/1.1\r\n" + ct + "Content-Length: " + strconv.Itoa(len(doc)) + "\r\n\r\n" + doc
			} else {
				c.Stream = "POST / HTTP/1.1\r\n" + ct + "Transfer-Encoding: chunked\r\n\r\n" + g.chunks(doc, false)
			}
			c.Stream += "GET /x HTTP/1.1\r\n\r\n"
			c.Limits = wide
			c.Scripts = []Script{{Mode: "none", JSON: []string{"any", "doc"}}, {Mode: "none"}}
			run(d, c)
			return
		}
		if st.Area == "tight" {
			c.Limits = modelLimits["tight"]
		} else {
			c.Limits = modelLimits[""]
		}
		for _, k := range st.Kinds {
			c.Scripts = append(c.Scripts, g.kind(k.Rd, k.Rs))
		}
		if len(st.Kinds) == 0 {
			c.Scripts = []Script{g.script()}
		}
		for n := 0; n < 1+g.k.Segs/2; n++ {
			c.Segs = g.segs()
			run(d, c)
			c.ReadBuf = []int{1, 4, 4096}[g.Intn(3)]
		}
	})
	if d.Prop == "C41" {
		g.tunes(d)
		return
	}
	g.huge(d)
	g.long(d)
	for i := 0; i < d.N; i++ {
		var c Case
		g.around(&c)
		g.stream(&c)
		for n := 0; n < g.k.Reqs; n++ {
			c.Scripts = append(c.Scripts, g.script())
		}
		for n := 0; n < g.k.Segs; n++ {
			c.Segs = g.segs()
			run(d, c)
			c.ReadBuf = []int{1, 2, 7, 64, 4096}[g.Intn(5)]
		}
	}
}
