// Driver of the virtual router's domain normalization.
package main

import (
	. "github.com/indigo-web/indigo/internal/zzverif/common"
	"github.com/indigo-web/indigo/router/virtual/internal/domain"
)

func main() {
	Main(drive)
}

func drive(d *Driver) {
	var steady Steady
	run := func(in string) {
		d.Emit(M{"in": S(in), "ev": steady.Run(in, func(in string) func() M {
			norm, trim := domain.Normalize(in), domain.TrimPort(in)
			return func() M { return M{"op": "domain", "norm": S(norm), "trim": S(trim)} }
		})})
	}
	d.Stimuli(func(raw []byte) {
		var s struct{ In Bytes }
		Parse(raw, &s)
		run(string(s.In))
	})
	for _, in := range d.Longs("www.", ":", ".", ":80", ":443", "80", "WWW.") {
		run(in)
		run(in + ":443")
		run("wWw." + in)
	}
	Around([]string{"", "www.", "www.a", "a.b", "a:80", "www.a.b:443", "a.b:8080", ":80", "[::1]:80", "a.:443"}, run)
	for i := 0; i < d.N; i++ {
		if i%8 == 0 {
			run(d.RandBytes(12))
			continue
		}
		run(d.Tokens(6, "www.", "WWW.", "wWw.", "www", "example", ".com", "a", ".", ":", ":80", ":443", ":8080", ":0", "80", "443", "1.1.1.1", "localhost", ":080", ":4430", "4", ":800", "[", "]", "::1", "*", " ", "\x00", "é", "www", "http://", "/", "8", "0", "www1.", "ww"))
	}
}
