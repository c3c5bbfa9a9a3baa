From 0809422954a38bc65159af187c261f41ef6732ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:14 +0000
Subject: [PATCH 01/54] fix: refuse percent-escapes which aren't two
 hexadecimal digits

---
 internal/hexconv/hexconv.go   | 9 +++++++--
 internal/uridecode/decoder.go | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/hexconv/hexconv.go b/internal/hexconv/hexconv.go
index da01c66..77a1043 100644
--- a/internal/hexconv/hexconv.go
+++ b/internal/hexconv/hexconv.go
@@ -25,8 +25,13 @@ var decodeTable = [256]byte{
 	'F': 0xF,
 }
 
-// Parse returns char value + 1 IF char is a valid hex, 0 otherwise.
-// So in order to treat the returned value correctly, check whether it's 0
+// Parse returns the value of the hexadecimal digit. The result is meaningful only if the
+// char is a valid hex, see IsHex
 func Parse(char byte) byte {
 	return decodeTable[char]
 }
+
+// IsHex tells whether the char is a hexadecimal digit
+func IsHex(char byte) bool {
+	return char == '0' || decodeTable[char] != 0
+}
diff --git a/internal/uridecode/decoder.go b/internal/uridecode/decoder.go
index afd1b4f..2dc0864 100644
--- a/internal/uridecode/decoder.go
+++ b/internal/uridecode/decoder.go
@@ -10,7 +10,7 @@ import (
 // true form
 func Decode(src, buff []byte) ([]byte, error) {
 	for i := bytes.IndexByte(src, '%'); i != -1; i = bytes.IndexByte(src, '%') {
-		if i >= len(src)-2 {
+		if i >= len(src)-2 || !hexconv.IsHex(src[i+1]) || !hexconv.IsHex(src[i+2]) {
 			return nil, status.ErrURIDecoding
 		}
 
-- 
2.43.0


From 17face6517a16221bd18485d82b4679470418f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:14 +0000
Subject: [PATCH 02/54] fix: strip trailing slashes of the paths consisting of
 slashes or a single character

---
 router/inbuilt/uri/normalize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/uri/normalize.go b/router/inbuilt/uri/normalize.go
index 5f634fb..86d8a5d 100644
--- a/router/inbuilt/uri/normalize.go
+++ b/router/inbuilt/uri/normalize.go
@@ -1,11 +1,16 @@
 package uri
 
 func Normalize(path string) string {
-	for i := len(path) - 1; i > 1; i-- {
+	for i := len(path) - 1; i > 0; i-- {
 		if path[i] != '/' {
 			return path[:i+1]
 		}
 	}
 
+	if len(path) > 1 {
+		// everything but the very first character is a slash
+		return path[:1]
+	}
+
 	return path
 }
-- 
2.43.0


From 8ef31c822d10e8b2b1776da72cb087b2c20e1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:14 +0000
Subject: [PATCH 03/54] fix: treat the www. prefix of a domain
 case-insensitively

---
 router/virtual/internal/domain/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/virtual/internal/domain/normalize.go b/router/virtual/internal/domain/normalize.go
index 98c04f9..1b08024 100644
--- a/router/virtual/internal/domain/normalize.go
+++ b/router/virtual/internal/domain/normalize.go
@@ -3,7 +3,7 @@ package domain
 import "strings"
 
 func Normalize(domain string) string {
-	if strings.HasPrefix(domain, "www.") {
+	if len(domain) >= len("www.") && strings.EqualFold(domain[:len("www.")], "www.") {
 		domain = domain[len("www."):]
 	}
 
-- 
2.43.0


From 804fe5bc2b67ddc2290d994941909cff92fbabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:14 +0000
Subject: [PATCH 04/54] fix: ignore www. and default ports of the requested
 host in virtual routing

---
 router/virtual/virtual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/virtual/virtual.go b/router/virtual/virtual.go
index 6d16820..d4ce732 100644
--- a/router/virtual/virtual.go
+++ b/router/virtual/virtual.go
@@ -114,7 +114,7 @@ func (r *runtimeRouter) getRouter(request *http.Request) (router.Router, *http.R
 		return nil, http.Code(request, status.BadRequest)
 	}
 
-	host := hosts[0]
+	host := domain.Normalize(hosts[0])
 
 	for _, virtRouter := range r.routers {
 		if strcomp.EqualFold(virtRouter.Domain, host) {
-- 
2.43.0


From a2a11fb912d6d94446fdb1e0773dcecd805c3b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:14 +0000
Subject: [PATCH 05/54] fix: make the status line of 101 match its status text

---
 http/status/codes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/status/codes.go b/http/status/codes.go
index 6df0c79..774784b 100644
--- a/http/status/codes.go
+++ b/http/status/codes.go
@@ -224,7 +224,7 @@ func Line(code Code) string {
 	case Continue:
 		return "100 Continue\r\n"
 	case SwitchingProtocols:
-		return "101 Switching Protocol\r\n"
+		return "101 Switching Protocols\r\n"
 	case Processing:
 		return "102 Processing\r\n"
 	case EarlyHints:
-- 
2.43.0


From 5c0e5ba5e507bdc18401528c20d2a3d340c6f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:14 +0000
Subject: [PATCH 06/54] fix: don't lose the data received together with an
 error

---
 internal/tcp/client.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/tcp/client.go b/internal/tcp/client.go
index 6621024..2728543 100644
--- a/internal/tcp/client.go
+++ b/internal/tcp/client.go
@@ -19,6 +19,8 @@ type client struct {
 	buff    []byte
 	pending []byte
 	timeout time.Duration
+	// err is an error, which came together with the data, so is reported by the next Read
+	err error
 }
 
 func NewClient(conn net.Conn, timeout time.Duration, buff []byte) Client {
@@ -40,11 +42,22 @@ func (c *client) Read() ([]byte, error) {
 		return pending, nil
 	}
 
+	if c.err != nil {
+		err := c.err
+		c.err = nil
+
+		return nil, err
+	}
+
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		return nil, err
 	}
 
 	n, err := c.conn.Read(c.buff)
+	if n > 0 && err != nil {
+		// deliver the data first
+		c.err, err = err, nil
+	}
 
 	return c.buff[:n], err
 }
-- 
2.43.0


From 236c0cb05206ae8933d33796a91093d3d259c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:14 +0000
Subject: [PATCH 07/54] fix: don't serve connections accepted after the server
 was paused or stopped

---
 internal/tcp/server.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/internal/tcp/server.go b/internal/tcp/server.go
index dd0d275..e12e13a 100644
--- a/internal/tcp/server.go
+++ b/internal/tcp/server.go
@@ -14,7 +14,10 @@ type Deadliner interface {
 }
 
 type Server struct {
-	wg       *sync.WaitGroup
+	wg *sync.WaitGroup
+	// mu guards accounting connections against concurrent shutdown, so no connection is
+	// started serving after it
+	mu       sync.Mutex
 	sock     net.Listener
 	onConn   OnConn
 	shutdown atomic.Bool
@@ -41,7 +44,12 @@ func (s *Server) Start() error {
 			return err
 		}
 
-		s.wg.Add(1)
+		if !s.track() {
+			// the connection was accepted too late
+			_ = conn.Close()
+			return nil
+		}
+
 		go s.connHandler(conn)
 	}
 
@@ -51,12 +59,14 @@ func (s *Server) Start() error {
 // Stop closes the server socket, however all the clients won't be notified explicitly
 // until they try to send us anything
 func (s *Server) Stop() error {
+	s.markShutdown()
+
 	return s.sock.Close()
 }
 
 // Pause stops listening to new connections, however doesn't close the socket.
 func (s *Server) Pause() {
-	s.shutdown.Store(true)
+	s.markShutdown()
 
 	if listener, ok := s.sock.(Deadliner); ok {
 		// interrupt the listener RIGHT NOW
@@ -69,6 +79,26 @@ func (s *Server) Wait() {
 	s.wg.Wait()
 }
 
+// track accounts a new connection, unless the server is already being shut down
+func (s *Server) track() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.shutdown.Load() {
+		return false
+	}
+
+	s.wg.Add(1)
+
+	return true
+}
+
+func (s *Server) markShutdown() {
+	s.mu.Lock()
+	s.shutdown.Store(true)
+	s.mu.Unlock()
+}
+
 func (s *Server) connHandler(conn net.Conn) {
 	s.onConn(conn)
 	_ = conn.Close()
-- 
2.43.0


From fbb029b07744ccb8eec61f4e897b7a36b762342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:08 +0000
Subject: [PATCH 08/54] fix: require a dot between major and minor versions of
 the protocol

---
 http/proto/proto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/proto/proto.go b/http/proto/proto.go
index 690d997..57c8b62 100644
--- a/http/proto/proto.go
+++ b/http/proto/proto.go
@@ -36,7 +36,8 @@ var majorMinorVersionLUT = [10][10]Proto{
 }
 
 func FromBytes(raw []byte) Proto {
-	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme {
+	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme ||
+		raw[majorVersionOffset+1] != '.' {
 		return Unknown
 	}
 
-- 
2.43.0


From 19901c44d196df1b54270eea5e967ba64beefe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:08 +0000
Subject: [PATCH 09/54] fix: decode query parameters after splitting, keep the
 raw query and the error

---
 http/query/internal/parser.go | 83 ++++++++++++++++-------------------
 http/query/query.go           | 17 ++++---
 2 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/http/query/internal/parser.go b/http/query/internal/parser.go
index 6182084..a2dd69e 100644
--- a/http/query/internal/parser.go
+++ b/http/query/internal/parser.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"bytes"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/uridecode"
@@ -10,62 +11,56 @@ import (
 // replace empty value (or so-called parameter without value) with the following string
 const defaultEmptyValueContent = "1"
 
+// Parse splits the data into pairs, each of them is decoded individually after that. The data
+// itself stays untouched, however may be referenced by the params
 func Parse(data []byte, params *keyvalue.Storage) (err error) {
-	if len(data) == 0 {
-		return nil
-	}
-
-	data, err = uridecode.Decode(data, data[:0])
-	if err != nil {
-		return err
-	}
+	for len(data) > 0 {
+		var segment []byte
+		segment, data = cut(data, '&')
 
-	var key string
+		eq := bytes.IndexByte(segment, '=')
+		if eq == 0 {
+			return status.ErrBadQuery
+		}
 
-parseKey:
-	if len(data) == 0 {
-		return nil
-	}
+		key, value := segment, defaultEmptyValueContent
+		if eq != -1 {
+			key = segment[:eq]
 
-	for i := range data {
-		switch data[i] {
-		case '=':
-			key = uf.B2S(data[:i])
-			if len(key) == 0 {
-				return status.ErrBadQuery
+			// ignore the fact that the value may be empty. In case there's no equal sign, we
+			// definitely know it's a flag and is supposed to be like that. However, if there's
+			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
+			if value, err = decode(segment[eq+1:]); err != nil {
+				return err
 			}
+		}
 
-			data = data[i+1:]
-			goto parseValue
-		case '&':
-			params.Add(uf.B2S(data[:i]), defaultEmptyValueContent)
-			data = data[i+1:]
-			goto parseKey
-		case '+':
-			data[i] = ' '
+		decodedKey, err := decode(key)
+		if err != nil {
+			return err
 		}
-	}
 
-	params.Add(uf.B2S(data), defaultEmptyValueContent)
+		params.Add(decodedKey, value)
+	}
 
 	return nil
+}
 
-parseValue:
-	for i := range data {
-		switch data[i] {
-		case '&':
-			// ignore the fact that the value may be empty. In case there's no equal sign, we
-			// definitely know it's a flag and is supposed to be like that. However, if there's
-			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
-			params.Add(key, uf.B2S(data[:i]))
-			data = data[i+1:]
-			goto parseKey
-		case '+':
-			data[i] = ' '
-		}
+func decode(raw []byte) (string, error) {
+	if bytes.IndexByte(raw, '+') == -1 && bytes.IndexByte(raw, '%') == -1 {
+		return uf.B2S(raw), nil
 	}
 
-	params.Add(key, uf.B2S(data))
+	decoded := bytes.ReplaceAll(raw, []byte{'+'}, []byte{' '})
+	decoded, err := uridecode.Decode(decoded, decoded[:0])
 
-	return nil
+	return uf.B2S(decoded), err
+}
+
+func cut(data []byte, sep byte) (prefix, postfix []byte) {
+	if i := bytes.IndexByte(data, sep); i != -1 {
+		return data[:i], data[i+1:]
+	}
+
+	return data, nil
 }
diff --git a/http/query/query.go b/http/query/query.go
index 0b9ab15..2de16da 100644
--- a/http/query/query.go
+++ b/http/query/query.go
@@ -16,6 +16,7 @@ type Query struct {
 	parsed bool
 	params Params
 	raw    []byte
+	err    error
 }
 
 func New(underlying *keyvalue.Storage) *Query {
@@ -32,6 +33,7 @@ func (q *Query) Set(raw []byte) {
 
 	if q.parsed {
 		q.parsed = false
+		q.err = nil
 		q.params.Clear()
 	}
 }
@@ -56,7 +58,11 @@ func (q *Query) Get(key string) (value string, err error) {
 
 // Unwrap returns all query parameters. If error occurred, nil parameters will be returned
 func (q *Query) Unwrap() (Params, error) {
-	return q.params, q.parse()
+	if err := q.parse(); err != nil {
+		return nil, err
+	}
+
+	return q.params, nil
 }
 
 // Raw just returns a raw value of query as it is
@@ -65,11 +71,10 @@ func (q *Query) Raw() []byte {
 }
 
 func (q *Query) parse() error {
-	if q.parsed {
-		return nil
+	if !q.parsed {
+		q.parsed = true
+		q.err = internal.Parse(q.raw, q.params)
 	}
 
-	q.parsed = true
-
-	return internal.Parse(q.raw, q.params)
+	return q.err
 }
-- 
2.43.0


From 5de69a995199bb20b681df76b7ad3c7a7f3fb8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:08 +0000
Subject: [PATCH 10/54] fix: don't let a cookie pair without a value swallow
 the next one

---
 http/cookie/jar.go | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/http/cookie/jar.go b/http/cookie/jar.go
index eadfe2f..e90555c 100644
--- a/http/cookie/jar.go
+++ b/http/cookie/jar.go
@@ -25,32 +25,20 @@ var ErrBadCookie = errors.New("cookie has a malformed syntax")
 // so the function isn't applicable for Set-Cookie values
 func Parse(jar Jar, data string) (err error) {
 	for len(data) > 0 {
-		eq := strings.IndexByte(data, '=')
-		if eq == -1 {
-			break
+		var pair string
+		if cs := strings.IndexByte(data, ';'); cs != -1 {
+			pair, data = data[:cs], stripSpace(data[cs+1:])
+		} else {
+			pair, data = data, ""
 		}
 
-		key := data[:eq]
-		data = data[eq+1:]
-
-		if len(key) == 0 {
+		eq := strings.IndexByte(pair, '=')
+		if eq <= 0 {
 			return ErrBadCookie
 		}
 
-		var value string
-
-		if cs := strings.IndexByte(data, ';'); cs != -1 {
-			value, data = data[:cs], stripSpace(data[cs+1:])
-		} else {
-			value, data = data, ""
-		}
-
 		// empty value is fine (probably, I have no idea if it's so)
-		jar.Add(key, value)
-	}
-
-	if len(data) != 0 {
-		return ErrBadCookie
+		jar.Add(pair[:eq], pair[eq+1:])
 	}
 
 	return nil
-- 
2.43.0


From b718e5973de6b5e957a0a3c3b033cf3457258832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:08 +0000
Subject: [PATCH 11/54] fix: escape every byte of multibyte characters in a
 path

---
 http/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/path.go b/http/path.go
index a57c967..f767b64 100644
--- a/http/path.go
+++ b/http/path.go
@@ -10,7 +10,7 @@ func Escape(p Path) string {
 		offset int
 	)
 
-	for i := range p {
+	for i := 0; i < len(p); i++ {
 		if !isASCIIPrintable(p[i]) {
 			if buff == nil {
 				buff = allocBuff(len(p))
-- 
2.43.0


From 063b83844367e420823384dcd61b04aba98abcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:08 +0000
Subject: [PATCH 12/54] fix: fill the CookiesPreAllocate setting

---
 config/config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index d2c8e39..44f7a91 100644
--- a/config/config.go
+++ b/config/config.go
@@ -194,8 +194,9 @@ func Fill(src Config) (new Config) {
 				Default: numOr(src.Headers.ValueSpace.Default, defaults.Headers.ValueSpace.Default),
 				Maximal: numOr(src.Headers.ValueSpace.Maximal, defaults.Headers.ValueSpace.Maximal),
 			},
-			MaxEncodingTokens: numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
-			Default:           mapOr(src.Headers.Default, defaults.Headers.Default),
+			MaxEncodingTokens:  numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
+			Default:            mapOr(src.Headers.Default, defaults.Headers.Default),
+			CookiesPreAllocate: numOr(src.Headers.CookiesPreAllocate, defaults.Headers.CookiesPreAllocate),
 		},
 		Body: Body{
 			MaxSize:            numOr(src.Body.MaxSize, defaults.Body.MaxSize),
-- 
2.43.0


From ae7ff657af36be7d830b0a6d9562c7b90cec5a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:14 +0000
Subject: [PATCH 13/54] fix: make the clone of a storage independent of the
 memory of the original

---
 internal/keyvalue/storage.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/keyvalue/storage.go b/internal/keyvalue/storage.go
index 0cff996..4d5531a 100644
--- a/internal/keyvalue/storage.go
+++ b/internal/keyvalue/storage.go
@@ -3,6 +3,7 @@ package keyvalue
 import (
 	"github.com/indigo-web/iter"
 	"github.com/indigo-web/utils/strcomp"
+	"strings"
 )
 
 type Pair struct {
@@ -148,9 +149,7 @@ func (s *Storage) Len() int {
 // it comes at cost of multiple allocations
 func (s *Storage) Clone() *Storage {
 	return &Storage{
-		pairs:      clone(s.pairs),
-		uniqueBuff: clone(s.uniqueBuff),
-		valuesBuff: clone(s.valuesBuff),
+		pairs: clonePairs(s.pairs),
 	}
 }
 
@@ -184,13 +183,19 @@ func contains(collection []string, key string) bool {
 	return false
 }
 
-func clone[T any](source []T) []T {
+// clonePairs copies the strings, too, as they may refer to a memory, which is going to be reused
+func clonePairs(source []Pair) []Pair {
 	if len(source) == 0 {
 		return nil
 	}
 
-	newSlice := make([]T, len(source))
-	copy(newSlice, source)
+	newSlice := make([]Pair, len(source))
+	for i, pair := range source {
+		newSlice[i] = Pair{
+			Key:   strings.Clone(pair.Key),
+			Value: strings.Clone(pair.Value),
+		}
+	}
 
 	return newSlice
 }
-- 
2.43.0


From 209e769a7c5fab0367dec3d4b8b9d4531185f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:11 +0000
Subject: [PATCH 14/54] fix: serve every listener with its own handler

---
 indi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indi.go b/indi.go
index 67219c4..eee1bed 100644
--- a/indi.go
+++ b/indi.go
@@ -127,6 +127,7 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 	servers := make([]*tcp.Server, 0, len(a.sources))
 
 	for _, src := range a.sources {
+		src := src
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 217a1df80e5bc6db4dca882462254d2ce31ef04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:11 +0000
Subject: [PATCH 15/54] fix: close already bound sockets if some address can't
 be bound

---
 indi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indi.go b/indi.go
index eee1bed..4a6c410 100644
--- a/indi.go
+++ b/indi.go
@@ -130,6 +130,9 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 		src := src
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
+			// don't leave the sockets, which are already bound, behind
+			tcp.StopAll(servers)
+
 			return nil, err
 		}
 
-- 
2.43.0


From 1ad123192d90527dc0d6cd694ec1739057eec6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:16 +0000
Subject: [PATCH 16/54] fix: never block on stop requests and on errors of
 stopped listeners

---
 indi.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/indi.go b/indi.go
index 4a6c410..655c31d 100644
--- a/indi.go
+++ b/indi.go
@@ -9,7 +9,6 @@ import (
 	"github.com/indigo-web/indigo/router/inbuilt"
 	"log"
 	"net"
-	"sync/atomic"
 
 	"github.com/indigo-web/indigo/config"
 	"github.com/indigo-web/indigo/router"
@@ -27,8 +26,9 @@ type App struct {
 // New returns a new App instance.
 func New(addr string) *App {
 	app := &App{
-		cfg:   config.Default(),
-		errCh: make(chan error),
+		cfg: config.Default(),
+		// the only stop request is sufficient, so the rest can be safely dropped
+		errCh: make(chan error, 1),
 	}
 
 	return app.Listen(addr)
@@ -153,28 +153,36 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 }
 
 func (a *App) run(servers []*tcp.Server) error {
-	var failSilently atomic.Bool
+	// none of the servers must ever be blocked by reporting an error nobody's waiting for
+	failures := make(chan error, len(servers))
 
 	for _, server := range servers {
 		go func(server *tcp.Server) {
-			err := server.Start()
-
-			if failSilently.Swap(true) {
-				return
-			}
-
-			a.errCh <- err
+			failures <- server.Start()
 		}(server)
 	}
 
 	callIfNotNil(a.hooks.OnStart)
-	err := <-a.errCh
+
+	var err error
+	select {
+	case err = <-a.errCh:
+	case err = <-failures:
+	}
+
 	if err == status.ErrGracefulShutdown {
 		// stop listening to new clients and process till the end all the old ones
 		tcp.PauseAll(servers)
 	}
 
 	tcp.StopAll(servers)
+
+	// stop requests made in the meantime have nothing to stop anymore
+	select {
+	case <-a.errCh:
+	default:
+	}
+
 	callIfNotNil(a.hooks.OnStop)
 
 	return err
@@ -185,7 +193,7 @@ func (a *App) run(servers []*tcp.Server) error {
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will be still working
 func (a *App) GracefulStop() {
-	a.errCh <- status.ErrGracefulShutdown
+	a.requestStop(status.ErrGracefulShutdown)
 }
 
 // Stop stops the whole application immediately.
@@ -193,7 +201,15 @@ func (a *App) GracefulStop() {
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will still be working
 func (a *App) Stop() {
-	a.errCh <- status.ErrShutdown
+	a.requestStop(status.ErrShutdown)
+}
+
+func (a *App) requestStop(cause error) {
+	select {
+	case a.errCh <- cause:
+	default:
+		// there already is a pending request
+	}
 }
 
 func (a *App) newHTTPHandler(enc encryption.Token) listenerHandler {
-- 
2.43.0


From 07a592fd69a2e16e6d1aa40b7c1514130288492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:02 +0000
Subject: [PATCH 17/54] fix: don't panic on an empty protocol or header value

---
 internal/protocol/http1/parser.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 2845f54..08e7c57 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -154,9 +154,7 @@ path:
 		}
 
 		reqPath, reqProto := pathAndProto[:sp], pathAndProto[sp+1:]
-		if reqProto[len(reqProto)-1] == '\r' {
-			reqProto = reqProto[:len(reqProto)-1]
-		}
+		reqProto = bytes.TrimSuffix(reqProto, []byte("\r"))
 
 		query := bytes.IndexByte(reqPath, '?')
 		if query != -1 {
@@ -308,9 +306,7 @@ headerValue:
 
 		data = data[lf+1:]
 		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))
-		if value[len(value)-1] == '\r' {
-			value = value[:len(value)-1]
-		}
+		value = strings.TrimSuffix(value, "\r")
 
 		key := p.headerKey
 		request.Headers.Add(key, value)
-- 
2.43.0


From 2da7436a3d70eccdd106e6560ff4f76cb954a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:07 +0000
Subject: [PATCH 18/54] fix: refuse unsupported protocol versions by a
 well-formed response

---
 internal/protocol/http1/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 08e7c57..16c8c60 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -172,11 +172,15 @@ path:
 		}
 
 		request.Path = uf.B2S(reqPath)
-		request.Proto = proto.FromBytes(reqProto)
-		if request.Proto == proto.Unknown {
+		// the only versions that can be spoken here. Don't touch the request's protocol until it's
+		// known to be supported, as the error response is going to be rendered using it
+		protocol := proto.FromBytes(reqProto)
+		if protocol&proto.HTTP1 == 0 {
 			return Error, nil, status.ErrUnsupportedProtocol
 		}
 
+		request.Proto = protocol
+
 		data = data[lf+1:]
 		goto headerKey
 	}
-- 
2.43.0


From 555e71b49cfdb4a4b7f7558f7f3d958fcfaf1dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:13 +0000
Subject: [PATCH 19/54] fix: make request line limits independent of how the
 data was split

---
 internal/protocol/http1/parser.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 16c8c60..20f5987 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -107,17 +107,11 @@ method:
 			return Pending, nil, nil
 		}
 
-		var methodValue []byte
-		if p.startLineBuff.SegmentLength() == 0 {
-			methodValue = data[:sp]
-		} else {
-			if !p.startLineBuff.Append(data[:sp]) {
-				return Error, nil, status.ErrTooLongRequestLine
-			}
-
-			methodValue = p.startLineBuff.Finish()
+		if !p.startLineBuff.Append(data[:sp]) {
+			return Error, nil, status.ErrTooLongRequestLine
 		}
 
+		methodValue := p.startLineBuff.Finish()
 		if len(methodValue) == 0 {
 			return Error, nil, status.ErrBadRequest
 		}
@@ -127,6 +121,9 @@ method:
 			return Error, nil, status.ErrMethodNotImplemented
 		}
 
+		// the method isn't referred anymore, so let the path use the whole space regardless of
+		// how the data was split
+		p.startLineBuff.Clear()
 		data = data[sp+1:]
 		goto path
 	}
-- 
2.43.0


From 5ce57caecfbdfb862c24c5e29d94d134618f81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:18 +0000
Subject: [PATCH 20/54] fix: refuse malformed header keys, enforce their
 maximal length

---
 internal/protocol/http1/parser.go | 56 ++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 20f5987..d4df0da 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -189,33 +189,45 @@ headerKey:
 			return Pending, nil, err
 		}
 
-		switch data[0] {
-		case '\n':
-			p.cleanup()
+		// it can be the end of headers only if there's no key received partially
+		if headerKeyBuff.SegmentLength() == 0 {
+			switch data[0] {
+			case '\n':
+				p.cleanup()
+
+				return HeadersCompleted, data[1:], nil
+			case '\r':
+				data = data[1:]
+				goto headerValueCRLFCR
+			}
+		}
 
-			return HeadersCompleted, data[1:], nil
-		case '\r':
-			data = data[1:]
-			goto headerValueCRLFCR
+		end := bytes.IndexAny(data, ":\n")
+		keyPart := data
+		if end != -1 {
+			keyPart = data[:end]
 		}
 
-		colon := bytes.IndexByte(data, ':')
-		if colon == -1 {
-			if !headerKeyBuff.Append(data) {
-				return Error, nil, status.ErrHeaderFieldsTooLarge
-			}
+		if !headerKeyBuff.Append(keyPart) {
+			return Error, nil, status.ErrHeaderFieldsTooLarge
+		}
+
+		if headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
+			return Error, nil, status.ErrHeaderFieldsTooLarge
+		}
 
+		if end == -1 {
 			p.state = eHeaderKey
 			return Pending, nil, nil
 		}
 
-		if !headerKeyBuff.Append(data[:colon]) {
-			return Error, nil, status.ErrHeaderFieldsTooLarge
+		key := uf.B2S(headerKeyBuff.Finish())
+		if data[end] == '\n' || !isValidHeaderKey(key) {
+			return Error, nil, status.ErrBadRequest
 		}
 
-		key := uf.B2S(headerKeyBuff.Finish())
 		p.headerKey = key
-		data = data[colon+1:]
+		data = data[end+1:]
 
 		if p.headersNumber++; p.headersNumber > p.headersCfg.Number.Maximal {
 			return Error, nil, status.ErrTooManyHeaders
@@ -416,6 +428,18 @@ func parseEncodingString(buff []string, value string, maxTokens int) (toks []str
 	return buff, chunked
 }
 
+// isValidHeaderKey reports whether the key isn't empty and doesn't contain any whitespaces or
+// control characters
+func isValidHeaderKey(key string) bool {
+	for i := 0; i < len(key); i++ {
+		if key[i] <= ' ' {
+			return false
+		}
+	}
+
+	return len(key) > 0
+}
+
 func trimPrefixSpaces(b []byte) []byte {
 	for i, char := range b {
 		if char != ' ' {
-- 
2.43.0


From d6b96ca5d3e88f69d097d9bd24d71e72a3d976a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:23 +0000
Subject: [PATCH 21/54] fix: don't count leading spaces and line break as a
 part of the header value

---
 internal/protocol/http1/parser.go | 32 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index d4df0da..fd24b8a 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -296,12 +296,23 @@ contentLengthCR:
 headerValue:
 	{
 		lf := bytes.IndexByte(data, '\n')
-		if lf == -1 {
-			if !headerValueBuff.Append(data) {
-				return Error, nil, status.ErrHeaderFieldsTooLarge
-			}
+		valuePart := data
+		if lf != -1 {
+			valuePart = data[:lf]
+		}
 
-			if headerValueBuff.SegmentLength() > p.headersCfg.MaxValueLength {
+		if headerValueBuff.SegmentLength() == 0 {
+			// leading spaces aren't a part of the value
+			valuePart = trimPrefixSpaces(valuePart)
+		}
+
+		if !headerValueBuff.Append(valuePart) {
+			return Error, nil, status.ErrHeaderFieldsTooLarge
+		}
+
+		if lf == -1 {
+			// the last byte may turn out to be CR, which isn't a part of the value, too
+			if headerValueBuff.SegmentLength() > p.headersCfg.MaxValueLength+1 {
 				return Error, nil, status.ErrHeaderFieldsTooLarge
 			}
 
@@ -309,17 +320,12 @@ headerValue:
 			return Pending, nil, nil
 		}
 
-		if !headerValueBuff.Append(data[:lf]) {
-			return Error, nil, status.ErrHeaderFieldsTooLarge
-		}
-
-		if headerValueBuff.SegmentLength() > p.headersCfg.MaxValueLength {
+		data = data[lf+1:]
+		value := strings.TrimSuffix(uf.B2S(headerValueBuff.Finish()), "\r")
+		if len(value) > p.headersCfg.MaxValueLength {
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
 
-		data = data[lf+1:]
-		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))
-		value = strings.TrimSuffix(value, "\r")
 
 		key := p.headerKey
 		request.Headers.Add(key, value)
-- 
2.43.0


From ea133e899978980c0e63beb677aa30d5a3145222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:29 +0000
Subject: [PATCH 22/54] fix: refuse malformed, conflicting and overflowing
 Content-Length

---
 internal/protocol/http1/parser.go | 116 +++++++++++++-----------------
 1 file changed, 50 insertions(+), 66 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index fd24b8a..c99cdde 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/buffer"
 	"github.com/indigo-web/utils/strcomp"
 	"github.com/indigo-web/utils/uf"
+	"math"
 	"strings"
 )
 
@@ -29,8 +30,6 @@ const (
 	eMethod parserState = iota + 1
 	ePath
 	eHeaderKey
-	eContentLength
-	eContentLengthCR
 	eHeaderValue
 	eHeaderValueCRLFCR
 )
@@ -51,9 +50,10 @@ type Parser struct {
 	headerKey       string
 	headersCfg      *config.Headers
 	headersNumber   int
-	contentLength   int
 	urlEncodedChar  uint8
 	state           parserState
+	// hasContentLength is set if the current request already has the Content-Length header
+	hasContentLength bool
 }
 
 func NewParser(
@@ -84,10 +84,6 @@ func (p *Parser) Parse(data []byte) (state requestState, extra []byte, err error
 		goto path
 	case eHeaderKey:
 		goto headerKey
-	case eContentLength:
-		goto contentLength
-	case eContentLengthCR:
-		goto contentLengthCR
 	case eHeaderValue:
 		goto headerValue
 	case eHeaderValueCRLFCR:
@@ -233,66 +229,9 @@ headerKey:
 			return Error, nil, status.ErrTooManyHeaders
 		}
 
-		if len(key) == len("content-length") &&
-			cContent == encodeU64(
-				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
-			) && cLength == encodeU64(
-			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
-		) {
-			goto contentLength
-		}
-
 		goto headerValue
 	}
 
-contentLength:
-	for i, char := range data {
-		if char == ' ' {
-			continue
-		}
-
-		if char < '0' || char > '9' {
-			data = data[i:]
-			goto contentLengthEnd
-		}
-
-		p.contentLength = p.contentLength*10 + int(char-'0')
-	}
-
-	p.state = eContentLength
-	return Pending, nil, nil
-
-contentLengthEnd:
-	// guaranteed, that data at this point contains AT LEAST 1 byte.
-	// The proof is, that this code is reachable ONLY if loop has reached a non-digit
-	// ascii symbol. In case loop has finished peacefully, as no more data left, but also no
-	// character found to satisfy the exit condition, this code will never be reached
-	request.ContentLength = p.contentLength
-
-	switch data[0] {
-	case '\r':
-		data = data[1:]
-		goto contentLengthCR
-	case '\n':
-		data = data[1:]
-		goto headerKey
-	default:
-		return Error, nil, status.ErrBadRequest
-	}
-
-contentLengthCR:
-	if len(data) == 0 {
-		p.state = eContentLengthCR
-		return Pending, nil, nil
-	}
-
-	if data[0] != '\n' {
-		return Error, nil, status.ErrBadRequest
-	}
-
-	data = data[1:]
-	goto headerKey
-
 headerValue:
 	{
 		lf := bytes.IndexByte(data, '\n')
@@ -326,8 +265,29 @@ headerValue:
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
 
-
 		key := p.headerKey
+
+		if len(key) == len("content-length") &&
+			cContent == encodeU64(
+				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
+			) && cLength == encodeU64(
+			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
+		) {
+			length, err := parseContentLength(value)
+			if err != nil {
+				return Error, nil, err
+			}
+
+			if p.hasContentLength && length != request.ContentLength {
+				// it's ambiguous, where does the request end
+				return Error, nil, status.ErrBadRequest
+			}
+
+			p.hasContentLength = true
+			request.ContentLength = length
+			goto headerKey
+		}
+
 		request.Headers.Add(key, value)
 
 		switch len(key) {
@@ -399,12 +359,36 @@ func (p *Parser) cleanup() {
 	p.startLineBuff.Clear()
 	p.headerKeyBuff.Clear()
 	p.headerValueBuff.Clear()
-	p.contentLength = 0
+	p.hasContentLength = false
 	p.encToksBuff = p.encToksBuff[:0]
 	p.contEncToksBuff = p.contEncToksBuff[:0]
 	p.state = eMethod
 }
 
+func parseContentLength(value string) (length int, err error) {
+	value = strings.TrimRight(value, " ")
+	if len(value) == 0 {
+		return 0, status.ErrBadRequest
+	}
+
+	for i := 0; i < len(value); i++ {
+		char := value[i]
+		if char < '0' || char > '9' {
+			return 0, status.ErrBadRequest
+		}
+
+		digit := int(char - '0')
+		if length > (math.MaxInt-digit)/10 {
+			err = status.ErrBodyTooLarge
+			continue
+		}
+
+		length = length*10 + digit
+	}
+
+	return length, err
+}
+
 func parseEncodingString(buff []string, value string, maxTokens int) (toks []string, chunked bool) {
 	for len(value) > 0 {
 		var token string
-- 
2.43.0


From 28431cbcb9153143114503005917469b53ea037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:36 +0000
Subject: [PATCH 23/54] fix: don't forget codings of repeated headers, refuse
 too many of them

---
 internal/protocol/http1/parser.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index c99cdde..8302044 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -322,7 +322,13 @@ headerValue:
 			) && cEncoding == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) {
-				request.Encoding.Content, _ = parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				toks, _ := parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrHeaderFieldsTooLarge
+				}
+
+				p.contEncToksBuff = toks
+				request.Encoding.Content = toks
 			}
 		case 17:
 			if cTransfer == encodeU64(
@@ -330,9 +336,15 @@ headerValue:
 			) && cEncodin == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) && key[16]|0x20 == 'g' {
-				request.Encoding.Transfer, request.Encoding.Chunked = parseEncodingString(
-					p.encToksBuff, value, cap(p.encToksBuff),
-				)
+				toks, chunked := parseEncodingString(p.encToksBuff, value, cap(p.encToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrHeaderFieldsTooLarge
+				}
+
+				// the header may be split into multiple ones
+				p.encToksBuff = toks
+				request.Encoding.Transfer = toks
+				request.Encoding.Chunked = request.Encoding.Chunked || chunked
 			}
 		}
 
-- 
2.43.0


From 830b9e3a56a8c0c0256a4f0039580bf425f7839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:06 +0000
Subject: [PATCH 24/54] fix: don't return a body of the previous request

---
 internal/protocol/http1/body.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 8854029..791258e 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -46,6 +46,8 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	// otherwise a body of some previous request may be returned
+	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
 
-- 
2.43.0


From 7edc5a5e6cf28cecd3ae790d76d97be339ed8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:12 +0000
Subject: [PATCH 25/54] fix: call the body callback only if there is any data

---
 internal/protocol/http1/body.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 791258e..77b8c3a 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -86,15 +86,19 @@ func (b *Body) Callback(cb http.OnBodyCallback) error {
 	for {
 		data, err := b.Retrieve()
 		switch err {
-		case nil:
-		case io.EOF:
-			return cb(data)
+		case nil, io.EOF:
 		default:
 			return err
 		}
 
-		if err = cb(data); err != nil {
-			return err
+		if len(data) > 0 {
+			if cbErr := cb(data); cbErr != nil {
+				return cbErr
+			}
+		}
+
+		if err == io.EOF {
+			return nil
 		}
 	}
 }
-- 
2.43.0


From f8fbb8aa3a67ec147af8a26b379baed197f29cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:17 +0000
Subject: [PATCH 26/54] fix: refuse too large bodies before allocating memory
 and forever

---
 internal/protocol/http1/body.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 77b8c3a..eaa0fb3 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -64,6 +64,11 @@ func (b *Body) Bytes() ([]byte, error) {
 
 	// FIXME: this barely works with applied transfer-encodings
 	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength {
+		if uint(b.contentLength) > b.plain.maxBodyLen {
+			// don't even try to allocate the memory
+			return nil, status.ErrBodyTooLarge
+		}
+
 		b.fullBodyBuff = make([]byte, 0, b.contentLength)
 	}
 
@@ -166,15 +171,15 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 		return nil, io.EOF
 	}
 
+	if p.bytesLeft > p.maxBodyLen {
+		return nil, status.ErrBodyTooLarge
+	}
+
 	data, err := p.client.Read()
 	if err != nil {
 		return nil, err
 	}
 
-	if p.bytesLeft > p.maxBodyLen {
-		return nil, status.ErrBodyTooLarge
-	}
-
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
 		body, data = data[:p.bytesLeft], data[p.bytesLeft:]
 		p.client.Unread(data)
@@ -223,11 +228,16 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	}
 
 	received, overflows := adduint(c.received, uint(len(chunk)))
+	if overflows {
+		received = math.MaxUint
+	}
+
+	// must be updated even if it's exceeded, so all the further reads will fail, too
+	c.received = received
 	if overflows || received > c.maxBodyLen {
 		return nil, status.ErrBodyTooLarge
 	}
 
-	c.received = received
 	client.Unread(extra)
 
 	return chunk, err
-- 
2.43.0


From f1e284e610f8587b235b3d163be288d16b4fb62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:22 +0000
Subject: [PATCH 27/54] fix: keep the encryption and forget the request line
 between requests

---
 http/request.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/http/request.go b/http/request.go
index 6a5286e..df04aac 100644
--- a/http/request.go
+++ b/http/request.go
@@ -171,6 +171,9 @@ func (r *Request) Clear() (err error) {
 		return err
 	}
 
+	r.Method = method.Unknown
+	r.Path = ""
+	r.Proto = proto.HTTP11
 	r.Query.Set(nil)
 	r.Params.Clear()
 	r.Headers.Clear()
@@ -180,7 +183,10 @@ func (r *Request) Clear() (err error) {
 	r.Connection = ""
 	r.Upgrade = proto.Unknown
 	r.Ctx = zeroContext
-	r.Env = Environment{}
+	// encryption is an attribute of the connection, but not of the request
+	r.Env = Environment{
+		Encryption: r.Env.Encryption,
+	}
 
 	return nil
 }
-- 
2.43.0


From c75b62db1e9723026a443bb41ea9f330c84ec012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:27 +0000
Subject: [PATCH 28/54] fix: name the chosen protocol in the upgrade response,
 and only once

---
 internal/protocol/http1/suit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 813717e..671a0cf 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -80,9 +80,10 @@ func (s *Suit) serve(once bool) (ok bool) {
 				s.PreWrite(
 					req.Proto,
 					s.upgradePreResp.
+						Clear().
 						Code(status.SwitchingProtocols).
 						Header("Connection", "upgrade").
-						Header("Upgrade", trimLast(req.Proto.String())),
+						Header("Upgrade", trimLast(req.Upgrade.String())),
 				)
 				version = req.Upgrade
 			}
-- 
2.43.0


From f96b455895d199c9efaa501156f5c987bd328a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:03 +0000
Subject: [PATCH 29/54] fix: don't wait for more data of a body, which is
 already too large

---
 internal/protocol/http1/body.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index eaa0fb3..be9f0ed 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -214,6 +214,10 @@ func (c *chunkedBodyReader) init(request *http.Request) {
 }
 
 func (c *chunkedBodyReader) read() (body []byte, err error) {
+	if c.received > c.maxBodyLen {
+		return nil, status.ErrBodyTooLarge
+	}
+
 	client := c.client
 	data, err := client.Read()
 	if err != nil {
@@ -232,7 +236,7 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 		received = math.MaxUint
 	}
 
-	// must be updated even if it's exceeded, so all the further reads will fail, too
+	// must be updated even if the limit is exceeded, so all the further reads will fail, too
 	c.received = received
 	if overflows || received > c.maxBodyLen {
 		return nil, status.ErrBodyTooLarge
-- 
2.43.0


From b3ab7d54c442adde2a9452ecd31893f46867329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:08 +0000
Subject: [PATCH 30/54] fix: render default headers overridden by some previous
 response

---
 internal/protocol/http1/serializer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 83f86c4..44342aa 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -81,6 +81,7 @@ func (d *Serializer) PreWrite(protocol proto.Proto, response *http.Response) {
 	d.renderResponseLine(fields)
 	d.renderHeaders(fields)
 	d.crlf()
+	d.defaultHeaders.Reset()
 }
 
 // Write writes the response, keeping in mind difference between 1.0 and 1.1 HTTP versions
@@ -404,15 +405,13 @@ type defaultHeaders []defaultHeader
 func (d defaultHeaders) Exclude(key string) {
 	for i, header := range d {
 		if strcomp.EqualFold(header.Key, key) {
-			header.Excluded = true
-			d[i] = header
-			return
+			d[i].Excluded = true
 		}
 	}
 }
 
 func (d defaultHeaders) Reset() {
-	for _, header := range d {
-		header.Excluded = false
+	for i := range d {
+		d[i].Excluded = false
 	}
 }
-- 
2.43.0


From 652a53ecde0ae8476577c7c0189b9486f1b084f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:13 +0000
Subject: [PATCH 31/54] fix: render custom status texts

---
 internal/protocol/http1/serializer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 44342aa..5bf8f22 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -133,7 +133,12 @@ func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	// in case we have a custom response status text or unknown code, fallback to an old way
 	d.buff = strconv.AppendInt(d.buff, int64(fields.Code), 10)
 	d.sp()
-	d.buff = append(d.buff, status.Text(fields.Code)...)
+	if fields.Status != "" {
+		d.buff = append(d.buff, fields.Status...)
+	} else {
+		d.buff = append(d.buff, status.Text(fields.Code)...)
+	}
+
 	d.crlf()
 }
 
-- 
2.43.0


From bce8c3fafc7055e3d28c1a8b26feafdf9dbad586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:17 +0000
Subject: [PATCH 32/54] fix: apply keep-alive and cookies to responses with
 attachments, too

---
 internal/protocol/http1/serializer.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 5bf8f22..e738566 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -95,15 +95,12 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		return d.sendAttachment(d.request, response, d.writer)
-	}
-
-	d.renderHeaders(fields)
+		err = d.sendAttachment(d.request, response, d.writer)
 
-	for _, c := range fields.Cookies {
-		d.renderCookie(c)
+		return d.closeIfNeeded(protocol, err)
 	}
 
+	d.renderHeaders(fields)
 	d.renderContentLength(int64(len(fields.Body)))
 	d.crlf()
 
@@ -115,8 +112,14 @@ func (d *Serializer) Write(
 
 	err = d.writer.Write(d.buff)
 
+	return d.closeIfNeeded(protocol, err)
+}
+
+// closeIfNeeded returns status.ErrCloseConnection, if the connection must not persist after
+// the response
+func (d *Serializer) closeIfNeeded(protocol proto.Proto, err error) error {
 	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
-		err = status.ErrCloseConnection
+		return status.ErrCloseConnection
 	}
 
 	return err
@@ -163,6 +166,10 @@ func (d *Serializer) renderHeaders(fields *response.Fields) {
 	if len(fields.TransferEncoding) > 0 {
 		d.renderKnownHeader(transferEncoding, fields.TransferEncoding)
 	}
+
+	for _, c := range fields.Cookies {
+		d.renderCookie(c)
+	}
 }
 
 // sendAttachment simply encapsulates all the logic related to rendering arbitrary
-- 
2.43.0


From d68929b76811d1f8d41ef46f2f2ca5d06ad471aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:23 +0000
Subject: [PATCH 33/54] fix: send sized attachments exactly as announced,
 always close them

---
 internal/protocol/http1/serializer.go | 40 +++++++++++++++------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index e738566..55452b6 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -179,6 +179,7 @@ func (d *Serializer) sendAttachment(
 ) (err error) {
 	fields := response.Reveal()
 	size := fields.Attachment.Size()
+	defer fields.Attachment.Close()
 
 	if size > 0 {
 		d.renderHeaders(fields)
@@ -207,36 +208,41 @@ func (d *Serializer) sendAttachment(
 		d.fileBuff = make([]byte, d.fileBuffSize)
 	}
 
-	if fields.Attachment.Size() > 0 {
-		err = d.writePlainBody(fields.Attachment.Content(), writer)
-	} else {
-		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
+	if size > 0 {
+		return d.writePlainBody(fields.Attachment.Content(), size, writer)
 	}
 
-	fields.Attachment.Close()
-
-	return err
+	return d.writeChunkedBody(fields.Attachment.Content(), writer)
 }
 
-func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
+// writePlainBody writes exactly size bytes. If there are fewer of them, the client can't be told
+// about it anyhow else than by closing the connection
+func (d *Serializer) writePlainBody(r io.Reader, size int, writer Writer) error {
 	// TODO: implement checking whether r implements io.ReaderAt interface. In case it does
 	//       body may be transferred more efficiently. This requires implementing io.Writer
 	//       *http.ResponseWriter
 
-	for {
-		n, err := r.Read(d.fileBuff)
-		switch err {
-		case nil:
-		case io.EOF:
-			return nil
-		default:
-			return status.ErrCloseConnection
+	for size > 0 {
+		buff := d.fileBuff
+		if len(buff) > size {
+			buff = buff[:size]
+		}
+
+		n, err := r.Read(buff)
+		if n > 0 {
+			if writer.Write(buff[:n]) != nil {
+				return status.ErrCloseConnection
+			}
+
+			size -= n
 		}
 
-		if err = writer.Write(d.fileBuff[:n]); err != nil {
+		if err != nil && size > 0 {
 			return status.ErrCloseConnection
 		}
 	}
+
+	return nil
 }
 
 func (d *Serializer) writeChunkedBody(r io.Reader, writer Writer) error {
-- 
2.43.0


From ecbfb949c6c47d11875821d4675800243e51a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:09 +0000
Subject: [PATCH 34/54] fix: don't keep a connection because of an upgrade
 which didn't happen

---
 internal/protocol/http1/serializer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 55452b6..989b712 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -118,7 +118,9 @@ func (d *Serializer) Write(
 // closeIfNeeded returns status.ErrCloseConnection, if the connection must not persist after
 // the response
 func (d *Serializer) closeIfNeeded(protocol proto.Proto, err error) error {
-	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
+	upgraded := d.request.Upgrade&proto.HTTP1 != 0
+
+	if !isKeepAlive(protocol, d.request) && !upgraded {
 		return status.ErrCloseConnection
 	}
 
-- 
2.43.0


From 202c2102dae980b9a69a7e2d7d3a10a16db5e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:28 +0000
Subject: [PATCH 35/54] fix: don't send chunked bodies to HTTP/1.0 clients

---
 internal/protocol/http1/serializer.go | 32 +++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 989b712..32782e0 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -95,7 +95,7 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		err = d.sendAttachment(d.request, response, d.writer)
+		err = d.sendAttachment(protocol, d.request, response, d.writer)
 
 		return d.closeIfNeeded(protocol, err)
 	}
@@ -177,16 +177,21 @@ func (d *Serializer) renderHeaders(fields *response.Fields) {
 // sendAttachment simply encapsulates all the logic related to rendering arbitrary
 // io.Reader implementations
 func (d *Serializer) sendAttachment(
-	request *http.Request, response *http.Response, writer Writer,
+	protocol proto.Proto, request *http.Request, response *http.Response, writer Writer,
 ) (err error) {
 	fields := response.Reveal()
 	size := fields.Attachment.Size()
 	defer fields.Attachment.Close()
 
-	if size > 0 {
+	switch {
+	case size > 0:
 		d.renderHeaders(fields)
 		d.renderContentLength(int64(size))
-	} else {
+	case protocol == proto.HTTP10:
+		// HTTP/1.0 clients don't know chunked transfer encoding. The only way to delimit such
+		// a body is to close the connection after it
+		d.renderHeaders(fields)
+	default:
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
@@ -214,9 +219,28 @@ func (d *Serializer) sendAttachment(
 		return d.writePlainBody(fields.Attachment.Content(), size, writer)
 	}
 
+	if protocol == proto.HTTP10 {
+		return d.writeUntilClose(fields.Attachment.Content(), writer)
+	}
+
 	return d.writeChunkedBody(fields.Attachment.Content(), writer)
 }
 
+// writeUntilClose writes everything as is. As the body isn't delimited anyhow else, the connection
+// is always closed after
+func (d *Serializer) writeUntilClose(r io.Reader, writer Writer) error {
+	for {
+		n, err := r.Read(d.fileBuff)
+		if n > 0 && writer.Write(d.fileBuff[:n]) != nil {
+			return status.ErrCloseConnection
+		}
+
+		if err != nil {
+			return status.ErrCloseConnection
+		}
+	}
+}
+
 // writePlainBody writes exactly size bytes. If there are fewer of them, the client can't be told
 // about it anyhow else than by closing the connection
 func (d *Serializer) writePlainBody(r io.Reader, size int, writer Writer) error {
-- 
2.43.0


From ea6923845f5b0a81bf561b96128e1b59b5cd3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:28 +0000
Subject: [PATCH 36/54] fix: don't write JSON over the memory of the previously
 set body

---
 http/response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/response.go b/http/response.go
index ff98e56..1181669 100644
--- a/http/response.go
+++ b/http/response.go
@@ -174,7 +174,8 @@ func (r *Response) Cookie(cookies ...cookie.Cookie) *Response {
 // TryJSON receives a model (must be a pointer to the structure) and returns a new Response
 // object and an error
 func (r *Response) TryJSON(model any) (*Response, error) {
-	r.fields.Body = r.fields.Body[:0]
+	// the memory of the previous body belongs to whoever passed it, so must not be overridden
+	r.fields.Body = nil
 	stream := json.ConfigDefault.BorrowStream(r)
 	stream.WriteVal(model)
 	err := stream.Flush()
-- 
2.43.0


From bc4b43a21b20179460421bb4b1c112ff873d2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:28 +0000
Subject: [PATCH 37/54] fix: close the file which isn't going to be sent

---
 http/response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/response.go b/http/response.go
index 1181669..f9fdec1 100644
--- a/http/response.go
+++ b/http/response.go
@@ -133,9 +133,11 @@ func (r *Response) TryFile(path string) (*Response, error) {
 	stat, err := fd.Stat()
 	if err != nil {
 		// ...and if we can't get stats on it, it exists, however something in system went wrong
+		_ = fd.Close()
 		return r, status.ErrInternalServerError
 	}
 	if stat.IsDir() {
+		_ = fd.Close()
 		return r, status.ErrNotFound
 	}
 
-- 
2.43.0


From b39b63726793d3bb73ca2545c9039465a958a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:39 +0000
Subject: [PATCH 38/54] fix: don't take a connection closed in a middle of the
 body for the end of the body

---
 internal/protocol/http1/body.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index be9f0ed..6e4f9f9 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -177,7 +177,7 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 
 	data, err := p.client.Read()
 	if err != nil {
-		return nil, err
+		return nil, incomplete(err)
 	}
 
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
@@ -221,7 +221,7 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	client := c.client
 	data, err := client.Read()
 	if err != nil {
-		return nil, err
+		return nil, incomplete(err)
 	}
 
 	chunk, extra, err := c.parser.Parse(data, c.encoding.HasTrailer)
@@ -247,6 +247,16 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	return chunk, err
 }
 
+// incomplete distinguishes the connection being closed in a middle of the body from the end
+// of the body by itself
+func incomplete(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func adduint(x, y uint) (uint, bool) {
 	return x + y, math.MaxUint-x < y
 }
-- 
2.43.0


From 0c82b09f7382de34541c77186da7091d5219fcb4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 39/54] fix: path templates losing, misreading or refusing
 segments

One-character last segments were dropped, a wildcard as the first segment was
refused, empty segments got glued to the following one and unclosed wildcards
were silently ignored.
---
 router/inbuilt/internal/radix/template.go | 113 ++++++++--------------
 1 file changed, 43 insertions(+), 70 deletions(-)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 26b267b..2e3a064 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -3,19 +3,16 @@ package radix
 import (
 	"errors"
 	"fmt"
+	"strings"
 )
 
-type templateParserState uint8
+var (
+	ErrEmptyPath = errors.New("template cannot be empty")
 
-const (
-	eStatic templateParserState = iota + 1
-	eSlash
-	eDynamic
-	eFinishDynamic
+	errPartialDynamic = errors.New("dynamic part must be a whole path section, without prefixes and suffixes")
+	errBadDynamicName = errors.New("slashes or figure braces are not allowed inside of the template part name")
 )
 
-var ErrEmptyPath = errors.New("template cannot be empty")
-
 type Segment struct {
 	Payload    string
 	IsWildcard bool
@@ -28,11 +25,7 @@ type Template struct {
 }
 
 func Parse(tmpl string) (Template, error) {
-	var (
-		offset   = 1
-		template = Template{}
-		state    = eStatic
-	)
+	template := Template{}
 
 	if len(tmpl) == 0 {
 		return template, ErrEmptyPath
@@ -42,70 +35,50 @@ func Parse(tmpl string) (Template, error) {
 		return template, fmt.Errorf(`"%s": a leading slash is required`, tmpl)
 	}
 
-	for i := 1; i < len(tmpl); i++ {
-		switch state {
-		case eStatic:
-			switch tmpl[i] {
-			case '/':
-				template.segments = append(template.segments, Segment{
-					IsWildcard: false,
-					Payload:    tmpl[offset:i],
-				})
-				offset = i + 1
-				state = eSlash
-			case '{':
-				return template, fmt.Errorf(
-					`"%s": dynamic part must be a whole path section, without prefixes and suffixes`,
-					tmpl,
-				)
-			}
-		case eSlash:
-			switch tmpl[i] {
-			case '/':
-			case '{':
-				offset = i + 1
-				state = eDynamic
-			default:
-				state = eStatic
-			}
-		case eDynamic:
-			switch tmpl[i] {
-			case '}':
-				template.segments = append(template.segments, Segment{
-					IsWildcard: true,
-					Payload:    tmpl[offset:i],
-				})
-				state = eFinishDynamic
-			case '/', '{':
-				return template, fmt.Errorf(
-					`"%s": slashes or figure braces are not allowed inside of the template part name`,
-					tmpl,
-				)
-			}
-		case eFinishDynamic:
-			switch tmpl[i] {
-			case '/':
-				offset = i + 1
-				state = eSlash
-			default:
-				return template, fmt.Errorf(
-					`"%s": dynamic part must be a whole path section, without prefixes and suffixes`,
-					tmpl,
-				)
-			}
+	// a trailing slash isn't followed by any segment, therefore stop when nothing is left
+	for rest := tmpl[1:]; len(rest) > 0; {
+		raw := rest
+		if slash := strings.IndexByte(rest, '/'); slash != -1 {
+			raw, rest = rest[:slash], rest[slash+1:]
+		} else {
+			rest = ""
+		}
+
+		segment, err := parseSegment(raw)
+		if err != nil {
+			return template, fmt.Errorf(`"%s": %w`, tmpl, err)
 		}
-	}
 
-	if state == eStatic && offset < len(tmpl)-1 {
-		template.segments = append(template.segments, Segment{
-			IsWildcard: false,
-			Payload:    tmpl[offset:],
-		})
+		template.segments = append(template.segments, segment)
 	}
 
 	return template, nil
 }
 
+func parseSegment(raw string) (Segment, error) {
+	brace := strings.IndexByte(raw, '{')
+	switch {
+	case brace == -1:
+		return Segment{Payload: raw}, nil
+	case brace > 0:
+		return Segment{}, errPartialDynamic
+	}
+
+	name := raw[1:]
+	end := strings.IndexByte(name, '}')
+	if end == -1 || strings.IndexByte(name[:end], '{') != -1 {
+		return Segment{}, errBadDynamicName
+	}
+	if end != len(name)-1 {
+		return Segment{}, errPartialDynamic
+	}
+
+	return Segment{
+		Payload:    name[:end],
+		IsWildcard: true,
+	}, nil
+}
+
 func MustParse(tmpl string) Template {
 	template, err := Parse(tmpl)
 	if err != nil {
-- 
2.43.0


From e2f23dcc03a7aad65399fe41665a67318a970703 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 40/54] fix: dynamic routers matching an unregistered root

The root node was born with an empty payload, so a request to / was answered by
405 instead of 404. An empty path (as set by a mutator) crashed the matching.
---
 router/inbuilt/internal/radix/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/internal/radix/tree.go b/router/inbuilt/internal/radix/tree.go
index e881fd9..bc7a0a4 100644
--- a/router/inbuilt/internal/radix/tree.go
+++ b/router/inbuilt/internal/radix/tree.go
@@ -29,7 +29,7 @@ type Node struct {
 }
 
 func New() *Node {
-	return newNode(new(Payload), false, "")
+	return newNode(nil, false, "")
 }
 
 func newNode(payload *Payload, isDyn bool, dynName string) *Node {
@@ -85,7 +85,7 @@ func (n *Node) insertRecursively(segments []Segment, payload *Payload) error {
 }
 
 func (n *Node) Match(path string, params Params) *Payload {
-	if path[0] != '/' {
+	if len(path) == 0 || path[0] != '/' {
 		// all http request paths MUST have a leading slash
 		return nil
 	}
-- 
2.43.0


From 9e34dd253659f38fdc63e2767ed106e259f2ae99 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 41/54] fix: parameters of a route that did not match leaking
 into catchers and error handlers

---
 router/inbuilt/inbuilt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index ceb1696..358b19d 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -111,6 +111,9 @@ func (r *runtimeRouter) onRequest(request *http.Request) *http.Response {
 	} else {
 		endpoint := r.tree.Match(request.Path, request.Params)
 		if endpoint == nil {
+			// wildcards of a route which didn't match after all
+			request.Params.Clear()
+
 			return r.onError(request, status.ErrNotFound)
 		}
 
-- 
2.43.0


From b3d3ec655f7744b7c9944e27caec5c2f8993e6e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 42/54] fix: TRACE responses including all previous requests of
 other clients

The buffer was shared by all connections and never reset.
---
 router/inbuilt/inbuilt.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index 358b19d..8182dac 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -49,7 +49,6 @@ func New() *Router {
 type runtimeRouter struct {
 	mutators    []Mutator
 	catchers    []Catcher
-	traceBuff   []byte
 	tree        radix.Tree
 	routesMap   routesMap
 	errHandlers errorHandlers
@@ -138,9 +137,8 @@ func (r *runtimeRouter) OnError(request *http.Request, err error) *http.Response
 
 func (r *runtimeRouter) onError(request *http.Request, err error) *http.Response {
 	if request.Method == method.TRACE && err == status.ErrMethodNotAllowed {
-		r.traceBuff = renderHTTPRequest(request, r.traceBuff)
-
-		return traceResponse(request.Respond(), r.traceBuff)
+		// the router is shared among all the connections, so the buffer cannot be reused here
+		return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
 	}
 
 	if err == status.ErrNotFound {
-- 
2.43.0


From 65387bcb02f24354dfd9345b008e09a1d5402ce8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 43/54] fix: static files served by a wrong path

The path buffer was shared by all connections, prefixes of groups were not taken
into account, /staticfile was served as /static/ile, and a root containing double
dots could not be served at all.
---
 router/inbuilt/static.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 1ff7242..ebe5e8c 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -4,25 +4,43 @@ import (
 	"github.com/indigo-web/indigo/http"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/pathlib"
+	"path"
 	"strings"
 )
 
 // Static adds a catcher of prefix, that automatically returns files from defined root
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
-	pathReplacer := pathlib.NewPath(prefix, root)
+	if len(root) == 0 {
+		root = "."
+	}
+
+	// catchers are matched by a full path, including groups' prefixes
+	fullPrefix := path.Join("/", r.prefix, prefix)
 
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
-		pathReplacer.Set(request.Path)
-		path := pathReplacer.Relative()
-		if !isSafe(path) {
+		if !isUnder(request.Path, fullPrefix) || !isSafe(request.Path) {
 			return http.Error(request, status.ErrNotFound)
 		}
 
-		return request.Respond().File(path)
+		// the handler is shared among all the connections, but the replacer isn't safe for
+		// concurrent use
+		pathReplacer := pathlib.NewPath(fullPrefix, root)
+		pathReplacer.Set(request.Path)
+
+		return request.Respond().File(pathReplacer.Relative())
 	}, mwares...)
 }
 
+// isUnder tells whether the path lies strictly under the directory
+func isUnder(path, dir string) bool {
+	if dir == "/" {
+		return strings.HasPrefix(path, dir)
+	}
+
+	return len(path) > len(dir) && strings.HasPrefix(path, dir) && path[len(dir)] == '/'
+}
+
 // isSafe checks for path traversal (basically - double dots)
 func isSafe(path string) bool {
 	for len(path) > 0 {
-- 
2.43.0


From dc6f822819a1feaeaacffac1f17692c20da27964 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 44/54] fix: middlewares crashing on handlers returning no
 response

---
 router/inbuilt/middleware/logging.go      |  2 +-
 router/inbuilt/middleware/serverheader.go | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/logging.go b/router/inbuilt/middleware/logging.go
index d7fc2a9..581d5d3 100644
--- a/router/inbuilt/middleware/logging.go
+++ b/router/inbuilt/middleware/logging.go
@@ -17,7 +17,7 @@ func LogRequests(loggers ...Logger) inbuilt.Middleware {
 	}
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		response := next(request)
+		response := notNil(next(request), request)
 		if response.Reveal().Code == status.CloseConnection {
 			return response
 		}
diff --git a/router/inbuilt/middleware/serverheader.go b/router/inbuilt/middleware/serverheader.go
index 72898ff..88137f7 100644
--- a/router/inbuilt/middleware/serverheader.go
+++ b/router/inbuilt/middleware/serverheader.go
@@ -15,7 +15,16 @@ func ServerHeader(customHeaders ...string) inbuilt.Middleware {
 	}
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		return next(request).
+		return notNil(next(request), request).
 			Header("Server", value)
 	}
 }
+
+// notNil returns an empty response in case the handler returned none
+func notNil(response *http.Response, request *http.Request) *http.Response {
+	if response == nil {
+		return request.Respond()
+	}
+
+	return response
+}
-- 
2.43.0


From d4f2ad184ba05985db2456ff12230d69144e6cca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 45/54] fix: HTTPSOnly writing the decoded path into the
 Location header

The redirect led to another path, or even allowed to inject headers.
---
 router/inbuilt/middleware/httpsonly.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 727d97b..da6f01c 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -5,6 +5,7 @@ import (
 	"github.com/indigo-web/indigo/http/encryption"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/router/inbuilt"
+	"net/url"
 	"strings"
 )
 
@@ -39,15 +40,17 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 		}
 
 		host += ":" + params.Port
+		path := request.Path
 		if len(request.Env.AliasFrom) > 0 {
-			host += request.Env.AliasFrom
-		} else {
-			host += request.Path
+			path = request.Env.AliasFrom
 		}
 
+		// the path is already decoded, so may contain anything, including line breaks
+		location := url.URL{Path: path}
+
 		return request.Respond().
 			Code(status.MovedPermanently).
-			Header("Location", "https://"+host)
+			Header("Location", "https://"+host+location.EscapedPath())
 	}
 }
 
-- 
2.43.0


From 787a08871de911c3efb7292f17eb5ccb38baa30d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 46/54] fix: aliases and redirects depending on trailing
 slashes

---
 router/inbuilt/middleware/redirect.go | 5 ++++-
 router/inbuilt/mutator/alias.go       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/redirect.go b/router/inbuilt/middleware/redirect.go
index fd42890..c3522c7 100644
--- a/router/inbuilt/middleware/redirect.go
+++ b/router/inbuilt/middleware/redirect.go
@@ -4,11 +4,14 @@ import (
 	"github.com/indigo-web/indigo/http"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/router/inbuilt"
+	"github.com/indigo-web/indigo/router/inbuilt/uri"
 )
 
 func Redirect(from, to string) inbuilt.Middleware {
+	from = uri.Normalize(from)
+
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		if request.Path != from {
+		if uri.Normalize(request.Path) != from {
 			return next(request)
 		}
 
diff --git a/router/inbuilt/mutator/alias.go b/router/inbuilt/mutator/alias.go
index 79d1d8f..f386bcf 100644
--- a/router/inbuilt/mutator/alias.go
+++ b/router/inbuilt/mutator/alias.go
@@ -3,11 +3,14 @@ package mutator
 import (
 	"github.com/indigo-web/indigo/http"
 	"github.com/indigo-web/indigo/router/inbuilt/internal/types"
+	"github.com/indigo-web/indigo/router/inbuilt/uri"
 )
 
 func Alias(from, to string) types.Mutator {
+	normalized := uri.Normalize(from)
+
 	return func(request *http.Request) {
-		if request.Path == from {
+		if uri.Normalize(request.Path) == normalized {
 			request.Path = to
 			request.Env.AliasFrom = from
 		}
-- 
2.43.0


From b52be35b8f4aa8ab59a616500a05596bdee0b291 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 47/54] fix: routers initialized more than once

A router attached to several virtual hosts ran its middlewares once per host, and
panicked at start if it had groups.
---
 router/inbuilt/groups.go    | 18 ++++++++++++++++++
 router/inbuilt/inbuilt.go   |  2 ++
 router/inbuilt/registrar.go |  8 ++++++++
 router/inbuilt/types.go     |  9 +++++++++
 4 files changed, 37 insertions(+)

diff --git a/router/inbuilt/groups.go b/router/inbuilt/groups.go
index dbd68be..1fdb1d5 100644
--- a/router/inbuilt/groups.go
+++ b/router/inbuilt/groups.go
@@ -21,6 +21,24 @@ func (r *Router) Group(prefix string) *Router {
 	return subrouter
 }
 
+func (r *Router) clone(errHandlers errorHandlers) *Router {
+	children := make([]*Router, 0, len(r.children))
+	for _, child := range r.children {
+		children = append(children, child.clone(errHandlers))
+	}
+
+	return &Router{
+		isRoot:      r.isRoot,
+		prefix:      r.prefix,
+		mutators:    append([]Mutator(nil), r.mutators...),
+		catchers:    append([]Catcher(nil), r.catchers...),
+		middlewares: append([]Middleware(nil), r.middlewares...),
+		registrar:   r.registrar.clone(),
+		children:    children,
+		errHandlers: errHandlers,
+	}
+}
+
 func (r *Router) prepare() error {
 	for _, child := range r.children {
 		if err := child.prepare(); err != nil {
diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index 8182dac..682d31e 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -56,6 +56,8 @@ type runtimeRouter struct {
 }
 
 func (r *Router) Initialize() router.Router {
+	// the same router may be initialized many times, for example, if serves several virtual hosts
+	r = r.clone(r.errHandlers.clone())
 	r.applyErrorHandlersMiddlewares()
 
 	if err := r.prepare(); err != nil {
diff --git a/router/inbuilt/registrar.go b/router/inbuilt/registrar.go
index 7aafc8d..9ca9234 100644
--- a/router/inbuilt/registrar.go
+++ b/router/inbuilt/registrar.go
@@ -59,6 +59,14 @@ func (r *registrar) Merge(another *registrar) error {
 	return nil
 }
 
+func (r *registrar) clone() *registrar {
+	cloned := newRegistrar()
+	// merging into an empty registrar cannot fail
+	_ = cloned.Merge(r)
+
+	return cloned
+}
+
 func (r *registrar) Apply(f func(handler Handler) Handler) {
 	for _, v := range r.routes {
 		for key, handler := range v {
diff --git a/router/inbuilt/types.go b/router/inbuilt/types.go
index 70b2037..026a496 100644
--- a/router/inbuilt/types.go
+++ b/router/inbuilt/types.go
@@ -11,6 +11,15 @@ type Handler = types.Handler
 
 type errorHandlers map[status.Code]Handler
 
+func (e errorHandlers) clone() errorHandlers {
+	cloned := make(errorHandlers, len(e))
+	for code, handler := range e {
+		cloned[code] = handler
+	}
+
+	return cloned
+}
+
 type routesMapEntry struct {
 	methodsMap types.MethodsMap
 	allow      string
-- 
2.43.0


From 33c9855c14a33ef7020dc9c5a7a1b7c7f4e38b7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:37:58 +0000
Subject: [PATCH 48/54] fix: chained aliases losing the original path

---
 router/inbuilt/mutator/alias.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/mutator/alias.go b/router/inbuilt/mutator/alias.go
index f386bcf..cb25b5b 100644
--- a/router/inbuilt/mutator/alias.go
+++ b/router/inbuilt/mutator/alias.go
@@ -12,7 +12,11 @@ func Alias(from, to string) types.Mutator {
 	return func(request *http.Request) {
 		if uri.Normalize(request.Path) == normalized {
 			request.Path = to
-			request.Env.AliasFrom = from
+
+			if len(request.Env.AliasFrom) == 0 {
+				// aliases may be chained, but the original path is the very first one
+				request.Env.AliasFrom = from
+			}
 		}
 	}
 }
-- 
2.43.0


From d1cd198aff118892028861fdcc5c131d0022d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 49/54] fix: a header without values no longer panics

---
 http/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/response.go b/http/response.go
index f9fdec1..a03e06d 100644
--- a/http/response.go
+++ b/http/response.go
@@ -73,6 +73,10 @@ func (r *Response) TransferEncoding(value string) *Response {
 // Header sets header values to a key. In case it already exists the value will
 // be appended.
 func (r *Response) Header(key string, values ...string) *Response {
+	if len(values) == 0 {
+		return r
+	}
+
 	switch {
 	case strcomp.EqualFold(key, "content-type"):
 		return r.ContentType(values[0])
-- 
2.43.0


From b59a83abe797f2a1290b57e984643f1e25fd855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 50/54] fix: incomplete cached self-signed certificates are
 generated anew

---
 https.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/https.go b/https.go
index 6891b9e..88f3cb5 100644
--- a/https.go
+++ b/https.go
@@ -92,7 +92,8 @@ func generateSelfSignedCert() (cert, key string, err error) {
 		keyFilename  = filepath.Join(cache, "localhost.key")
 	)
 
-	if certExists(certFilename, keyFilename) {
+	// an interrupted generation may leave incomplete files behind, so their presence isn't enough
+	if _, err := tls.LoadX509KeyPair(certFilename, keyFilename); err == nil {
 		return certFilename, keyFilename, nil
 	}
 
@@ -160,13 +161,3 @@ func mkdirIfNotExists(dir string) error {
 
 	return os.MkdirAll(dir, 0700)
 }
-
-func certExists(cert, key string) bool {
-	return fileExists(cert) && fileExists(key)
-}
-
-func fileExists(filename string) bool {
-	stat, err := os.Stat(filename)
-
-	return err == nil && !stat.IsDir()
-}
-- 
2.43.0


From 2f344ecb5cd2b43158a55e661e84730658ac4f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 51/54] fix: JSON bodies are recognized despite parameters and
 case of the media type

---
 http/request.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/http/request.go b/http/request.go
index df04aac..896cedd 100644
--- a/http/request.go
+++ b/http/request.go
@@ -13,8 +13,10 @@ import (
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/tcp"
+	"github.com/indigo-web/utils/strcomp"
 	json "github.com/json-iterator/go"
 	"net"
+	"strings"
 )
 
 var zeroContext = context.Background()
@@ -95,11 +97,11 @@ func NewRequest(
 }
 
 // JSON takes a model and returns an error if occurred. Model must be a pointer to a structure.
-// If Content-Type header is given, but is not "application/json", then status.ErrUnsupportedMediaType
-// will be returned. If JSON is malformed, or it doesn't match the model, then custom jsoniter error
-// will be returned
+// If Content-Type header is given, but is not "application/json" (parameters and the case don't matter),
+// then status.ErrUnsupportedMediaType will be returned. If JSON is malformed, or it doesn't match the
+// model, then custom jsoniter error will be returned
 func (r *Request) JSON(model any) error {
-	if len(r.ContentType) > 0 && r.ContentType != mime.JSON {
+	if len(r.ContentType) > 0 && !isJSON(r.ContentType) {
 		return status.ErrUnsupportedMediaType
 	}
 
@@ -116,6 +118,12 @@ func (r *Request) JSON(model any) error {
 	return err
 }
 
+func isJSON(contentType string) bool {
+	mediaType := strings.TrimSpace(headers.ValueOf(contentType))
+
+	return strcomp.EqualFold(mediaType, mime.JSON)
+}
+
 // Cookies returns a cookie jar with parsed cookies key-value pairs, and an error
 // if the syntax is malformed. The returned jar should be re-used, as this method
 // doesn't cache the parsed result across calls and may be pretty expensive
-- 
2.43.0


From d4ebf487e1ae6f6ac5e29379a08c661c7b6a6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 52/54] fix: bytes following a JSON value are reported,
 top-level numbers aren't

---
 http/request.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/http/request.go b/http/request.go
index 896cedd..0a5292e 100644
--- a/http/request.go
+++ b/http/request.go
@@ -110,12 +110,7 @@ func (r *Request) JSON(model any) error {
 		return err
 	}
 
-	iterator := json.ConfigDefault.BorrowIterator(data)
-	iterator.ReadVal(model)
-	err = iterator.Error
-	json.ConfigDefault.ReturnIterator(iterator)
-
-	return err
+	return json.Unmarshal(data, model)
 }
 
 func isJSON(contentType string) bool {
-- 
2.43.0


From 9d5ae122b27fa1189a787f7e4d0c3e61a5cf3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:10 +0000
Subject: [PATCH 53/54] fix: use the configured size of the file buffer

---
 internal/protocol/http1/suit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 671a0cf..a7b47fa 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -46,7 +46,7 @@ func Initialize(cfg config.Config, r router.Router, client tcp.Client, req *http
 
 	return New(
 		cfg, r, req, client, keyBuff, valBuff, startLineBuff,
-		respBuff, cfg.HTTP.ResponseBuffSize, cfg.Headers.Default,
+		respBuff, cfg.HTTP.FileBuffSize, cfg.Headers.Default,
 	)
 }
 
-- 
2.43.0


From b5bc87a5f41598269f88e079e1d6c5d9b0c32279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:40 +0000
Subject: [PATCH 54/54] fix: don't write over the memory behind the passed body

---
 http/response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/response.go b/http/response.go
index a03e06d..09039e8 100644
--- a/http/response.go
+++ b/http/response.go
@@ -116,7 +116,8 @@ func (r *Response) String(body string) *Response {
 // Bytes sets the response's body to passed slice WITHOUT COPYING. Changing
 // the passed slice later will affect the response by itself
 func (r *Response) Bytes(body []byte) *Response {
-	r.fields.Body = body
+	// the memory behind the slice isn't ours, so Write must not append to it in place
+	r.fields.Body = body[:len(body):len(body)]
 	return r
 }
 
-- 
2.43.0

