From 83e6b193d6738d783d9826432bce5c54858432db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:03 +0000
Subject: [PATCH 01/62] fix: query is decoded before being split

Escaped '&', '=' and '+' in keys and values were treated as separators and
spaces, and parsing corrupted the raw query.
---
 http/query/internal/parser.go | 83 ++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/http/query/internal/parser.go b/http/query/internal/parser.go
index 6182084..be5f17d 100644
--- a/http/query/internal/parser.go
+++ b/http/query/internal/parser.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"bytes"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/uridecode"
@@ -11,61 +12,61 @@ import (
 const defaultEmptyValueContent = "1"
 
 func Parse(data []byte, params *keyvalue.Storage) (err error) {
-	if len(data) == 0 {
-		return nil
-	}
+	// the data is decoded in-place, however the raw query must stay untouched
+	data = append(make([]byte, 0, len(data)), data...)
 
-	data, err = uridecode.Decode(data, data[:0])
-	if err != nil {
-		return err
-	}
+	for len(data) > 0 {
+		var pair []byte
+		if amp := bytes.IndexByte(data, '&'); amp != -1 {
+			pair, data = data[:amp], data[amp+1:]
+		} else {
+			pair, data = data, nil
+		}
 
-	var key string
+		eq := bytes.IndexByte(pair, '=')
+		if eq == -1 {
+			key, err := decode(pair)
+			if err != nil {
+				return err
+			}
 
-parseKey:
-	if len(data) == 0 {
-		return nil
-	}
+			params.Add(key, defaultEmptyValueContent)
+			continue
+		}
 
-	for i := range data {
-		switch data[i] {
-		case '=':
-			key = uf.B2S(data[:i])
-			if len(key) == 0 {
-				return status.ErrBadQuery
-			}
+		if eq == 0 {
+			return status.ErrBadQuery
+		}
 
-			data = data[i+1:]
-			goto parseValue
-		case '&':
-			params.Add(uf.B2S(data[:i]), defaultEmptyValueContent)
-			data = data[i+1:]
-			goto parseKey
-		case '+':
-			data[i] = ' '
+		key, err := decode(pair[:eq])
+		if err != nil {
+			return err
+		}
+
+		// ignore the fact that the value may be empty. In case there's no equal sign, we
+		// definitely know it's a flag and is supposed to be like that. However, if there's
+		// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
+		value, err := decode(pair[eq+1:])
+		if err != nil {
+			return err
 		}
-	}
 
-	params.Add(uf.B2S(data), defaultEmptyValueContent)
+		params.Add(key, value)
+	}
 
 	return nil
+}
 
-parseValue:
+// decode decodes a key or a value. This must be done after the query is already split, as
+// otherwise escaped ampersands, equal signs and pluses are treated as the special ones
+func decode(data []byte) (string, error) {
 	for i := range data {
-		switch data[i] {
-		case '&':
-			// ignore the fact that the value may be empty. In case there's no equal sign, we
-			// definitely know it's a flag and is supposed to be like that. However, if there's
-			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
-			params.Add(key, uf.B2S(data[:i]))
-			data = data[i+1:]
-			goto parseKey
-		case '+':
+		if data[i] == '+' {
 			data[i] = ' '
 		}
 	}
 
-	params.Add(key, uf.B2S(data))
+	decoded, err := uridecode.Decode(data, data[:0])
 
-	return nil
+	return uf.B2S(decoded), err
 }
-- 
2.43.0


From 51a82e1a70c9a63f4369bd9f7e65a0dfbd0cf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:20 +0000
Subject: [PATCH 02/62] fix: error of a malformed query is reported only once

Later calls returned partially parsed parameters without an error.
---
 http/query/query.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/http/query/query.go b/http/query/query.go
index 0b9ab15..8d3893c 100644
--- a/http/query/query.go
+++ b/http/query/query.go
@@ -14,6 +14,7 @@ type Params = *keyvalue.Storage
 // by the fact that parameters won't be parsed until requested
 type Query struct {
 	parsed bool
+	err    error
 	params Params
 	raw    []byte
 }
@@ -56,7 +57,11 @@ func (q *Query) Get(key string) (value string, err error) {
 
 // Unwrap returns all query parameters. If error occurred, nil parameters will be returned
 func (q *Query) Unwrap() (Params, error) {
-	return q.params, q.parse()
+	if err := q.parse(); err != nil {
+		return nil, err
+	}
+
+	return q.params, nil
 }
 
 // Raw just returns a raw value of query as it is
@@ -65,11 +70,10 @@ func (q *Query) Raw() []byte {
 }
 
 func (q *Query) parse() error {
-	if q.parsed {
-		return nil
+	if !q.parsed {
+		q.parsed = true
+		q.err = internal.Parse(q.raw, q.params)
 	}
 
-	q.parsed = true
-
-	return internal.Parse(q.raw, q.params)
+	return q.err
 }
-- 
2.43.0


From 61c627c5a20f4dcfc79600e4facfc3ea4bb7e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:24 +0000
Subject: [PATCH 03/62] fix: invalid escape sequences are decoded as NUL bytes

---
 internal/hexconv/hexconv.go   | 9 +++++++--
 internal/uridecode/decoder.go | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/hexconv/hexconv.go b/internal/hexconv/hexconv.go
index da01c66..c950ce9 100644
--- a/internal/hexconv/hexconv.go
+++ b/internal/hexconv/hexconv.go
@@ -25,8 +25,13 @@ var decodeTable = [256]byte{
 	'F': 0xF,
 }
 
-// Parse returns char value + 1 IF char is a valid hex, 0 otherwise.
-// So in order to treat the returned value correctly, check whether it's 0
+// Parse returns char value IF char is a valid hex, 0 otherwise. In order to
+// distinguish invalid characters, use Is
 func Parse(char byte) byte {
 	return decodeTable[char]
 }
+
+// Is tells whether the char is a valid hex digit
+func Is(char byte) bool {
+	return decodeTable[char] != 0 || char == '0'
+}
diff --git a/internal/uridecode/decoder.go b/internal/uridecode/decoder.go
index afd1b4f..1848843 100644
--- a/internal/uridecode/decoder.go
+++ b/internal/uridecode/decoder.go
@@ -14,6 +14,10 @@ func Decode(src, buff []byte) ([]byte, error) {
 			return nil, status.ErrURIDecoding
 		}
 
+		if !hexconv.Is(src[i+1]) || !hexconv.Is(src[i+2]) {
+			return nil, status.ErrURIDecoding
+		}
+
 		buff = append(buff, src[:i]...)
 		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
 		src = src[i+3:]
-- 
2.43.0


From c2593d78be070575ace73f4b7d9b46600e4a25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:40 +0000
Subject: [PATCH 04/62] fix: data received together with an error is lost

---
 internal/tcp/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/tcp/client.go b/internal/tcp/client.go
index 6621024..d9e6469 100644
--- a/internal/tcp/client.go
+++ b/internal/tcp/client.go
@@ -45,8 +45,13 @@ func (c *client) Read() ([]byte, error) {
 	}
 
 	n, err := c.conn.Read(c.buff)
+	if n > 0 {
+		// net.Conn is allowed to return data together with an error (TLS does so on
+		// EOF). The data must not be lost, and the error comes again on the next call
+		return c.buff[:n], nil
+	}
 
-	return c.buff[:n], err
+	return nil, err
 }
 
 // Pending returns stored pending data
-- 
2.43.0


From e7be80c7d859b8bcc14a6c62a8e883b0abe807fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:45 +0000
Subject: [PATCH 05/62] fix: all the listeners use the handler of the last one

---
 indi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indi.go b/indi.go
index 67219c4..c3af9a2 100644
--- a/indi.go
+++ b/indi.go
@@ -127,6 +127,8 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 	servers := make([]*tcp.Server, 0, len(a.sources))
 
 	for _, src := range a.sources {
+		// the handler below outlives the iteration, so must not refer to the loop variable
+		src := src
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From f1e9d5db0349ddaf92a55713bdf7902fe2aeb7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:45 +0000
Subject: [PATCH 06/62] fix: bound listeners leak if binding of another one
 fails

---
 indi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indi.go b/indi.go
index c3af9a2..7bc3f3f 100644
--- a/indi.go
+++ b/indi.go
@@ -131,6 +131,8 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 		src := src
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
+			// do not leave already bound addresses occupied
+			tcp.StopAll(servers)
 			return nil, err
 		}
 
-- 
2.43.0


From cfa14b5a03b377f4702b0f29923fab1b158a99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:01 +0000
Subject: [PATCH 07/62] fix: connections accepted during the shutdown are
 served after it

---
 internal/tcp/server.go | 45 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/internal/tcp/server.go b/internal/tcp/server.go
index dd0d275..8442527 100644
--- a/internal/tcp/server.go
+++ b/internal/tcp/server.go
@@ -3,7 +3,6 @@ package tcp
 import (
 	"net"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
@@ -17,7 +16,8 @@ type Server struct {
 	wg       *sync.WaitGroup
 	sock     net.Listener
 	onConn   OnConn
-	shutdown atomic.Bool
+	mu       sync.Mutex
+	shutdown bool
 }
 
 func NewServer(sock net.Listener, onConn OnConn) *Server {
@@ -31,32 +31,65 @@ func NewServer(sock net.Listener, onConn OnConn) *Server {
 // Start runs the accept-loop until an error during accepting the connection happens
 // or graceful shutdown invokes
 func (s *Server) Start() error {
-	// we still need the shutdown atomic here, because not every net.Listener
+	// we still need the shutdown flag here, because not every net.Listener
 	// is the Deadliner, too. So by that, in such cases we can't interrupt the
 	// accept-loop via SetDeadline() method. In this case, just wait till the
 	// next client
-	for !s.shutdown.Load() {
+	for !s.isShutdown() {
 		conn, err := s.sock.Accept()
 		if err != nil {
 			return err
 		}
 
-		s.wg.Add(1)
+		if !s.acquire() {
+			// the connection arrived too late: nobody is going to wait for it
+			_ = conn.Close()
+			return nil
+		}
+
 		go s.connHandler(conn)
 	}
 
 	return nil
 }
 
+// acquire counts a new connection in, unless the server isn't accepting them anymore
+func (s *Server) acquire() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.shutdown {
+		return false
+	}
+
+	s.wg.Add(1)
+	return true
+}
+
+func (s *Server) isShutdown() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	return s.shutdown
+}
+
+func (s *Server) refuseNew() {
+	s.mu.Lock()
+	s.shutdown = true
+	s.mu.Unlock()
+}
+
 // Stop closes the server socket, however all the clients won't be notified explicitly
 // until they try to send us anything
 func (s *Server) Stop() error {
+	s.refuseNew()
+
 	return s.sock.Close()
 }
 
 // Pause stops listening to new connections, however doesn't close the socket.
 func (s *Server) Pause() {
-	s.shutdown.Store(true)
+	s.refuseNew()
 
 	if listener, ok := s.sock.(Deadliner); ok {
 		// interrupt the listener RIGHT NOW
-- 
2.43.0


From 41f186d7a46f56ed010f958079af1f2c3e46b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:01 +0000
Subject: [PATCH 08/62] fix: requests to stop may block forever and accept
 loops outlive the application

---
 indi.go | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/indi.go b/indi.go
index 7bc3f3f..09026be 100644
--- a/indi.go
+++ b/indi.go
@@ -9,7 +9,7 @@ import (
 	"github.com/indigo-web/indigo/router/inbuilt"
 	"log"
 	"net"
-	"sync/atomic"
+	"sync"
 
 	"github.com/indigo-web/indigo/config"
 	"github.com/indigo-web/indigo/router"
@@ -27,8 +27,10 @@ type App struct {
 // New returns a new App instance.
 func New(addr string) *App {
 	app := &App{
-		cfg:   config.Default(),
-		errCh: make(chan error),
+		cfg: config.Default(),
+		// the first reason to stop is the one that counts, so there's no need to
+		// store more of them
+		errCh: make(chan error, 1),
 	}
 
 	return app.Listen(addr)
@@ -153,17 +155,13 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 }
 
 func (a *App) run(servers []*tcp.Server) error {
-	var failSilently atomic.Bool
+	var acceptLoops sync.WaitGroup
+	acceptLoops.Add(len(servers))
 
 	for _, server := range servers {
 		go func(server *tcp.Server) {
-			err := server.Start()
-
-			if failSilently.Swap(true) {
-				return
-			}
-
-			a.errCh <- err
+			defer acceptLoops.Done()
+			a.shutdown(server.Start())
 		}(server)
 	}
 
@@ -175,17 +173,34 @@ func (a *App) run(servers []*tcp.Server) error {
 	}
 
 	tcp.StopAll(servers)
+	acceptLoops.Wait()
+
+	select {
+	case <-a.errCh:
+		// came too late, must not affect the next run
+	default:
+	}
+
 	callIfNotNil(a.hooks.OnStop)
 
 	return err
 }
 
+// shutdown notifies the running application that it must be stopped. Never blocks: if there
+// is already a reason to stop, the new one is ignored
+func (a *App) shutdown(reason error) {
+	select {
+	case a.errCh <- reason:
+	default:
+	}
+}
+
 // GracefulStop stops accepting new connections, but keeps serving old ones.
 //
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will be still working
 func (a *App) GracefulStop() {
-	a.errCh <- status.ErrGracefulShutdown
+	a.shutdown(status.ErrGracefulShutdown)
 }
 
 // Stop stops the whole application immediately.
@@ -193,7 +208,7 @@ func (a *App) GracefulStop() {
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will still be working
 func (a *App) Stop() {
-	a.errCh <- status.ErrShutdown
+	a.shutdown(status.ErrShutdown)
 }
 
 func (a *App) newHTTPHandler(enc encryption.Token) listenerHandler {
-- 
2.43.0


From 7e79fea7e24d14dfd2ed9620d17f6fd044af30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:53 +0000
Subject: [PATCH 09/62] fix: empty protocol or header value followed by a bare
 LF panics

---
 internal/protocol/http1/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 2845f54..6d09f28 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -154,7 +154,7 @@ path:
 		}
 
 		reqPath, reqProto := pathAndProto[:sp], pathAndProto[sp+1:]
-		if reqProto[len(reqProto)-1] == '\r' {
+		if len(reqProto) > 0 && reqProto[len(reqProto)-1] == '\r' {
 			reqProto = reqProto[:len(reqProto)-1]
 		}
 
@@ -308,7 +308,7 @@ headerValue:
 
 		data = data[lf+1:]
 		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))
-		if value[len(value)-1] == '\r' {
+		if len(value) > 0 && value[len(value)-1] == '\r' {
 			value = value[:len(value)-1]
 		}
 
-- 
2.43.0


From c3331343cd35da09a5505cc45dda262989949c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:59 +0000
Subject: [PATCH 10/62] fix: malformed, repeated and overflowing Content-Length
 values are accepted

---
 internal/protocol/http1/parser.go | 47 +++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 6d09f28..9002843 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/buffer"
 	"github.com/indigo-web/utils/strcomp"
 	"github.com/indigo-web/utils/uf"
+	"math"
 	"strings"
 )
 
@@ -35,6 +36,14 @@ const (
 	eHeaderValueCRLFCR
 )
 
+type contentLengthState uint8
+
+const (
+	eLeadingSpaces contentLengthState = iota
+	eDigits
+	eTrailingSpaces
+)
+
 // Parser is a stream-based http requests parser. It modifies
 // request object by pointer in performance purposes. Decodes query-encoded
 // values by its own, you can see that by presented states ePathDecode1Char,
@@ -52,8 +61,12 @@ type Parser struct {
 	headersCfg      *config.Headers
 	headersNumber   int
 	contentLength   int
-	urlEncodedChar  uint8
-	state           parserState
+	// contentLengthState tells, what is already met in the value of the Content-Length header
+	contentLengthState contentLengthState
+	// hasContentLength is set after the first Content-Length header
+	hasContentLength bool
+	urlEncodedChar   uint8
+	state            parserState
 }
 
 func NewParser(
@@ -228,6 +241,8 @@ headerKey:
 			) && cLength == encodeU64(
 			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
 		) {
+			p.contentLength = 0
+			p.contentLengthState = eLeadingSpaces
 			goto contentLength
 		}
 
@@ -237,6 +252,10 @@ headerKey:
 contentLength:
 	for i, char := range data {
 		if char == ' ' {
+			if p.contentLengthState == eDigits {
+				p.contentLengthState = eTrailingSpaces
+			}
+
 			continue
 		}
 
@@ -245,7 +264,17 @@ contentLength:
 			goto contentLengthEnd
 		}
 
-		p.contentLength = p.contentLength*10 + int(char-'0')
+		if p.contentLengthState == eTrailingSpaces {
+			return Error, nil, status.ErrBadRequest
+		}
+
+		p.contentLengthState = eDigits
+		digit := int(char - '0')
+		if p.contentLength > (math.MaxInt-digit)/10 {
+			return Error, nil, status.ErrBodyTooLarge
+		}
+
+		p.contentLength = p.contentLength*10 + digit
 	}
 
 	p.state = eContentLength
@@ -256,6 +285,17 @@ contentLengthEnd:
 	// The proof is, that this code is reachable ONLY if loop has reached a non-digit
 	// ascii symbol. In case loop has finished peacefully, as no more data left, but also no
 	// character found to satisfy the exit condition, this code will never be reached
+	if p.contentLengthState == eLeadingSpaces {
+		// the value is empty
+		return Error, nil, status.ErrBadRequest
+	}
+
+	if p.hasContentLength && request.ContentLength != p.contentLength {
+		// the length of the body is ambiguous
+		return Error, nil, status.ErrBadRequest
+	}
+
+	p.hasContentLength = true
 	request.ContentLength = p.contentLength
 
 	switch data[0] {
@@ -385,6 +425,7 @@ func (p *Parser) cleanup() {
 	p.headerKeyBuff.Clear()
 	p.headerValueBuff.Clear()
 	p.contentLength = 0
+	p.hasContentLength = false
 	p.encToksBuff = p.encToksBuff[:0]
 	p.contEncToksBuff = p.contEncToksBuff[:0]
 	p.state = eMethod
-- 
2.43.0


From 394f3bdf752597ed1e565d1fe86b94a7b38687a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:31 +0000
Subject: [PATCH 11/62] fix: encodings are ignored if there are too many or
 several lines of them

---
 internal/protocol/http1/parser.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 9002843..00467b8 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -387,7 +387,13 @@ headerValue:
 			) && cEncoding == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) {
-				request.Encoding.Content, _ = parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				toks, _ := parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrUnsupportedEncoding
+				}
+
+				p.contEncToksBuff = toks
+				request.Encoding.Content = toks
 			}
 		case 17:
 			if cTransfer == encodeU64(
@@ -395,9 +401,14 @@ headerValue:
 			) && cEncodin == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) && key[16]|0x20 == 'g' {
-				request.Encoding.Transfer, request.Encoding.Chunked = parseEncodingString(
-					p.encToksBuff, value, cap(p.encToksBuff),
-				)
+				toks, chunked := parseEncodingString(p.encToksBuff, value, cap(p.encToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrUnsupportedEncoding
+				}
+
+				p.encToksBuff = toks
+				request.Encoding.Transfer = toks
+				request.Encoding.Chunked = request.Encoding.Chunked || chunked
 			}
 		}
 
-- 
2.43.0


From 17df7ac3f8ec256c80f1630aaf3c395b10a4b2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:36 +0000
Subject: [PATCH 12/62] fix: header keys may contain spaces and line breaks

---
 internal/protocol/http1/parser.go | 42 +++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 00467b8..1d538be 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -203,18 +203,24 @@ headerKey:
 			return Pending, nil, err
 		}
 
-		switch data[0] {
-		case '\n':
-			p.cleanup()
-
-			return HeadersCompleted, data[1:], nil
-		case '\r':
-			data = data[1:]
-			goto headerValueCRLFCR
+		if headerKeyBuff.SegmentLength() == 0 {
+			switch data[0] {
+			case '\n':
+				p.cleanup()
+
+				return HeadersCompleted, data[1:], nil
+			case '\r':
+				data = data[1:]
+				goto headerValueCRLFCR
+			}
 		}
 
 		colon := bytes.IndexByte(data, ':')
 		if colon == -1 {
+			if !isHeaderKey(data) {
+				return Error, nil, status.ErrBadRequest
+			}
+
 			if !headerKeyBuff.Append(data) {
 				return Error, nil, status.ErrHeaderFieldsTooLarge
 			}
@@ -223,11 +229,19 @@ headerKey:
 			return Pending, nil, nil
 		}
 
+		if !isHeaderKey(data[:colon]) {
+			return Error, nil, status.ErrBadRequest
+		}
+
 		if !headerKeyBuff.Append(data[:colon]) {
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
 
 		key := uf.B2S(headerKeyBuff.Finish())
+		if len(key) == 0 {
+			return Error, nil, status.ErrBadRequest
+		}
+
 		p.headerKey = key
 		data = data[colon+1:]
 
@@ -471,6 +485,18 @@ func parseEncodingString(buff []string, value string, maxTokens int) (toks []str
 	return buff, chunked
 }
 
+// isHeaderKey tells, whether the (probably, incomplete) header key contains neither
+// spaces nor line breaks
+func isHeaderKey(key []byte) bool {
+	for _, char := range key {
+		if char <= ' ' {
+			return false
+		}
+	}
+
+	return true
+}
+
 func trimPrefixSpaces(b []byte) []byte {
 	for i, char := range b {
 		if char != ' ' {
-- 
2.43.0


From 8c104e3c0919b3dae8bde9924d11cff7776972cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:41 +0000
Subject: [PATCH 13/62] fix: length of a header key isn't limited

---
 internal/protocol/http1/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 1d538be..f5114db 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -225,6 +225,10 @@ headerKey:
 				return Error, nil, status.ErrHeaderFieldsTooLarge
 			}
 
+			if headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
+				return Error, nil, status.ErrHeaderFieldsTooLarge
+			}
+
 			p.state = eHeaderKey
 			return Pending, nil, nil
 		}
@@ -242,6 +246,10 @@ headerKey:
 			return Error, nil, status.ErrBadRequest
 		}
 
+		if len(key) > p.headersCfg.MaxKeyLength {
+			return Error, nil, status.ErrHeaderFieldsTooLarge
+		}
+
 		p.headerKey = key
 		data = data[colon+1:]
 
-- 
2.43.0


From b9c3f32b57d11799e40769904a43b24da9acaf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:46 +0000
Subject: [PATCH 14/62] fix: limit of the URI length depends on how the request
 was received

---
 internal/protocol/http1/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index f5114db..9410e3d 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -140,6 +140,9 @@ method:
 			return Error, nil, status.ErrMethodNotImplemented
 		}
 
+		// the method isn't needed anymore. It must not occupy the space for the path, otherwise
+		// the limit depends on whether the method was received at once
+		p.startLineBuff.Clear()
 		data = data[sp+1:]
 		goto path
 	}
-- 
2.43.0


From 84591f2f63626c60da40152bc95d0ff940dfa59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:51 +0000
Subject: [PATCH 15/62] fix: malformed request lines aren't refused

---
 http/proto/proto.go               | 2 +-
 internal/protocol/http1/parser.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/http/proto/proto.go b/http/proto/proto.go
index 690d997..6aa7024 100644
--- a/http/proto/proto.go
+++ b/http/proto/proto.go
@@ -36,7 +36,7 @@ var majorMinorVersionLUT = [10][10]Proto{
 }
 
 func FromBytes(raw []byte) Proto {
-	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme {
+	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme || raw[majorVersionOffset+1] != '.' {
 		return Unknown
 	}
 
diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 9410e3d..dbbb816 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -113,6 +113,10 @@ method:
 	{
 		sp := bytes.IndexByte(data, ' ')
 		if sp == -1 {
+			if bytes.IndexByte(data, '\n') != -1 {
+				return Error, nil, status.ErrBadRequest
+			}
+
 			if !p.startLineBuff.Append(data) {
 				return Error, nil, status.ErrTooLongRequestLine
 			}
-- 
2.43.0


From 4af52d2789ecbbc194d6888268ad58337ea3dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:22 +0000
Subject: [PATCH 16/62] fix: unsupported protocols are served or refused with a
 malformed status line

---
 internal/protocol/http1/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index dbbb816..6817fa0 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -194,11 +194,14 @@ path:
 		}
 
 		request.Path = uf.B2S(reqPath)
-		request.Proto = proto.FromBytes(reqProto)
-		if request.Proto == proto.Unknown {
+		protocol := proto.FromBytes(reqProto)
+		if protocol&proto.HTTP1 == proto.Unknown {
+			// the request's protocol is left untouched, as it's used to render the error
 			return Error, nil, status.ErrUnsupportedProtocol
 		}
 
+		request.Proto = protocol
+
 		data = data[lf+1:]
 		goto headerKey
 	}
-- 
2.43.0


From 9ccddfe94cbdd34a632d24b68ee9b43ca8de0d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:11 +0000
Subject: [PATCH 17/62] fix: overridden default headers are never sent again

---
 internal/protocol/http1/serializer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 83f86c4..6bc2214 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -81,6 +81,8 @@ func (d *Serializer) PreWrite(protocol proto.Proto, response *http.Response) {
 	d.renderResponseLine(fields)
 	d.renderHeaders(fields)
 	d.crlf()
+	// headers of the informational response don't affect the final one
+	d.defaultHeaders.Reset()
 }
 
 // Write writes the response, keeping in mind difference between 1.0 and 1.1 HTTP versions
@@ -412,7 +414,7 @@ func (d defaultHeaders) Exclude(key string) {
 }
 
 func (d defaultHeaders) Reset() {
-	for _, header := range d {
-		header.Excluded = false
+	for i := range d {
+		d[i].Excluded = false
 	}
 }
-- 
2.43.0


From a912a7dda530707390c61c77b65b07f914c25bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 18/62] fix: custom status texts are ignored

---
 internal/protocol/http1/serializer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 6bc2214..395ca0a 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -134,7 +134,13 @@ func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	// in case we have a custom response status text or unknown code, fallback to an old way
 	d.buff = strconv.AppendInt(d.buff, int64(fields.Code), 10)
 	d.sp()
-	d.buff = append(d.buff, status.Text(fields.Code)...)
+
+	if fields.Status != "" {
+		d.buff = append(d.buff, fields.Status...)
+	} else {
+		d.buff = append(d.buff, status.Text(fields.Code)...)
+	}
+
 	d.crlf()
 }
 
-- 
2.43.0


From 8b15a78ac4e626d411abacf7fa6313b1cef1f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:21 +0000
Subject: [PATCH 19/62] fix: attachments aren't closed after HEAD requests and
 write errors

---
 internal/protocol/http1/serializer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 395ca0a..ce684a7 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -174,6 +174,8 @@ func (d *Serializer) sendAttachment(
 ) (err error) {
 	fields := response.Reveal()
 	size := fields.Attachment.Size()
+	// no matter how far the response goes, the attachment must be released
+	defer fields.Attachment.Close()
 
 	if size > 0 {
 		d.renderHeaders(fields)
@@ -208,8 +210,6 @@ func (d *Serializer) sendAttachment(
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
 
-	fields.Attachment.Close()
-
 	return err
 }
 
-- 
2.43.0


From 2a11efe483c8ef9285f3a3baad131fddcb84719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:26 +0000
Subject: [PATCH 20/62] fix: responses with attachments lack cookies and never
 close the connection

---
 internal/protocol/http1/serializer.go | 34 ++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index ce684a7..da8a159 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -96,15 +96,15 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		return d.sendAttachment(d.request, response, d.writer)
-	}
-
-	d.renderHeaders(fields)
+		if err = d.sendAttachment(d.request, response, d.writer); err != nil {
+			return err
+		}
 
-	for _, c := range fields.Cookies {
-		d.renderCookie(c)
+		return d.keepAlive(protocol)
 	}
 
+	d.renderHeaders(fields)
+	d.renderCookies(fields)
 	d.renderContentLength(int64(len(fields.Body)))
 	d.crlf()
 
@@ -114,13 +114,21 @@ func (d *Serializer) Write(
 		d.buff = append(d.buff, fields.Body...)
 	}
 
-	err = d.writer.Write(d.buff)
+	if err = d.writer.Write(d.buff); err != nil {
+		return err
+	}
+
+	return d.keepAlive(protocol)
+}
 
+// keepAlive returns status.ErrCloseConnection, if the connection must be closed after
+// the response
+func (d *Serializer) keepAlive(protocol proto.Proto) error {
 	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
-		err = status.ErrCloseConnection
+		return status.ErrCloseConnection
 	}
 
-	return err
+	return nil
 }
 
 func (d *Serializer) renderResponseLine(fields *response.Fields) {
@@ -184,6 +192,8 @@ func (d *Serializer) sendAttachment(
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
+	d.renderCookies(fields)
+
 	// now we have to send the body via plain text or chunked transfer encoding.
 	// I'm proposing to make an exception for chunked transfer encoding with a
 	// separate method that'll handle with it by its own. Maybe, even for plain-text
@@ -277,6 +287,12 @@ func (d *Serializer) renderHeader(header headers.Header) {
 	d.crlf()
 }
 
+func (d *Serializer) renderCookies(fields *response.Fields) {
+	for _, c := range fields.Cookies {
+		d.renderCookie(c)
+	}
+}
+
 func (d *Serializer) renderCookie(c cookie.Cookie) {
 	d.buff = append(d.buff, setCookie...)
 	d.buff = append(d.buff, c.Name...)
-- 
2.43.0


From 6079e0812ecc8dc706d186d66a924d83269a7540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:26 +0000
Subject: [PATCH 21/62] fix: body of an attachment may not match its
 Content-Length

---
 internal/protocol/http1/serializer.go | 31 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index da8a159..791ff1a 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -215,7 +215,7 @@ func (d *Serializer) sendAttachment(
 	}
 
 	if fields.Attachment.Size() > 0 {
-		err = d.writePlainBody(fields.Attachment.Content(), writer)
+		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
 	} else {
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
@@ -223,25 +223,34 @@ func (d *Serializer) sendAttachment(
 	return err
 }
 
-func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
+// writePlainBody sends exactly size bytes, as that many were promised in the Content-Length. If
+// there aren't enough of them, the connection can't be used anymore
+func (d *Serializer) writePlainBody(r io.Reader, size int, writer Writer) error {
 	// TODO: implement checking whether r implements io.ReaderAt interface. In case it does
 	//       body may be transferred more efficiently. This requires implementing io.Writer
 	//       *http.ResponseWriter
 
-	for {
-		n, err := r.Read(d.fileBuff)
-		switch err {
-		case nil:
-		case io.EOF:
-			return nil
-		default:
-			return status.ErrCloseConnection
+	for size > 0 {
+		buff := d.fileBuff
+		if size < len(buff) {
+			buff = buff[:size]
+		}
+
+		n, err := r.Read(buff)
+		if n > 0 {
+			size -= n
+
+			if err := writer.Write(buff[:n]); err != nil {
+				return status.ErrCloseConnection
+			}
 		}
 
-		if err = writer.Write(d.fileBuff[:n]); err != nil {
+		if err != nil && size > 0 {
 			return status.ErrCloseConnection
 		}
 	}
+
+	return nil
 }
 
 func (d *Serializer) writeChunkedBody(r io.Reader, writer Writer) error {
-- 
2.43.0


From 7401f2c76fa66bcc113cb7aa053d9916390cf42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:31 +0000
Subject: [PATCH 22/62] fix: chunked transfer encoding is used for HTTP/1.0
 clients

---
 internal/protocol/http1/serializer.go | 30 +++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 791ff1a..e3cc2a6 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -96,7 +96,7 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		if err = d.sendAttachment(d.request, response, d.writer); err != nil {
+		if err = d.sendAttachment(protocol, d.request, response, d.writer); err != nil {
 			return err
 		}
 
@@ -178,16 +178,22 @@ func (d *Serializer) renderHeaders(fields *response.Fields) {
 // sendAttachment simply encapsulates all the logic related to rendering arbitrary
 // io.Reader implementations
 func (d *Serializer) sendAttachment(
-	request *http.Request, response *http.Response, writer Writer,
+	protocol proto.Proto, request *http.Request, response *http.Response, writer Writer,
 ) (err error) {
 	fields := response.Reveal()
 	size := fields.Attachment.Size()
 	// no matter how far the response goes, the attachment must be released
 	defer fields.Attachment.Close()
 
+	// HTTP/1.0 clients don't know about the chunked transfer encoding, so the end of the body
+	// is designated by closing the connection
+	untilClose := size <= 0 && protocol == proto.HTTP10
+
 	if size > 0 {
 		d.renderHeaders(fields)
 		d.renderContentLength(int64(size))
+	} else if untilClose {
+		d.renderHeaders(fields)
 	} else {
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
@@ -214,6 +220,10 @@ func (d *Serializer) sendAttachment(
 		d.fileBuff = make([]byte, d.fileBuffSize)
 	}
 
+	if untilClose {
+		return d.writeUntilClose(fields.Attachment.Content(), writer)
+	}
+
 	if fields.Attachment.Size() > 0 {
 		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
 	} else {
@@ -253,6 +263,22 @@ func (d *Serializer) writePlainBody(r io.Reader, size int, writer Writer) error
 	return nil
 }
 
+// writeUntilClose sends everything from the reader, letting the connection be closed after
+func (d *Serializer) writeUntilClose(r io.Reader, writer Writer) error {
+	for {
+		n, err := r.Read(d.fileBuff)
+		if n > 0 {
+			if err := writer.Write(d.fileBuff[:n]); err != nil {
+				return status.ErrCloseConnection
+			}
+		}
+
+		if err != nil {
+			return status.ErrCloseConnection
+		}
+	}
+}
+
 func (d *Serializer) writeChunkedBody(r io.Reader, writer Writer) error {
 	const (
 		hexValueOffset = 8
-- 
2.43.0


From a114ce238e933c05cdb11f5d236704a79a564dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:54 +0000
Subject: [PATCH 23/62] fix: requests to close the connection are ignored among
 other options or upgrades

---
 internal/protocol/http1/serializer.go | 30 ++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index e3cc2a6..d7c882a 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"log"
 	"strconv"
+	"strings"
 	"time"
 )
 
@@ -124,7 +125,7 @@ func (d *Serializer) Write(
 // keepAlive returns status.ErrCloseConnection, if the connection must be closed after
 // the response
 func (d *Serializer) keepAlive(protocol proto.Proto) error {
-	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
+	if !isKeepAlive(protocol, d.request) {
 		return status.ErrCloseConnection
 	}
 
@@ -418,12 +419,17 @@ func (d *Serializer) clear() {
 }
 
 func isKeepAlive(protocol proto.Proto, req *http.Request) bool {
+	if hasToken(req.Connection, "close") {
+		return false
+	}
+
 	switch protocol {
 	case proto.HTTP10:
-		return strcomp.EqualFold(req.Connection, "keep-alive")
+		// if the protocol was upgraded, the connection is kept
+		return hasToken(req.Connection, "keep-alive") || req.Upgrade&proto.HTTP1 != proto.Unknown
 	case proto.HTTP11:
 		// in case of HTTP/1.1, keep-alive may be only disabled
-		return !strcomp.EqualFold(req.Connection, "close")
+		return true
 	default:
 		// as the protocol is unknown and the code was probably caused by some sort
 		// of bug, consider closing it
@@ -431,6 +437,24 @@ func isKeepAlive(protocol proto.Proto, req *http.Request) bool {
 	}
 }
 
+// hasToken tells, whether the comma-separated list contains the token
+func hasToken(list, token string) bool {
+	for len(list) > 0 {
+		elem := list
+		if comma := strings.IndexByte(list, ','); comma != -1 {
+			elem, list = list[:comma], list[comma+1:]
+		} else {
+			list = ""
+		}
+
+		if strcomp.EqualFold(strings.TrimSpace(elem), token) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func processDefaultHeaders(hdrs map[string]string) defaultHeaders {
 	processed := make(defaultHeaders, 0, len(hdrs))
 
-- 
2.43.0


From e249a1fc601e3082353ab49a8ecd2decf0774e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:59 +0000
Subject: [PATCH 24/62] fix: 101 Switching Protocols names a wrong protocol and
 accumulates headers

---
 internal/protocol/http1/suit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 813717e..671a0cf 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -80,9 +80,10 @@ func (s *Suit) serve(once bool) (ok bool) {
 				s.PreWrite(
 					req.Proto,
 					s.upgradePreResp.
+						Clear().
 						Code(status.SwitchingProtocols).
 						Header("Connection", "upgrade").
-						Header("Upgrade", trimLast(req.Proto.String())),
+						Header("Upgrade", trimLast(req.Upgrade.String())),
 				)
 				version = req.Upgrade
 			}
-- 
2.43.0


From 5aa83552934527d22bdc8d7137a835cf60ee7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:04 +0000
Subject: [PATCH 25/62] fix: encryption is unknown since the second request of
 a connection

---
 http/request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/http/request.go b/http/request.go
index 6a5286e..0ef1ba5 100644
--- a/http/request.go
+++ b/http/request.go
@@ -180,7 +180,10 @@ func (r *Request) Clear() (err error) {
 	r.Connection = ""
 	r.Upgrade = proto.Unknown
 	r.Ctx = zeroContext
-	r.Env = Environment{}
+	r.Env = Environment{
+		// the connection stays the same
+		Encryption: r.Env.Encryption,
+	}
 
 	return nil
 }
-- 
2.43.0


From ecbd16815800992e20b82e072dc8e50ad2687422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:09 +0000
Subject: [PATCH 26/62] fix: malformed requests inherit the method, path and
 protocol of the previous one

---
 http/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/request.go b/http/request.go
index 0ef1ba5..90d2ae1 100644
--- a/http/request.go
+++ b/http/request.go
@@ -171,6 +171,9 @@ func (r *Request) Clear() (err error) {
 		return err
 	}
 
+	r.Method = method.Unknown
+	r.Path = ""
+	r.Proto = proto.HTTP11
 	r.Query.Set(nil)
 	r.Params.Clear()
 	r.Headers.Clear()
-- 
2.43.0


From b2c11801551789af86b444916a2ad95c34b290f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:00 +0000
Subject: [PATCH 27/62] fix: body of the previous request may be returned for
 the current one

---
 internal/protocol/http1/body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 8854029..f9717fd 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -46,6 +46,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
 
-- 
2.43.0


From 087bc3945a4e30daa001a0e899b5cd7398d74a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:05 +0000
Subject: [PATCH 28/62] fix: memory for too large bodies is allocated before
 they're refused

---
 internal/protocol/http1/body.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index f9717fd..7a2f9e3 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -62,7 +62,8 @@ func (b *Body) Bytes() ([]byte, error) {
 	}
 
 	// FIXME: this barely works with applied transfer-encodings
-	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength {
+	// the memory isn't allocated for those bodies, which won't be read anyway
+	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength && uint(b.contentLength) <= b.plain.maxBodyLen {
 		b.fullBodyBuff = make([]byte, 0, b.contentLength)
 	}
 
@@ -161,15 +162,15 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 		return nil, io.EOF
 	}
 
+	if p.bytesLeft > p.maxBodyLen {
+		return nil, status.ErrBodyTooLarge
+	}
+
 	data, err := p.client.Read()
 	if err != nil {
 		return nil, err
 	}
 
-	if p.bytesLeft > p.maxBodyLen {
-		return nil, status.ErrBodyTooLarge
-	}
-
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
 		body, data = data[:p.bytesLeft], data[p.bytesLeft:]
 		p.client.Unread(data)
-- 
2.43.0


From 10ebb2e129654114443491b40b18a2c15f37a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:10 +0000
Subject: [PATCH 29/62] fix: truncated bodies are treated as complete ones

---
 internal/protocol/http1/body.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 7a2f9e3..72715ba 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -168,7 +168,7 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 
 	data, err := p.client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
@@ -208,7 +208,7 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	client := c.client
 	data, err := client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	chunk, extra, err := c.parser.Parse(data, c.encoding.HasTrailer)
@@ -229,6 +229,16 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	return chunk, err
 }
 
+// unexpectedEOF replaces io.EOF returned by the client, as otherwise it'd be treated as the end
+// of the body
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func adduint(x, y uint) (uint, bool) {
 	return x + y, math.MaxUint-x < y
 }
-- 
2.43.0


From 2a7d8be92fbf66f2e0b22ee62a7e87464f86a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:15 +0000
Subject: [PATCH 30/62] fix: body can be read further after an error

---
 internal/protocol/http1/body.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 72715ba..cbd0252 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -22,6 +22,9 @@ type Body struct {
 	contentLength int
 	fullBodyBuff  []byte
 	eof           bool
+	// err is an error occurred while reading the body. The rest of the stream can't be
+	// interpreted after it
+	err error
 }
 
 func NewBody(
@@ -46,6 +49,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.err = nil
 	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
@@ -104,6 +108,10 @@ func (b *Body) Retrieve() ([]byte, error) {
 		return nil, io.EOF
 	}
 
+	if b.err != nil {
+		return nil, b.err
+	}
+
 	var (
 		piece []byte
 		err   error
@@ -138,6 +146,8 @@ func (b *Body) Discard() (err error) {
 func (b *Body) checkEOF(err error) {
 	if err == io.EOF {
 		b.eof = true
+	} else {
+		b.err = err
 	}
 }
 
-- 
2.43.0


From c2f49ea21a4e3e324054c7273ca5fc893dd7f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:20 +0000
Subject: [PATCH 31/62] fix: body callback is called without any data

---
 internal/protocol/http1/body.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index cbd0252..b3efc17 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -89,17 +89,19 @@ func (b *Body) Bytes() ([]byte, error) {
 func (b *Body) Callback(cb http.OnBodyCallback) error {
 	for {
 		data, err := b.Retrieve()
+		if len(data) > 0 {
+			if cbErr := cb(data); cbErr != nil {
+				return cbErr
+			}
+		}
+
 		switch err {
 		case nil:
 		case io.EOF:
-			return cb(data)
+			return nil
 		default:
 			return err
 		}
-
-		if err = cb(data); err != nil {
-			return err
-		}
 	}
 }
 
-- 
2.43.0


From 2d80bd648437eb4d0f4b1a31e13e9d00a69a4233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:25 +0000
Subject: [PATCH 32/62] fix: opened file leaks if it can't be sent

---
 http/response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/response.go b/http/response.go
index ff98e56..8538538 100644
--- a/http/response.go
+++ b/http/response.go
@@ -133,9 +133,11 @@ func (r *Response) TryFile(path string) (*Response, error) {
 	stat, err := fd.Stat()
 	if err != nil {
 		// ...and if we can't get stats on it, it exists, however something in system went wrong
+		_ = fd.Close()
 		return r, status.ErrInternalServerError
 	}
 	if stat.IsDir() {
+		_ = fd.Close()
 		return r, status.ErrNotFound
 	}
 
-- 
2.43.0


From 04e8f0896843605c5a8462985c0b93f2bce95773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:31 +0000
Subject: [PATCH 33/62] fix: JSON overwrites the memory of the previous body

---
 http/response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/response.go b/http/response.go
index 8538538..46d897e 100644
--- a/http/response.go
+++ b/http/response.go
@@ -176,7 +176,8 @@ func (r *Response) Cookie(cookies ...cookie.Cookie) *Response {
 // TryJSON receives a model (must be a pointer to the structure) and returns a new Response
 // object and an error
 func (r *Response) TryJSON(model any) (*Response, error) {
-	r.fields.Body = r.fields.Body[:0]
+	// the current body may belong to the user or even be an immutable string
+	r.fields.Body = nil
 	stream := json.ConfigDefault.BorrowStream(r)
 	stream.WriteVal(model)
 	err := stream.Flush()
-- 
2.43.0


From 003ef310d359a44be5e713406884b5a7d7a4ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 34/62] fix: TRACE responses disclose requests of other
 connections

---
 router/inbuilt/inbuilt.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index ceb1696..8b13b50 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -49,7 +49,6 @@ func New() *Router {
 type runtimeRouter struct {
 	mutators    []Mutator
 	catchers    []Catcher
-	traceBuff   []byte
 	tree        radix.Tree
 	routesMap   routesMap
 	errHandlers errorHandlers
@@ -135,9 +134,8 @@ func (r *runtimeRouter) OnError(request *http.Request, err error) *http.Response
 
 func (r *runtimeRouter) onError(request *http.Request, err error) *http.Response {
 	if request.Method == method.TRACE && err == status.ErrMethodNotAllowed {
-		r.traceBuff = renderHTTPRequest(request, r.traceBuff)
-
-		return traceResponse(request.Respond(), r.traceBuff)
+		// the router is shared among connections, so the buffer can't be kept
+		return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
 	}
 
 	if err == status.ErrNotFound {
-- 
2.43.0


From 5e44419f85458c7cadc1cd5d44e63f7f217d30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:42 +0000
Subject: [PATCH 35/62] fix: static files of one connection may be sent to
 another one, prefixes of groups are ignored

---
 router/inbuilt/static.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 1ff7242..2fb534a 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -4,25 +4,39 @@ import (
 	"github.com/indigo-web/indigo/http"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/pathlib"
+	"path"
 	"strings"
 )
 
 // Static adds a catcher of prefix, that automatically returns files from defined root
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
-	pathReplacer := pathlib.NewPath(prefix, root)
+	// catchers are registered with the prefix of the group
+	fullPrefix := path.Join(r.prefix, prefix)
 
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
+		if !isUnder(request.Path, fullPrefix) {
+			return http.Error(request, status.ErrNotFound)
+		}
+
+		// the handler is shared among connections, so the buffer of the path can't be shared
+		pathReplacer := pathlib.NewPath(fullPrefix, root)
 		pathReplacer.Set(request.Path)
-		path := pathReplacer.Relative()
-		if !isSafe(path) {
+		file := pathReplacer.Relative()
+		if !isSafe(file) {
 			return http.Error(request, status.ErrNotFound)
 		}
 
-		return request.Respond().File(path)
+		return request.Respond().File(file)
 	}, mwares...)
 }
 
+// isUnder tells, whether the path is somewhere inside the directory, not just starts with
+// its name
+func isUnder(path, dir string) bool {
+	return strings.HasPrefix(path, strings.TrimSuffix(dir, "/")+"/")
+}
+
 // isSafe checks for path traversal (basically - double dots)
 func isSafe(path string) bool {
 	for len(path) > 0 {
-- 
2.43.0


From 44b30ab8b8d45cdd23cb8ad7fe12784ff37b15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:43 +0000
Subject: [PATCH 36/62] fix: short segments of dynamic routes are dropped,
 leading wildcards are refused

---
 router/inbuilt/internal/radix/template.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 26b267b..55c54bf 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -31,7 +31,7 @@ func Parse(tmpl string) (Template, error) {
 	var (
 		offset   = 1
 		template = Template{}
-		state    = eStatic
+		state    = eSlash
 	)
 
 	if len(tmpl) == 0 {
@@ -62,6 +62,7 @@ func Parse(tmpl string) (Template, error) {
 		case eSlash:
 			switch tmpl[i] {
 			case '/':
+				offset = i + 1
 			case '{':
 				offset = i + 1
 				state = eDynamic
@@ -96,7 +97,7 @@ func Parse(tmpl string) (Template, error) {
 		}
 	}
 
-	if state == eStatic && offset < len(tmpl)-1 {
+	if state == eStatic && offset < len(tmpl) {
 		template.segments = append(template.segments, Segment{
 			IsWildcard: false,
 			Payload:    tmpl[offset:],
-- 
2.43.0


From 9fa1fe843dd235ddaf19e18f8662e212ba1ade5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:48 +0000
Subject: [PATCH 37/62] fix: unregistered root of a dynamic router responds 405
 instead of 404

---
 router/inbuilt/internal/radix/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/inbuilt/internal/radix/tree.go b/router/inbuilt/internal/radix/tree.go
index e881fd9..1a8567b 100644
--- a/router/inbuilt/internal/radix/tree.go
+++ b/router/inbuilt/internal/radix/tree.go
@@ -29,7 +29,7 @@ type Node struct {
 }
 
 func New() *Node {
-	return newNode(new(Payload), false, "")
+	return newNode(nil, false, "")
 }
 
 func newNode(payload *Payload, isDyn bool, dynName string) *Node {
-- 
2.43.0


From fa824ffadc18c8d2d81d967918e30dd5b950b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:53 +0000
Subject: [PATCH 38/62] fix: trailing slashes of short paths aren't trimmed

---
 router/inbuilt/uri/normalize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/uri/normalize.go b/router/inbuilt/uri/normalize.go
index 5f634fb..d964471 100644
--- a/router/inbuilt/uri/normalize.go
+++ b/router/inbuilt/uri/normalize.go
@@ -1,11 +1,16 @@
 package uri
 
 func Normalize(path string) string {
-	for i := len(path) - 1; i > 1; i-- {
+	for i := len(path) - 1; i > 0; i-- {
 		if path[i] != '/' {
 			return path[:i+1]
 		}
 	}
 
+	if len(path) > 1 {
+		// nothing but slashes follows the first character
+		return path[:1]
+	}
+
 	return path
 }
-- 
2.43.0


From 93583901e65d84a53325e1665300d1f64f1bd7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:53 +0000
Subject: [PATCH 39/62] fix: Host header values aren't normalized as the
 registered hosts are

---
 router/virtual/virtual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/virtual/virtual.go b/router/virtual/virtual.go
index 6d16820..d4ce732 100644
--- a/router/virtual/virtual.go
+++ b/router/virtual/virtual.go
@@ -114,7 +114,7 @@ func (r *runtimeRouter) getRouter(request *http.Request) (router.Router, *http.R
 		return nil, http.Code(request, status.BadRequest)
 	}
 
-	host := hosts[0]
+	host := domain.Normalize(hosts[0])
 
 	for _, virtRouter := range r.routers {
 		if strcomp.EqualFold(virtRouter.Domain, host) {
-- 
2.43.0


From cd8393f4ebe71b9f588e0fbbe0156a9c2656dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:54 +0000
Subject: [PATCH 40/62] fix: www prefix is case-sensitive unlike the rest of
 the domain

---
 router/virtual/internal/domain/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/virtual/internal/domain/normalize.go b/router/virtual/internal/domain/normalize.go
index 98c04f9..1b08024 100644
--- a/router/virtual/internal/domain/normalize.go
+++ b/router/virtual/internal/domain/normalize.go
@@ -3,7 +3,7 @@ package domain
 import "strings"
 
 func Normalize(domain string) string {
-	if strings.HasPrefix(domain, "www.") {
+	if len(domain) >= len("www.") && strings.EqualFold(domain[:len("www.")], "www.") {
 		domain = domain[len("www."):]
 	}
 
-- 
2.43.0


From 4f187266732fcc441afbcee598c832c742124629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:13 +0000
Subject: [PATCH 41/62] fix: interrupted generation of a self-signed
 certificate is never recovered

---
 https.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/https.go b/https.go
index 6891b9e..c00a7d8 100644
--- a/https.go
+++ b/https.go
@@ -92,7 +92,8 @@ func generateSelfSignedCert() (cert, key string, err error) {
 		keyFilename  = filepath.Join(cache, "localhost.key")
 	)
 
-	if certExists(certFilename, keyFilename) {
+	// the files may be left incomplete or not matching each other, if generating them was interrupted
+	if _, err = tls.LoadX509KeyPair(certFilename, keyFilename); err == nil {
 		return certFilename, keyFilename, nil
 	}
 
@@ -160,13 +161,3 @@ func mkdirIfNotExists(dir string) error {
 
 	return os.MkdirAll(dir, 0700)
 }
-
-func certExists(cert, key string) bool {
-	return fileExists(cert) && fileExists(key)
-}
-
-func fileExists(filename string) bool {
-	stat, err := os.Stat(filename)
-
-	return err == nil && !stat.IsDir()
-}
-- 
2.43.0


From 9936318ebe34ac212fc67df84ac0904da155cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:08 +0000
Subject: [PATCH 42/62] fix: misspelled reason phrase of 101 Switching
 Protocols

---
 http/status/codes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/status/codes.go b/http/status/codes.go
index 6df0c79..774784b 100644
--- a/http/status/codes.go
+++ b/http/status/codes.go
@@ -224,7 +224,7 @@ func Line(code Code) string {
 	case Continue:
 		return "100 Continue\r\n"
 	case SwitchingProtocols:
-		return "101 Switching Protocol\r\n"
+		return "101 Switching Protocols\r\n"
 	case Processing:
 		return "102 Processing\r\n"
 	case EarlyHints:
-- 
2.43.0


From 02ec6a6a1d94829b1ddc393b232ffa812561a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:46 +0000
Subject: [PATCH 43/62] fix: nil response of a handler behind the ServerHeader
 or LogRequests middleware

Handlers may return nil, in which case the default response is sent. Both middlewares
dereferenced it and crashed the process.
---
 router/inbuilt/middleware/logging.go      | 5 +++++
 router/inbuilt/middleware/serverheader.go | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/logging.go b/router/inbuilt/middleware/logging.go
index d7fc2a9..565f730 100644
--- a/router/inbuilt/middleware/logging.go
+++ b/router/inbuilt/middleware/logging.go
@@ -18,6 +18,11 @@ func LogRequests(loggers ...Logger) inbuilt.Middleware {
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
 		response := next(request)
+		if response == nil {
+			// the handler has nothing to say, so the default response is going to be sent
+			response = request.Respond()
+		}
+
 		if response.Reveal().Code == status.CloseConnection {
 			return response
 		}
diff --git a/router/inbuilt/middleware/serverheader.go b/router/inbuilt/middleware/serverheader.go
index 72898ff..701fc31 100644
--- a/router/inbuilt/middleware/serverheader.go
+++ b/router/inbuilt/middleware/serverheader.go
@@ -15,7 +15,12 @@ func ServerHeader(customHeaders ...string) inbuilt.Middleware {
 	}
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		return next(request).
-			Header("Server", value)
+		response := next(request)
+		if response == nil {
+			// the handler has nothing to say, so the default response is going to be sent
+			response = request.Respond()
+		}
+
+		return response.Header("Server", value)
 	}
 }
-- 
2.43.0


From 7db0ed748c5ea89b3b46c5028df6acc262f7b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:05 +0000
Subject: [PATCH 44/62] fix: automatic HTTPS does not recognize IPv6 addresses
 as local

The host was taken to end at the first colon, so [::1]:443 was neither
an IP address nor localhost.
---
 internal/address/address.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/address/address.go b/internal/address/address.go
index 337e907..e1c1077 100644
--- a/internal/address/address.go
+++ b/internal/address/address.go
@@ -25,10 +25,11 @@ func IsIP(addr string) bool {
 }
 
 func stripPort(addr string) string {
-	colon := strings.IndexByte(addr, ':')
-	if colon != -1 {
-		return addr[:colon]
+	host, _, err := net.SplitHostPort(addr)
+	if err != nil {
+		// no port is presented
+		return addr
 	}
 
-	return addr
+	return host
 }
-- 
2.43.0


From 5f58b6f7fec155644a87f0af10cb9c59f553fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 45/62] fix: http.Escape leaves no raw bytes of multi-byte
 characters

Ranging over the string steps over whole runes, so that all the bytes of a
multi-byte character but the first one were copied as they are.
---
 http/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/path.go b/http/path.go
index a57c967..f767b64 100644
--- a/http/path.go
+++ b/http/path.go
@@ -10,7 +10,7 @@ func Escape(p Path) string {
 		offset int
 	)
 
-	for i := range p {
+	for i := 0; i < len(p); i++ {
 		if !isASCIIPrintable(p[i]) {
 			if buff == nil {
 				buff = allocBuff(len(p))
-- 
2.43.0


From e34575bd4c62e24328e637a1a2ef2216ed2b3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 46/62] fix: HTTPSOnly escapes the path in the Location header

request.Path is percent-decoded, so /%0d%0aSet-Cookie:%20a=b resulted in
an extra response header chosen by the client.
---
 router/inbuilt/middleware/httpsonly.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 727d97b..7913314 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -5,6 +5,7 @@ import (
 	"github.com/indigo-web/indigo/http/encryption"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/router/inbuilt"
+	"net/url"
 	"strings"
 )
 
@@ -39,12 +40,14 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 		}
 
 		host += ":" + params.Port
+		path := request.Path
 		if len(request.Env.AliasFrom) > 0 {
-			host += request.Env.AliasFrom
-		} else {
-			host += request.Path
+			path = request.Env.AliasFrom
 		}
 
+		// the path is already decoded, so it may contain just anything, including line breaks
+		host += (&url.URL{Path: path}).EscapedPath()
+
 		return request.Respond().
 			Code(status.MovedPermanently).
 			Header("Location", "https://"+host)
-- 
2.43.0


From cc5c9c2ca12bc993944829a5eaa4caf73d1dd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 47/62] fix: HTTPSOnly keeps IPv6 hosts whole

---
 router/inbuilt/middleware/httpsonly.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 7913314..b64dc09 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -55,8 +55,11 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 }
 
 func removePort(str string) string {
-	if colon := strings.IndexByte(str, ':'); colon != -1 {
-		return str[:colon]
+	// colons inside of the brackets belong to an IPv6 address
+	bracket := strings.IndexByte(str, ']') + 1
+
+	if colon := strings.IndexByte(str[bracket:], ':'); colon != -1 {
+		return str[:bracket+colon]
 	}
 
 	return str
-- 
2.43.0


From 5ba9e4970befd3b80692a88bbd5e03a0f151404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:45 +0000
Subject: [PATCH 48/62] fix: keyvalue.Storage.Clone must not refer to the
 reused buffers

---
 internal/keyvalue/storage.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/keyvalue/storage.go b/internal/keyvalue/storage.go
index 0cff996..a6d514b 100644
--- a/internal/keyvalue/storage.go
+++ b/internal/keyvalue/storage.go
@@ -3,6 +3,7 @@ package keyvalue
 import (
 	"github.com/indigo-web/iter"
 	"github.com/indigo-web/utils/strcomp"
+	"strings"
 )
 
 type Pair struct {
@@ -147,8 +148,18 @@ func (s *Storage) Len() int {
 // Clone creates a deep copy, which may be used later or stored somewhere safely. However,
 // it comes at cost of multiple allocations
 func (s *Storage) Clone() *Storage {
+	pairs := clone(s.pairs)
+
+	for i, pair := range pairs {
+		// the strings usually refer to buffers, which are going to be reused
+		pairs[i] = Pair{
+			Key:   strings.Clone(pair.Key),
+			Value: strings.Clone(pair.Value),
+		}
+	}
+
 	return &Storage{
-		pairs:      clone(s.pairs),
+		pairs:      pairs,
 		uniqueBuff: clone(s.uniqueBuff),
 		valuesBuff: clone(s.valuesBuff),
 	}
-- 
2.43.0


From 8339f461aa5ed7d715b3664c500b46d545746897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:30 +0000
Subject: [PATCH 49/62] fix: writing to a response changes memory of the slice
 given as its body

---
 http/response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/response.go b/http/response.go
index 46d897e..96e3799 100644
--- a/http/response.go
+++ b/http/response.go
@@ -112,7 +112,8 @@ func (r *Response) String(body string) *Response {
 // Bytes sets the response's body to passed slice WITHOUT COPYING. Changing
 // the passed slice later will affect the response by itself
 func (r *Response) Bytes(body []byte) *Response {
-	r.fields.Body = body
+	// appending to the body must not get into the memory of the user
+	r.fields.Body = body[:len(body):len(body)]
 	return r
 }
 
-- 
2.43.0


From 5cd57ba60e7011e4db6891cdd81a0f0843a705cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:54 +0000
Subject: [PATCH 50/62] fix: automatic HTTPS negotiates the protocol domain
 validation needs

The certificate authority validates domains over TLS by acme-tls/1, which was never
negotiated, so no certificate for a public domain could ever be obtained.
---
 https.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/https.go b/https.go
index c00a7d8..22f56c8 100644
--- a/https.go
+++ b/https.go
@@ -7,6 +7,7 @@ import (
 	"crypto/x509"
 	"crypto/x509/pkix"
 	"encoding/pem"
+	"golang.org/x/crypto/acme"
 	"golang.org/x/crypto/acme/autocert"
 	"log"
 	"math/big"
@@ -79,6 +80,8 @@ func autoTLSListener(domains ...string) listenerFactory {
 
 		cfg := &tls.Config{
 			GetCertificate: m.GetCertificate,
+			// without the ACME protocol, the certificate authority can't validate the domains
+			NextProtos: []string{"http/1.1", acme.ALPNProto},
 		}
 
 		return tls.Listen(network, addr, cfg)
-- 
2.43.0


From 108a1f43d18baa631d0655e51e0691b5d60f3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:12 +0000
Subject: [PATCH 51/62] fix: refuse requests whose transfer codings don't end
 with chunked

---
 internal/protocol/http1/parser.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 6817fa0..18a07a3 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -216,9 +216,7 @@ headerKey:
 		if headerKeyBuff.SegmentLength() == 0 {
 			switch data[0] {
 			case '\n':
-				p.cleanup()
-
-				return HeadersCompleted, data[1:], nil
+				return p.complete(data[1:])
 			case '\r':
 				data = data[1:]
 				goto headerValueCRLFCR
@@ -454,14 +452,24 @@ headerValueCRLFCR:
 	}
 
 	if data[0] == '\n' {
-		p.cleanup()
-
-		return HeadersCompleted, data[1:], nil
+		return p.complete(data[1:])
 	}
 
 	return Error, nil, status.ErrBadRequest
 }
 
+func (p *Parser) complete(extra []byte) (state requestState, rest []byte, err error) {
+	transfer := p.request.Encoding.Transfer
+	if len(transfer) > 0 && !strcomp.EqualFold(transfer[len(transfer)-1], "chunked") {
+		// where the body ends can't be determined, so nothing following can be trusted
+		return Error, nil, status.ErrBadRequest
+	}
+
+	p.cleanup()
+
+	return HeadersCompleted, extra, nil
+}
+
 func (p *Parser) cleanup() {
 	p.headersNumber = 0
 	p.startLineBuff.Clear()
-- 
2.43.0


From c00d2dafedcb343d151b16ea318e204f3ad4d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:17 +0000
Subject: [PATCH 52/62] fix: refuse route templates with an unclosed dynamic
 part

---
 router/inbuilt/internal/radix/template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 55c54bf..cf76ee2 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -97,6 +97,10 @@ func Parse(tmpl string) (Template, error) {
 		}
 	}
 
+	if state == eDynamic {
+		return template, fmt.Errorf(`"%s": dynamic part is not closed`, tmpl)
+	}
+
 	if state == eStatic && offset < len(tmpl) {
 		template.segments = append(template.segments, Segment{
 			IsWildcard: false,
-- 
2.43.0


From dd1512feea3acab7ee9bfaba89a6de375a3d8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:35 +0000
Subject: [PATCH 53/62] fix: refuse header values with CR or NUL inside

---
 internal/protocol/http1/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 18a07a3..a394ea7 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -382,6 +382,11 @@ headerValue:
 			value = value[:len(value)-1]
 		}
 
+		if strings.IndexByte(value, '\r') != -1 || strings.IndexByte(value, 0) != -1 {
+			// others may take them for the end of the line or of the value
+			return Error, nil, status.ErrBadRequest
+		}
+
 		key := p.headerKey
 		request.Headers.Add(key, value)
 
-- 
2.43.0


From c685f2f0c2dddd874fb7597acab06dca3d340566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:58 +0000
Subject: [PATCH 54/62] fix: several Connection lines form a single list

---
 internal/protocol/http1/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index a394ea7..77a860b 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -406,6 +406,11 @@ headerValue:
 			if cConnecti == encodeU64(
 				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
 			) && cOn == encodeU16(key[8]|0x20, key[9]|0x20) {
+				if len(request.Connection) > 0 {
+					// several lines form a single list
+					value = request.Connection + "," + value
+				}
+
 				request.Connection = value
 			}
 		case 12:
-- 
2.43.0


From 6a551d79622fb31abb3ed1ea5c0dbd69210db26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 55/62] fix: several Upgrade lines form a single list

---
 internal/protocol/http1/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 77a860b..dafb2ab 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -398,7 +398,10 @@ headerValue:
 
 			switch encoded {
 			case cUpgrade:
-				request.Upgrade = proto.ChooseUpgrade(value)
+				if request.Upgrade == proto.Unknown {
+					// several lines form a single list
+					request.Upgrade = proto.ChooseUpgrade(value)
+				}
 			case cTrailer:
 				request.Encoding.HasTrailer = true
 			}
-- 
2.43.0


From 5856cbbcd5855a08a20b4e1b9d36c42f9d7ad2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:15 +0000
Subject: [PATCH 56/62] fix: spaces and tabs around a header value aren't part
 of it

---
 internal/protocol/http1/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index dafb2ab..93d7b30 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -281,7 +281,7 @@ headerKey:
 
 contentLength:
 	for i, char := range data {
-		if char == ' ' {
+		if char == ' ' || char == '\t' {
 			if p.contentLengthState == eDigits {
 				p.contentLengthState = eTrailingSpaces
 			}
@@ -382,6 +382,8 @@ headerValue:
 			value = value[:len(value)-1]
 		}
 
+		value = strings.TrimRight(value, " \t")
+
 		if strings.IndexByte(value, '\r') != -1 || strings.IndexByte(value, 0) != -1 {
 			// others may take them for the end of the line or of the value
 			return Error, nil, status.ErrBadRequest
@@ -538,7 +540,7 @@ func isHeaderKey(key []byte) bool {
 
 func trimPrefixSpaces(b []byte) []byte {
 	for i, char := range b {
-		if char != ' ' {
+		if char != ' ' && char != '\t' {
 			return b[i:]
 		}
 	}
-- 
2.43.0


From 911f5b32bd88f4522eecd9246f57c314c3ff53b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:05 +0000
Subject: [PATCH 57/62] fix: data left by Read isn't lost for other ways of
 reading the body

---
 internal/protocol/http1/body.go | 9 +++++++++
 internal/stash/reader.go        | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index b3efc17..25f9302 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -62,6 +62,8 @@ func (b *Body) String() (string, error) {
 
 func (b *Body) Bytes() ([]byte, error) {
 	if b.eof {
+		// everything is received, however something may be left by the Read
+		b.fullBodyBuff = append(b.fullBodyBuff, b.Reader.Take()...)
 		return b.fullBodyBuff, nil
 	}
 
@@ -106,6 +108,11 @@ func (b *Body) Callback(cb http.OnBodyCallback) error {
 }
 
 func (b *Body) Retrieve() ([]byte, error) {
+	if pending := b.Reader.Take(); len(pending) > 0 {
+		// left by the Read
+		return pending, nil
+	}
+
 	if b.eof {
 		return nil, io.EOF
 	}
@@ -131,6 +138,8 @@ func (b *Body) Retrieve() ([]byte, error) {
 }
 
 func (b *Body) Discard() (err error) {
+	b.Reader.Take()
+
 	for !b.eof {
 		_, err = b.Retrieve()
 		if err != nil {
diff --git a/internal/stash/reader.go b/internal/stash/reader.go
index d600559..53f0da9 100644
--- a/internal/stash/reader.go
+++ b/internal/stash/reader.go
@@ -34,6 +34,14 @@ func (r *Reader) refill() {
 	r.pending, r.error = r.source()
 }
 
+// Take returns the data that was retrieved from the source already, but isn't read yet
+func (r *Reader) Take() []byte {
+	pending := r.pending
+	r.pending = nil
+
+	return pending
+}
+
 func (r *Reader) Reset() {
 	r.pending = nil
 	r.error = nil
-- 
2.43.0


From 5a6a31844d923c4213ea7c3a0290fb2843714f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:34 +0000
Subject: [PATCH 58/62] fix: release streams of responses which aren't going to
 be sent

---
 internal/protocol/http1/suit.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 671a0cf..a1a003a 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -67,7 +67,7 @@ func (s *Suit) serve(once bool) (ok bool) {
 		if err != nil {
 			// read-error most probably means deadline exceeding. Just notify the user in
 			// this case and return
-			s.router.OnError(req, status.ErrCloseConnection)
+			release(s.router.OnError(req, status.ErrCloseConnection))
 			return false
 		}
 
@@ -94,19 +94,20 @@ func (s *Suit) serve(once bool) (ok bool) {
 
 			if req.WasHijacked() {
 				// in case the connection was hijacked, we must not intrude after, so fail fast
+				release(resp)
 				return false
 			}
 
 			if err = s.Write(version, resp); err != nil {
 				// if error happened during writing the response, it makes no sense to try
 				// to write anything again
-				s.router.OnError(req, status.ErrCloseConnection)
+				release(s.router.OnError(req, status.ErrCloseConnection))
 				return false
 			}
 
 			if err = req.Clear(); err != nil {
 				// abusing the fact that req.Clear() can fail only due to read error
-				s.router.OnError(req, status.ErrCloseConnection)
+				release(s.router.OnError(req, status.ErrCloseConnection))
 				return false
 			}
 		case Error:
@@ -133,6 +134,13 @@ func notNil(req *http.Request, resp *http.Response) *http.Response {
 	return http.Respond(req)
 }
 
+// release frees resources of the response, which isn't going to be sent
+func release(resp *http.Response) {
+	if resp != nil {
+		resp.Reveal().Attachment.Close()
+	}
+}
+
 func trimLast(s string) string {
 	if len(s) == 0 {
 		return s
-- 
2.43.0


From d22c5242215dd83a277ed78f85fd8a91c14dbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 59/62] fix: never send bodies of responses which can't have
 them

---
 internal/protocol/http1/serializer.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index d7c882a..26985ab 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -96,7 +96,11 @@ func (d *Serializer) Write(
 	fields := response.Reveal()
 	d.renderResponseLine(fields)
 
-	if fields.Attachment.Content() != nil {
+	noBody := isBodyless(fields.Code)
+
+	if noBody {
+		fields.Attachment.Close()
+	} else if fields.Attachment.Content() != nil {
 		if err = d.sendAttachment(protocol, d.request, response, d.writer); err != nil {
 			return err
 		}
@@ -106,10 +110,14 @@ func (d *Serializer) Write(
 
 	d.renderHeaders(fields)
 	d.renderCookies(fields)
-	d.renderContentLength(int64(len(fields.Body)))
+
+	if !noBody {
+		d.renderContentLength(int64(len(fields.Body)))
+	}
+
 	d.crlf()
 
-	if d.request.Method != method.HEAD {
+	if d.request.Method != method.HEAD && !noBody {
 		// HEAD request responses must be similar to GET request responses, except
 		// forced lack of body, even if Content-Length is specified
 		d.buff = append(d.buff, fields.Body...)
@@ -418,6 +426,12 @@ func (d *Serializer) clear() {
 	d.defaultHeaders.Reset()
 }
 
+// isBodyless tells, whether the response never has a body, no matter what is set. Clients
+// treat everything after its headers as the next response
+func isBodyless(code status.Code) bool {
+	return code/100 == 1 || code == status.NoContent || code == status.NotModified
+}
+
 func isKeepAlive(protocol proto.Proto, req *http.Request) bool {
 	if hasToken(req.Connection, "close") {
 		return false
-- 
2.43.0


From 7eec29d59df7aeedf18e5981371a10f7adf9e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 60/62] fix: use the configured size of the file buffer

Config.HTTP.FileBuffSize had no effect: streams and files were read with a buffer of
Config.HTTP.ResponseBuffSize bytes.
---
 internal/protocol/http1/suit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index a1a003a..ffad78a 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -46,7 +46,7 @@ func Initialize(cfg config.Config, r router.Router, client tcp.Client, req *http
 
 	return New(
 		cfg, r, req, client, keyBuff, valBuff, startLineBuff,
-		respBuff, cfg.HTTP.ResponseBuffSize, cfg.Headers.Default,
+		respBuff, cfg.HTTP.FileBuffSize, cfg.Headers.Default,
 	)
 }
 
-- 
2.43.0


From 0bf75b22fdaca2d4c90f4db53b543861ac4ad06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:32 +0000
Subject: [PATCH 61/62] fix: accept JSON whose content type has parameters or
 is written in another case

---
 http/request.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/http/request.go b/http/request.go
index 90d2ae1..d43a34c 100644
--- a/http/request.go
+++ b/http/request.go
@@ -13,8 +13,10 @@ import (
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/tcp"
+	"github.com/indigo-web/utils/strcomp"
 	json "github.com/json-iterator/go"
 	"net"
+	"strings"
 )
 
 var zeroContext = context.Background()
@@ -95,11 +97,12 @@ func NewRequest(
 }
 
 // JSON takes a model and returns an error if occurred. Model must be a pointer to a structure.
-// If Content-Type header is given, but is not "application/json", then status.ErrUnsupportedMediaType
-// will be returned. If JSON is malformed, or it doesn't match the model, then custom jsoniter error
+// If Content-Type header is given, but its media type is not "application/json", then
+// status.ErrUnsupportedMediaType will be returned. If JSON is malformed, or it doesn't match the model, then custom jsoniter error
 // will be returned
 func (r *Request) JSON(model any) error {
-	if len(r.ContentType) > 0 && r.ContentType != mime.JSON {
+	mediaType := strings.TrimSpace(headers.ValueOf(r.ContentType))
+	if len(r.ContentType) > 0 && !strcomp.EqualFold(mediaType, mime.JSON) {
 		return status.ErrUnsupportedMediaType
 	}
 
-- 
2.43.0


From 4ba420b9c32d1732859df8a773528c66ff64c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:25 +0000
Subject: [PATCH 62/62] fix: a router can't be used for several hosts or served
 again

---
 router/inbuilt/inbuilt.go   | 23 +++++++++++++++++++++++
 router/inbuilt/registrar.go |  8 ++++++++
 2 files changed, 31 insertions(+)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index 8b13b50..f5a174c 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -56,6 +56,9 @@ type runtimeRouter struct {
 }
 
 func (r *Router) Initialize() router.Router {
+	// one router may be initialized several times, e.g. if it's used for several hosts. So the
+	// routes, middlewares etc. must be left as they were registered
+	r = r.clone()
 	r.applyErrorHandlersMiddlewares()
 
 	if err := r.prepare(); err != nil {
@@ -180,6 +183,26 @@ func (r *runtimeRouter) retrieveErrorHandler(code status.Code) Handler {
 	return handler
 }
 
+// clone returns a copy of the router and of all its groups
+func (r *Router) clone() *Router {
+	cloned := *r
+	cloned.mutators = append([]Mutator(nil), r.mutators...)
+	cloned.catchers = append([]Catcher(nil), r.catchers...)
+	cloned.registrar = r.registrar.Clone()
+	cloned.children = make([]*Router, len(r.children))
+	cloned.errHandlers = make(errorHandlers, len(r.errHandlers))
+
+	for i, child := range r.children {
+		cloned.children[i] = child.clone()
+	}
+
+	for code, handler := range r.errHandlers {
+		cloned.errHandlers[code] = handler
+	}
+
+	return &cloned
+}
+
 func (r *Router) applyErrorHandlersMiddlewares() {
 	for code, handler := range r.errHandlers {
 		r.errHandlers[code] = compose(handler, r.middlewares)
diff --git a/router/inbuilt/registrar.go b/router/inbuilt/registrar.go
index 7aafc8d..bc18f3e 100644
--- a/router/inbuilt/registrar.go
+++ b/router/inbuilt/registrar.go
@@ -59,6 +59,14 @@ func (r *registrar) Merge(another *registrar) error {
 	return nil
 }
 
+func (r *registrar) Clone() *registrar {
+	cloned := newRegistrar()
+	// there's nothing to conflict with
+	_ = cloned.Merge(r)
+
+	return cloned
+}
+
 func (r *registrar) Apply(f func(handler Handler) Handler) {
 	for _, v := range r.routes {
 		for key, handler := range v {
-- 
2.43.0

