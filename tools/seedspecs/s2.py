HEAD = '''package demo

import (
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/router/inbuilt"
)

var _ = strings.Count
var _ = http.Respond

'''
SEEDS = [
dict(id="B06-eof-with-data", property="C20", lib=True,
 edits=[("internal/protocol/http1/serializer.go", "		n, err := r.Read(d.fileBuff[buffOffset : len(d.fileBuff)-crlfSize])\n\n		if n > 0 {", "		n, err := r.Read(d.fileBuff[buffOffset : len(d.fileBuff)-crlfSize])\n\n		if n > 0 && (err == nil || n > 1) {")],
 needs="a stream of unknown size whose last read returns a single byte together with io.EOF",
 breaks="the last byte of the stream is dropped while the chunked message is completed normally",
 test=HEAD.replace('"strings"', '"io"\n	"strings"') + '''
type oneByOne struct{ data string }

func (o *oneByOne) Read(b []byte) (int, error) {
	b[0] = o.data[0]
	if o.data = o.data[1:]; len(o.data) == 0 {
		return 1, io.EOF
	}
	return 1, nil
}

func TestDemo(t *testing.T) {
	r := inbuilt.New().Get("/", func(req *http.Request) *http.Response {
		return req.Respond().Attachment(&oneByOne{"abc"}, 0)
	})
	out := talk(config.Config{}, r, "GET / HTTP/1.1\\r\\n\\r\\n")
	if !strings.HasSuffix(out, "1\\r\\na\\r\\n1\\r\\nb\\r\\n1\\r\\nc\\r\\n0\\r\\n\\r\\n") {
		t.Fatal(out)
	}
}
'''),
dict(id="B07-head-leaks-file", property="C12", lib=True,
 edits=[("internal/protocol/http1/serializer.go", "	// no matter how far the response goes, the attachment must be released\n	defer fields.Attachment.Close()\n", ""),
  ("internal/protocol/http1/serializer.go", "		// HEAD requests MUST NOT contain response bodies. They are just like\n		// GET request, but without response entities\n		return nil\n	}\n", "		// HEAD requests MUST NOT contain response bodies. They are just like\n		// GET request, but without response entities\n		fields.Attachment.Close()\n		return nil\n	}\n\n	defer fields.Attachment.Close()\n")],
 needs="a write of the response head which fails because the client is gone",
 breaks="the file or stream of the response is never closed",
 test=HEAD.replace('"strings"', '"errors"\n	"strings"') + '''
type stream struct {
	*strings.Reader
	closed *int
}

func (s stream) Close() error { *s.closed++; return nil }

func TestDemo(t *testing.T) {
	closed := 0
	r := inbuilt.New().Get("/", func(req *http.Request) *http.Response {
		return req.Respond().Attachment(stream{strings.NewReader("abc"), &closed}, 3)
	})
	for i, m := range []string{"GET", "HEAD", "GET"} {
		closed = 0
		c := &conn{in: [][]byte{[]byte(m + " / HTTP/1.1\\r\\n\\r\\n")}, end: errors.New("reset")}
		if i == 2 {
			c.closed = 1 // every write fails
		}
		serve.HTTP1(config.Default(), c, encryption.Plain, r.Initialize())
		if closed != 1 {
			t.Fatalf("%d: closed %d times", i, closed)
		}
	}
}
'''),
dict(id="B09-drain-one-by-one", property="C10", place="internal/tcp", stubs=False,
 edits=[("internal/tcp/server.go", "	for _, server := range servers {\n		server.Pause()\n	}\n\n	WaitAll(servers)\n", "	for _, server := range servers {\n		server.Pause()\n		server.Wait()\n	}\n")],
 needs="two listeners, a client staying on the first one when the graceful stop is requested and another one connecting to the second meanwhile",
 breaks="the second listener keeps taking new connections until the clients of the first one are gone",
 test='''package tcp

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	hold := make(chan bool)
	served := make(chan int, 10)
	var socks []net.Listener
	var servers []*Server
	for i := 0; i < 2; i++ {
		i := i
		sock, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		defer sock.Close()
		srv := NewServer(sock, func(net.Conn) { served <- i; <-hold })
		go srv.Start()
		socks, servers = append(socks, sock), append(servers, srv)
	}
	first, err := net.Dial("tcp", socks[0].Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	defer first.Close()
	<-served
	done := make(chan bool)
	go func() { PauseAll(servers); close(done) }()
	time.Sleep(500 * time.Millisecond)
	second, err := net.Dial("tcp", socks[1].Addr().String())
	if err == nil {
		defer second.Close()
	}
	select {
	case i := <-served:
		t.Fatalf("listener %d takes connections after the stop", i)
	case <-time.After(500 * time.Millisecond):
	}
	close(hold)
	<-done
}
'''),
dict(id="B10-handler-inherited", property="C13", lib=True,
 edits=[("indi.go", "	servers := make([]*tcp.Server, 0, len(a.sources))\n\n	for _, src", "	servers := make([]*tcp.Server, 0, len(a.sources))\n	handler := a.newHTTPHandler(encryption.Plain)\n\n	for _, src"),
  ("indi.go", "		if src.Handler == nil {\n			src.Handler = a.newHTTPHandler(encryption.Plain)\n		}\n", "		if src.Handler != nil {\n			handler = src.Handler\n		}\n\n		serve := handler\n"),
  ("indi.go", "			src.Handler(conn, r)\n", "			serve(conn, r)\n")],
 needs="a listener with its own handler registered before one without",
 breaks="the later listener is served by the handler of the earlier one",
 test='''package demo

import (
	"bufio"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/simple"
)

func TestDemo(t *testing.T) {
	var socks []net.Listener
	listen := func(string, string) (net.Listener, error) {
		sock, err := net.Listen("tcp", "127.0.0.1:0")
		socks = append(socks, sock)
		return sock, err
	}
	app := indigo.New("127.0.0.1:0").
		Listen("b:1", indigo.Listener{Listen: listen, Handler: func(conn net.Conn, _ router.Router) {
			_, _ = conn.Write([]byte("custom\\n"))
		}}).
		Listen("c:1", indigo.Listener{Listen: listen})
	started := make(chan bool)
	app.OnStart(func() { close(started) })
	r := simple.New(http.Respond, http.Respond)
	end := make(chan error)
	go func() { end <- app.Serve(r) }()
	<-started
	first := func(sock net.Listener) string {
		c, err := net.Dial("tcp", sock.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		_ = c.SetDeadline(time.Now().Add(5 * time.Second))
		_, _ = c.Write([]byte("GET / HTTP/1.1\\r\\nConnection: close\\r\\n\\r\\n"))
		line, _ := bufio.NewReader(c).ReadString('\\n')
		return strings.TrimSpace(line)
	}
	if got := first(socks[0]); got != "custom" {
		t.Fatal(got)
	}
	if got := first(socks[1]); got != "HTTP/1.1 200 OK" {
		t.Fatal(got)
	}
	app.Stop()
	<-end
}
'''),
dict(id="B11-hijack-chunked", property="C14", lib=True,
 edits=[("http/request.go", "func (r *Request) Hijack() (tcp.Client, error) {\n	if err := r.Body.Discard(); err != nil {\n		return nil, err\n	}\n", "func (r *Request) Hijack() (tcp.Client, error) {\n	// usually there is no body at all\n	if r.ContentLength > 0 {\n		if err := r.Body.Discard(); err != nil {\n			return nil, err\n		}\n	}\n")],
 needs="hijacking a request with an unread chunked body",
 breaks="the handler receives the rest of the request's body as if it followed the request",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	for _, body := range []string{"\\r\\n", "Content-Length: 3\\r\\n\\r\\nabc", "Transfer-Encoding: chunked\\r\\n\\r\\n3\\r\\nabc\\r\\n0\\r\\n\\r\\n"} {
		got := ""
		r := inbuilt.New().Post("/", func(req *http.Request) *http.Response {
			client, err := req.Hijack()
			if err != nil {
				t.Error(err)
				return nil
			}
			for {
				data, err := client.Read()
				got += string(data)
				if err != nil {
					return nil
				}
			}
		})
		talk(config.Config{}, r, "POST / HTTP/1.1\\r\\n"+body+"after")
		if got != "after" {
			t.Fatalf("%q: %q", body, got)
		}
	}
}
'''),
dict(id="B12-keeps-old-key", property="C15", place=".", stubs=True,
 edits=[("https.go", "	keyFile, err := os.Create(keyFilename)\n	if err != nil {\n		return \"\", \"\", err\n	}\n	defer keyFile.Close()\n", "	if old, err := os.ReadFile(keyFilename); err == nil && len(old) > 0 {\n		if block, _ := pem.Decode(old); block != nil {\n			// a valid key is never overwritten\n			return certFilename, keyFilename, nil\n		}\n	}\n\n	keyFile, err := os.Create(keyFilename)\n	if err != nil {\n		return \"\", \"\", err\n	}\n	defer keyFile.Close()\n")],
 needs="an earlier start interrupted after the certificate was replaced and before the key was (or a lost certificate beside an intact key)",
 breaks="the new certificate never matches the old key, so HTTPS does not come up, now and on all later starts",
 test='''package indigo

import (
	"crypto/tls"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	t.Setenv("XDG_CACHE_HOME", t.TempDir())
	cert, key, err := generateSelfSignedCert()
	if err != nil {
		t.Fatal(err)
	}
	if _, err = tls.LoadX509KeyPair(cert, key); err != nil {
		t.Fatal(err)
	}
	if err = os.WriteFile(cert, nil, 0600); err != nil { // torn by a crash
		t.Fatal(err)
	}
	if cert, key, err = generateSelfSignedCert(); err != nil {
		t.Fatal(err)
	}
	if _, err = tls.LoadX509KeyPair(cert, key); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="B13-sixteen-slots", property="C22", place="internal/tcp", stubs=False,
 edits=[("internal/tcp/server.go", "		go s.connHandler(conn)\n", "		slots <- struct{}{}\n		go func() {\n			s.connHandler(conn)\n			<-slots\n		}()\n"),
  ("internal/tcp/server.go", "	for !s.isShutdown() {\n		conn, err := s.sock.Accept()", "	//\n	// the number of goroutines is bounded in order to survive spikes\n	slots := make(chan struct{}, 16)\n	for !s.isShutdown() {\n		conn, err := s.sock.Accept()")],
 needs="sixteen connections which stay open, and one more client",
 breaks="the seventeenth client is not served until one of the others leaves",
 test='''package tcp

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	sock, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer sock.Close()
	served, hold := make(chan bool, 100), make(chan bool)
	srv := NewServer(sock, func(net.Conn) { served <- true; <-hold })
	go srv.Start()
	defer close(hold)
	for i := 0; i < 40; i++ {
		c, err := net.Dial("tcp", sock.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		select {
		case <-served:
		case <-time.After(3 * time.Second):
			t.Fatalf("client %d isn't served", i)
		}
	}
}
'''),
dict(id="B14-status-text-sticks", property="C04", lib=True,
 edits=[("internal/response/fields.go", "	f.Status = \"\"\n", "")],
 needs="an exchange with a custom status text followed by another one with the same connection",
 breaks="the custom status text of an earlier response is shown in later ones",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	r := inbuilt.New().
		Get("/a", func(req *http.Request) *http.Response { return req.Respond().Status("Wow") }).
		Get("/b", func(req *http.Request) *http.Response { return req.Respond() })
	out := talk(config.Config{}, r, "GET /a HTTP/1.1\\r\\n\\r\\n", "GET /b HTTP/1.1\\r\\n\\r\\n")
	if !strings.HasPrefix(out, "HTTP/1.1 200 Wow\\r\\n") || strings.Count(out, "Wow") != 1 || !strings.Contains(out, "HTTP/1.1 200 OK\\r\\n") {
		t.Fatal(out)
	}
}
'''),
dict(id="B15-chunk-total", property="C07", lib=True,
 edits=[("internal/protocol/http1/body.go", "	c.encoding = request.Encoding\n	c.received = 0\n", "	c.encoding = request.Encoding\n"),
  ("internal/protocol/http1/body.go", "	c.received = received\n	client.Unread(extra)\n", "	if c.received = received; err == io.EOF && len(extra) == 0 {\n		// the body is complete\n		c.received = 0\n	}\n	client.Unread(extra)\n")],
 needs="pipelined chunked requests whose bodies exceed the limit only together",
 breaks="a request within the limits is refused because of what was received before",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	r := inbuilt.New().Post("/", func(req *http.Request) *http.Response {
		body, err := req.Body.String()
		if err != nil {
			return http.Error(req, err)
		}
		return http.String(req, "<"+body+">")
	})
	cfg := config.Default()
	cfg.Body.MaxSize = 8
	one := "POST / HTTP/1.1\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n6\\r\\nabcdef\\r\\n0\\r\\n\\r\\n"
	for _, pieces := range [][]string{{one, one, one}, {one + one + one}} {
		if out := talk(cfg, r, pieces...); strings.Count(out, "<abcdef>") != 3 {
			t.Fatal(out)
		}
	}
}
'''),
dict(id="B16-length-restarts", property="C01", lib=True,
 edits=[("internal/protocol/http1/parser.go", "contentLength:\n	for i, char := range data {\n", "contentLength:\n	if p.contentLengthState != eTrailingSpaces {\n		p.contentLength = 0\n	}\n\n	for i, char := range data {\n")],
 needs="a Content-Length value cut between two of its digits",
 breaks="only the digits of the last piece are taken for the length",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	r := inbuilt.New().Post("/", func(req *http.Request) *http.Response {
		body, err := req.Body.String()
		if err != nil {
			return http.Error(req, err)
		}
		return http.String(req, "<"+body+">")
	})
	text := "POST / HTTP/1.1\\r\\nContent-Length: 12\\r\\n\\r\\nabcdefghijkl"
	for i := 1; i < len(text); i++ {
		if out := talk(config.Config{}, r, text[:i], text[i:]); !strings.HasSuffix(out, "<abcdefghijkl>") {
			t.Fatalf("%d: %s", i, out)
		}
	}
}
'''),
dict(id="B17-pipelined-after-chunked", property="C02", lib=True,
 edits=[("internal/protocol/http1/body.go", "	client.Unread(extra)\n\n	return chunk, err\n", "	if err == nil || len(chunk) > 0 {\n		client.Unread(extra)\n	}\n\n	return chunk, err\n")],
 needs="a request pipelined behind a chunked one in the same read as its last chunk's end",
 breaks="the pipelined request is lost and never answered",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	r := inbuilt.New().Post("/", http.Respond).Get("/", http.Respond)
	out := talk(config.Config{}, r, "POST / HTTP/1.1\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n3\\r\\nabc\\r\\n0\\r\\n\\r\\nGET / HTTP/1.1\\r\\n\\r\\n")
	if strings.Count(out, "HTTP/1.1 200 OK") != 2 {
		t.Fatal(out)
	}
}
'''),
dict(id="B18-name-ends-with-dot", property="C08", lib=True,
 edits=[("router/inbuilt/static.go", "		path = path[dot+1:]\n", "		// the next character isn't a dot\n		path = path[dot+2:]\n")],
 needs="a request for a static file whose name ends with a dot",
 breaks="the serving goroutine panics, which ends the whole process",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	r := inbuilt.New().Static("/static", t.TempDir())
	for _, name := range []string{"a", "a.b", "a.", ".", "./", "a.b.c."} {
		if out := talk(config.Config{}, r, "GET /static/"+name+" HTTP/1.1\\r\\n\\r\\n"); !strings.HasPrefix(out, "HTTP/1.1 404 ") {
			t.Fatalf("%s: %s", name, out)
		}
	}
}
'''),
dict(id="B19-host-remembered", property="C18", lib=True,
 edits=[("router/virtual/virtual.go", "	for _, virtRouter := range r.routers {\n		if strcomp.EqualFold(virtRouter.Domain, host) {\n			return virtRouter.Router, nil\n		}\n	}\n", "	// usually everybody visits the same host\n	if last := r.last; last != nil && strcomp.EqualFold(last.Domain, host[:min(len(host), len(last.Domain))]) {\n		return last.Router, nil\n	}\n\n	for i, virtRouter := range r.routers {\n		if strcomp.EqualFold(virtRouter.Domain, host) {\n			r.last = &r.routers[i]\n			return virtRouter.Router, nil\n		}\n	}\n"),
  ("router/virtual/virtual.go", "type runtimeRouter struct {\n	routers       []virtualRouter\n	defaultRouter router.Router\n}\n", "type runtimeRouter struct {\n	routers       []virtualRouter\n	defaultRouter router.Router\n	// last is the recently requested router\n	last *virtualRouter\n}\n\nfunc min(a, b int) int {\n	if a < b {\n		return a\n	}\n\n	return b\n}\n")],
 needs="two hosts one of which begins with the other, and a request for the shorter one before that for the longer one",
 breaks="the request goes to the router of another host, depending on what was requested before by anybody",
 test='''package demo

import (
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/virtual"
)

func TestDemo(t *testing.T) {
	answer := func(text string) *inbuilt.Router {
		return inbuilt.New().Get("/", func(req *http.Request) *http.Response { return http.String(req, "<"+text+">") })
	}
	r := virtual.New().Host("a.com", answer("short")).Host("a.com.ua", answer("long"))
	out := talk(config.Config{}, r, "GET / HTTP/1.1\\r\\nHost: a.com\\r\\n\\r\\n", "GET / HTTP/1.1\\r\\nHost: a.com.ua\\r\\n\\r\\n")
	if !strings.Contains(out, "<short>") || !strings.Contains(out, "<long>") {
		t.Fatal(out)
	}
}
'''),
dict(id="B20-percent-at-start", property="C21", place="internal/uridecode", stubs=False,
 edits=[("internal/uridecode/decoder.go", "		if i >= len(src)-2 {\n			return nil, status.ErrURIDecoding\n		}\n", "		if i >= len(src)-2 {\n			if i > 0 && i == len(src)-1 && len(buff) > 0 {\n				// nothing to decode\n				break\n			}\n\n			return nil, status.ErrURIDecoding\n		}\n")],
 needs="a bare percent sign at the end of a path which contains a valid escape before it",
 breaks="an invalid escape is accepted",
 test='''package uridecode

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"%", "a%", "%20%", "%20a%", "a%20a%2", "%zz", "%20%z0"} {
		if _, err := Decode([]byte(s), make([]byte, 0, 100)); err == nil {
			t.Fatalf("%q is accepted", s)
		}
	}
}
'''),
dict(id="B21-extension-case", property="C17", lib=True,
 edits=[("http/response.go", "	r.fields.ContentType = mime.Extension[filepath.Ext(path)]\n	if len(r.fields.ContentType) == 0 {\n		r.fields.ContentType = defaultFileMIME\n	}\n", "	if contentType, found := mime.Extension[filepath.Ext(path)]; found {\n		r.fields.ContentType = contentType\n	} else if len(r.fields.ContentType) == 0 {\n		r.fields.ContentType = defaultFileMIME\n	}\n")],
 needs="a static file with an unknown extension",
 breaks="the file is sent with the type of ordinary responses instead of the type of its own",
 test=HEAD.replace('"strings"', '"os"\n	"strings"') + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	for name, kind := range map[string]string{"a.html": "text/html", "b.zzz": "application/octet-stream", "c": "application/octet-stream"} {
		_ = os.WriteFile(dir+"/"+name, []byte("x"), 0600)
		r := inbuilt.New().Static("/static", dir)
		if out := talk(config.Config{}, r, "GET /static/"+name+" HTTP/1.1\\r\\n\\r\\n"); !strings.Contains(out, "Content-Type: "+kind) {
			t.Fatalf("%s: %s", name, out)
		}
	}
}
'''),
]
for s in SEEDS:
    if s["id"].startswith("B07"):
        s["test"] = s["test"].replace('	"github.com/indigo-web/indigo/http"\n', '	"github.com/indigo-web/indigo/http"\n	"github.com/indigo-web/indigo/http/encryption"\n	"github.com/indigo-web/indigo/http/serve"\n')
