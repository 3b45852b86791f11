SEEDS = [
dict(id="B01-stash-early-error", property="C06", place="internal/stash", stubs=False,
 edits=[("internal/stash/reader.go", "	if len(r.pending) == 0 && r.error != nil {\n		err = r.error\n	}", "	if r.error != nil && n < len(b) || len(r.pending) < cap(b)-n {\n		err = r.error\n	}")],
 needs="a body whose last piece comes together with its end, read through io.Reader with a buffer which ends inside that piece and whose capacity exceeds its length",
 breaks="the io.Reader adapter reports the end of the body while the last bytes are still pending",
 test='''package stash

import (
	"bytes"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 1; n < 40; n++ {
		body := bytes.Repeat([]byte("x"), n)
		for size := 1; size < 16; size++ {
			done := false
			r := New(func() ([]byte, error) {
				if done {
					return nil, io.EOF
				}
				done = true
				return append([]byte(nil), body...), io.EOF
			})
			var got []byte
			for i := 0; i < 1000; i++ {
				buff := make([]byte, size, 64)
				k, err := r.Read(buff)
				got = append(got, buff[:k]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					t.Fatal(err)
				}
			}
			if !bytes.Equal(got, body) {
				t.Fatalf("read %d bytes of %d with a buffer of %d", len(got), len(body), size)
			}
		}
	}
}
'''),
dict(id="B02-deadline-half", property="C09", place="internal/tcp", stubs=False,
 edits=[("internal/tcp/client.go", "	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {\n		return nil, err\n	}", "	// re-arming is a system call, so do it only when it matters\n	if now := time.Now(); now.Add(c.timeout / 2).After(c.deadline) {\n		c.deadline = now.Add(c.timeout)\n		if err := c.conn.SetReadDeadline(c.deadline); err != nil {\n			return nil, err\n		}\n	}"),
  ("internal/tcp/client.go", "	timeout time.Duration\n}", "	timeout time.Duration\n	// deadline of the current read\n	deadline time.Time\n}")],
 needs="two reads within half of the timeout followed by a gap which is shorter than the timeout but longer than what is left of the old deadline",
 breaks="an active client is disconnected although all of its gaps are shorter than the read timeout",
 test='''package tcp

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	c := NewClient(a, 800*time.Millisecond, make([]byte, 10))
	go func() {
		for _, gap := range []time.Duration{0, 300, 600, 300, 600} {
			time.Sleep(gap * time.Millisecond)
			_, _ = b.Write([]byte("x"))
		}
	}()
	for i := 0; i < 5; i++ {
		data, err := c.Read()
		if err != nil || string(data) != "x" {
			t.Fatalf("read %d: %q %v", i, data, err)
		}
	}
	start := time.Now()
	if _, err := c.Read(); err == nil {
		t.Fatal("silence is not noticed")
	}
	if d := time.Since(start); d < 700*time.Millisecond {
		t.Fatalf("disconnected after %s", d)
	}
}
'''),
dict(id="B03-done-before-close", property="C11", place="internal/tcp", stubs=False,
 edits=[("internal/tcp/server.go", "	s.onConn(conn)\n	_ = conn.Close()\n	s.wg.Done()\n", "	// panics of the handler must not make the shutdown hang\n	defer conn.Close()\n	defer s.wg.Done()\n	s.onConn(conn)\n")],
 needs="a connection handler suspended between releasing the wait group and closing its connection, while the stop is in progress",
 breaks="the stop callback runs and Serve returns while a client is still connected",
 test='''package tcp

import (
	"errors"
	"net"
	"testing"
	"time"
)

type oneListener struct {
	c chan net.Conn
}

func (l *oneListener) Accept() (net.Conn, error) {
	c, ok := <-l.c
	if !ok {
		return nil, errors.New("closed")
	}
	return c, nil
}
func (l *oneListener) Close() error   { close(l.c); return nil }
func (l *oneListener) Addr() net.Addr { return nil }

type slowClose struct {
	net.Conn
	closed chan struct{}
}

func (c *slowClose) Close() error {
	time.Sleep(200 * time.Millisecond)
	close(c.closed)
	return nil
}

func TestDemo(t *testing.T) {
	l := &oneListener{make(chan net.Conn)}
	served := make(chan struct{})
	s := NewServer(l, func(net.Conn) { close(served) })
	go func() { _ = s.Start() }()
	c := &slowClose{closed: make(chan struct{})}
	l.c <- c
	<-served
	StopAll([]*Server{s})
	select {
	case <-c.closed:
	default:
		t.Fatal("stopped while a connection is still open")
	}
}
'''),
dict(id="B04-upgrade-sticks", property="C19", lib=True,
 edits=[("http/request.go", "	r.Connection = \"\"\n	r.Upgrade = proto.Unknown\n", "	r.Connection = \"\"\n")],
 needs="an upgrading request followed by an ordinary one on the same connection",
 breaks="requests which do not ask for an upgrade are answered with 101 as well",
 test='''package demo

import (
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/router/simple"
)

func TestDemo(t *testing.T) {
	r := simple.New(http.Respond, func(req *http.Request) *http.Response { return http.Respond(req) })
	out := talk(config.Config{}, r,
		"GET / HTTP/1.1\\r\\nConnection: upgrade\\r\\nUpgrade: HTTP/1.0\\r\\n\\r\\n",
		"GET / HTTP/1.1\\r\\n\\r\\n",
	)
	if n := strings.Count(out, " 101 "); n != 1 {
		t.Fatalf("%d interim responses:\\n%s", n, out)
	}
	if n := strings.Count(out, " 200 "); n != 2 {
		t.Fatalf("%d responses:\\n%s", n, out)
	}
}
'''),
dict(id="B05-shared-params", property="C05", lib=True,
 edits=[("internal/construct/constructors.go", "	params := keyvalue.New()\n\n	return http.NewRequest(cfg, hdrs, q, resp, client, body, params)", "	return http.NewRequest(cfg, hdrs, q, resp, client, body, noParams)"),
  ("internal/construct/constructors.go", "func Request(cfg config.Config", "// most of the requests have no dynamic parameters, so don't allocate a storage for them\nvar noParams = keyvalue.New()\n\nfunc Request(cfg config.Config")],
 needs="two connections in dynamic routes at the same time, one of them being matched while the handler of the other one has not read its parameters yet",
 breaks="path parameters of one connection are seen by the handler of another one",
 test='''package demo

import (
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/router/inbuilt"
)

func TestDemo(t *testing.T) {
	inside, done := make(chan bool), make(chan bool)
	r := inbuilt.New().Get("/user/{name}", func(req *http.Request) *http.Response {
		if req.Path == "/user/slow" {
			inside <- true
			<-done
		}
		return http.String(req, "<"+req.Params.Value("name")+">")
	}).Initialize()
	slow := &conn{in: [][]byte{[]byte("GET /user/slow HTTP/1.1\\r\\n\\r\\n")}}
	end := make(chan bool)
	go func() {
		serve.HTTP1(config.Default(), slow, encryption.Plain, r)
		close(end)
	}()
	<-inside
	fast := &conn{in: [][]byte{[]byte("GET /user/fast HTTP/1.1\\r\\n\\r\\n")}}
	serve.HTTP1(config.Default(), fast, encryption.Plain, r)
	close(done)
	<-end
	if !strings.HasSuffix(string(fast.out), "<fast>") || !strings.HasSuffix(string(slow.out), "<slow>") {
		t.Fatalf("mixed up:\\n%s\\n%s", fast.out, slow.out)
	}
}
'''),
]
