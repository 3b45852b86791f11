HEAD = '''package demo

import (
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/router/inbuilt"
)

var _ = strings.Count
var _ = fmt.Sprint
var _ = io.EOF

'''
P = 'internal/protocol/http1/'
SEEDS = [
dict(id="B31-short-counter", property="C06", lib=True,
 edits=[(P+"body.go", "	client                tcp.Client\n	maxBodyLen, bytesLeft uint\n", "	client     tcp.Client\n	maxBodyLen uint\n	bytesLeft  uint32\n"),
  (P+"body.go", "	p.bytesLeft = uint(request.ContentLength)\n", "	p.bytesLeft = uint32(request.ContentLength)\n"),
  (P+"body.go", "	if p.bytesLeft > p.maxBodyLen {\n", "	if uint(p.bytesLeft) > p.maxBodyLen {\n"),
  (P+"body.go", "	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {\n", "	if dataLen := uint32(len(data)); dataLen >= p.bytesLeft {\n")],
 needs="a body longer than 4 GiB, allowed by the settings",
 breaks="the body ends after its length modulo 2^32 with no error, and its rest is taken for the next request",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	calls := 0
	r := inbuilt.New().Post("/", func(req *http.Request) *http.Response {
		calls++
		n := 0
		err := req.Body.Callback(func(b []byte) error { n += len(b); return nil })
		if err == nil {
			t.Errorf("a body of %d bytes ended well after %d", req.ContentLength, n)
		}
		return req.Respond()
	})
	cfg := config.Config{}
	cfg.Body.MaxSize = 1 << 40
	talk(cfg, r, fmt.Sprintf("POST / HTTP/1.1\\r\\nContent-Length: %d\\r\\n\\r\\nabc", 1<<32+3),
		"POST / HTTP/1.1\\r\\nContent-Length: 5\\r\\n\\r\\n")
	if calls != 1 {
		t.Fatal(calls)
	}
}
'''),
dict(id="B32-head-of-large", property="C03", lib=True,
 edits=[(P+"serializer.go", "		d.buff = append(d.buff, fields.Body...)\n	}\n\n	if err = d.writer.Write(d.buff); err != nil {\n		return err\n	}\n", "		if len(fields.Body) < copyLimit {\n			d.buff = append(d.buff, fields.Body...)\n		}\n	}\n\n	if err = d.writer.Write(d.buff); err != nil {\n		return err\n	}\n\n	if len(fields.Body) >= copyLimit && !noBody {\n		// too much to be copied\n		if err = d.writer.Write(fields.Body); err != nil {\n			return err\n		}\n	}\n"),
  (P+"serializer.go", "type Writer interface", "// copyLimit is the size from which bodies are written apart from the head\nconst copyLimit = 32 * 1024\n\ntype Writer interface")],
 needs="a HEAD request for a response with a body of at least 32 KiB",
 breaks="the body is sent, so the client takes it for the next response",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 100, 4096, 32*1024 - 1, 32 * 1024, 100000, 1 << 20} {
		body := strings.Repeat("x", n)
		r := inbuilt.New().Get("/", func(req *http.Request) *http.Response { return req.Respond().String(body) })
		out := talk(config.Config{}, r, "HEAD / HTTP/1.1\\r\\n\\r\\n", "GET / HTTP/1.1\\r\\n\\r\\n")
		if got := strings.Count(out, "x"); got != n {
			head := strings.Count(out[:strings.Index(out, "\\r\\n\\r\\n")], "x")
			if got != n+2*head {
				t.Fatalf("%d bytes of a body of %d", got, n)
			}
		}
	}
}
'''),
]
