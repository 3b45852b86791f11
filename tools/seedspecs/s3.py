import os
HEAD = '''package demo

import (
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/router/inbuilt"
)

var _ = strings.Count
var _ = http.Respond

'''
SEEDS = [
dict(id="B07-unclosed-on-failure", property="C12", lib=True,
 edits=[("internal/protocol/http1/serializer.go", "	// no matter how far the response goes, the attachment must be released\n	defer fields.Attachment.Close()\n", ""),
  ("internal/protocol/http1/serializer.go", "	if request.Method == method.HEAD {\n		// HEAD requests MUST NOT contain response bodies. They are just like\n		// GET request, but without response entities\n		return nil\n	}\n", "	defer fields.Attachment.Close()\n\n	// HEAD requests MUST NOT contain response bodies. They are just like\n	// GET request, but without response entities\n	if request.Method == method.HEAD {\n		return nil\n	}\n")],
 needs="a write of the response head which fails because the client is gone",
 breaks="the file or stream of the response is never closed",
 test=HEAD.replace('"strings"', '"errors"\n	"strings"').replace('	"github.com/indigo-web/indigo/http"\n', '	"github.com/indigo-web/indigo/http"\n	"github.com/indigo-web/indigo/http/encryption"\n	"github.com/indigo-web/indigo/http/serve"\n') + '''
type stream struct {
	*strings.Reader
	closed *int
}

func (s stream) Close() error { *s.closed++; return nil }

func TestDemo(t *testing.T) {
	closed := 0
	r := inbuilt.New().Get("/", func(req *http.Request) *http.Response {
		return req.Respond().Attachment(stream{strings.NewReader("abc"), &closed}, 3)
	})
	for i, m := range []string{"GET", "HEAD", "GET"} {
		closed = 0
		c := &conn{in: [][]byte{[]byte(m + " / HTTP/1.1\\r\\n\\r\\n")}, end: errors.New("reset")}
		if i == 2 {
			c.closed = 1 // every write fails
		}
		serve.HTTP1(config.Default(), c, encryption.Plain, r.Initialize())
		if closed != 1 {
			t.Fatalf("%d: closed %d times", i, closed)
		}
	}
}
'''),
dict(id="B08-full-node-hides-param", property="C16", lib=True,
 edits=[("router/inbuilt/internal/radix/tree.go", "	} else if n := node.statics.m[segment]; n != nil {\n		return n, true\n	}\n", "	} else {\n		n, found := node.statics.m[segment]\n		return n, found\n	}\n")],
 needs="more than thirty static siblings beside a parameter",
 breaks="requests for the parametrised route are answered with 404",
 test=HEAD.replace('"strings"', '"fmt"\n	"strings"') + '''
func TestDemo(t *testing.T) {
	for n := 1; n < 80; n++ {
		r := inbuilt.New().Get("/x/{id}", func(req *http.Request) *http.Response {
			return http.String(req, "dyn:"+req.Params.Value("id"))
		})
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("/x/s%d", i)
			r.Get(name, func(req *http.Request) *http.Response { return http.String(req, "<"+name+">") })
		}
		if out := talk(config.Config{}, r, "GET /x/other HTTP/1.1\\r\\n\\r\\n"); !strings.HasSuffix(out, "dyn:other") {
			t.Fatalf("%d routes: %s", n, out)
		}
	}
}
'''),
dict(id="B12-keeps-old-key", property="C15", place=".", stubs=True,
 edits=[("https.go", "	keyFile, err := os.Create(keyFilename)\n	if err != nil {\n		return \"\", \"\", err\n	}\n", "	// a private key must be neither readable by others nor overwritten\n	keyFile, err := os.OpenFile(keyFilename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)\n	if os.IsExist(err) {\n		return certFilename, keyFilename, nil\n	} else if err != nil {\n		return \"\", \"\", err\n	}\n")],
 needs="an earlier start interrupted while the files were written, or a lost certificate beside an intact key",
 breaks="the new certificate never matches the old key, so HTTPS does not come up, now and on all later starts",
 test='''package indigo

import (
	"crypto/tls"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	t.Setenv("XDG_CACHE_HOME", t.TempDir())
	cert, key, err := generateSelfSignedCert()
	if err != nil {
		t.Fatal(err)
	}
	if _, err = tls.LoadX509KeyPair(cert, key); err != nil {
		t.Fatal(err)
	}
	if err = os.WriteFile(cert, nil, 0600); err != nil { // torn by a crash
		t.Fatal(err)
	}
	if cert, key, err = generateSelfSignedCert(); err != nil {
		t.Fatal(err)
	}
	if _, err = tls.LoadX509KeyPair(cert, key); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="B16-value-not-copied", property="C01", lib=True,
 edits=[("internal/protocol/http1/parser.go", "		if !headerValueBuff.Append(data[:lf]) {\n			return Error, nil, status.ErrHeaderFieldsTooLarge\n		}\n\n		if headerValueBuff.SegmentLength() > p.headersCfg.MaxValueLength {\n			return Error, nil, status.ErrHeaderFieldsTooLarge\n		}\n\n		data = data[lf+1:]\n		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))\n",
  "		// a value received at once needn't be copied\n		rawValue := data[:lf]\n		if headerValueBuff.SegmentLength() > 0 {\n			if !headerValueBuff.Append(rawValue) {\n				return Error, nil, status.ErrHeaderFieldsTooLarge\n			}\n\n			rawValue = headerValueBuff.Finish()\n		}\n\n		if len(rawValue) > p.headersCfg.MaxValueLength {\n			return Error, nil, status.ErrHeaderFieldsTooLarge\n		}\n\n		data = data[lf+1:]\n		value := uf.B2S(trimPrefixSpaces(rawValue))\n")],
 needs="the header section arriving in several reads, so that the read buffer is filled again while earlier values are still referred to",
 breaks="values of earlier headers are replaced by bytes of what was received later",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	r := inbuilt.New().Get("/", func(req *http.Request) *http.Response {
		return http.String(req, "<"+req.Headers.Value("first")+"|"+req.Headers.Value("second")+">")
	})
	text := "GET / HTTP/1.1\\r\\nFirst: hello\\r\\nSecond: world-world-world-world-world\\r\\n\\r\\n"
	for i := 1; i < len(text); i++ {
		if out := talk(config.Config{}, r, text[:i], text[i:]); !strings.HasSuffix(out, "<hello|world-world-world-world-world>") {
			t.Fatalf("%d: %s", i, out)
		}
	}
}
'''),
dict(id="B20-lowercase-method", property="C21", place="http/method", stubs=False,
 edits=[("http/method/method.go", "		if str == \"PATCH\" {\n			return PATCH\n		} else if str == \"TRACE\" {\n			return TRACE\n		}\n", "		switch str[1:] {\n		case \"ATCH\":\n			return PATCH\n		case \"RACE\":\n			return TRACE\n		}\n")],
 needs="a five-letter method which differs from PATCH or TRACE in its first letter only",
 breaks="an unknown method is accepted",
 test='''package method

import "testing"

func TestDemo(t *testing.T) {
	for _, m := range List {
		for i := 0; i < len(m.String()); i++ {
			for c := 0; c < 256; c++ {
				b := []byte(m.String())
				if b[i] == byte(c) {
					continue
				}
				b[i] = byte(c)
				if got := Parse(string(b)); got != Unknown {
					t.Fatalf("%q is parsed as %s", b, got)
				}
			}
		}
	}
}
'''),
dict(id="B22-stash-short-buffer", property="C06", place="internal/stash", stubs=False,
 edits=[("internal/stash/reader.go", "	n = copy(b, r.pending)\n	r.pending = r.pending[n:]\n", "	if n = copy(b, r.pending); n < len(r.pending) {\n		r.pending = r.pending[n:]\n	} else if r.error == nil {\n		r.refill()\n	} else {\n		r.pending = nil\n	}\n")],
 needs="reading through io.Reader while more of the body is still to come: the next piece is fetched before the copied one is handed over, into the same connection buffer, and an error met then ends the body early",
 breaks="Read blocks for data the caller has not asked for, and delivers the end or an error of the stream together with an earlier piece although a later one is pending",
 test='''package stash

import (
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	calls := 0
	r := New(func() ([]byte, error) {
		calls++
		switch calls {
		case 1:
			return []byte("abc"), nil
		case 2:
			return []byte("def"), io.EOF
		}
		return nil, io.EOF
	})
	buff := make([]byte, 8)
	n, err := r.Read(buff)
	if string(buff[:n]) != "abc" || err != nil {
		t.Fatalf("%q %v", buff[:n], err)
	}
	if calls != 1 {
		t.Fatal("reads ahead: a handler answering the first piece would wait for the second for ever")
	}
	n, err = r.Read(buff)
	if string(buff[:n]) != "def" || err != io.EOF {
		t.Fatalf("%q %v", buff[:n], err)
	}
}
'''),
dict(id="B23-close-if-read", property="C12", place="internal/types", stubs=False,
 edits=[("internal/types/attachment.go", "	if closer, ok := a.content.(io.Closer); ok {\n		_ = closer.Close()\n	}\n", "	if closer, ok := a.content.(io.ReadCloser); ok && a.size != 0 {\n		_ = closer.Close()\n	}\n")],
 needs="an empty file (or a stream of unknown size, zero) sent as a response",
 breaks="its descriptor is never closed",
 test='''package types

import (
	"io"
	"strings"
	"testing"
)

type stream struct {
	io.Reader
	closed int
}

func (s *stream) Close() error { s.closed++; return nil }

func TestDemo(t *testing.T) {
	for _, size := range []int{-1, 0, 1, 3} {
		s := &stream{Reader: strings.NewReader("abc")}
		NewAttachment(s, size).Close()
		if s.closed != 1 {
			t.Fatalf("size %d: closed %d times", size, s.closed)
		}
	}
}
'''),
dict(id="B24-www-only", property="C18", place="router/virtual/internal/domain", stubs=False,
 edits=[("router/virtual/internal/domain/normalize.go", "	for i := len(domain) - 1; i >= 0; i-- {\n		if domain[i] == '.' {\n			break\n		} else if domain[i] == ':' {\n			switch port := domain[i+1:]; port {\n			case \"80\", \"443\":\n				// trim only default ports. Non-default must always be presented\n				domain = domain[:i]\n			}\n\n			break\n		}\n	}\n", "	// trim only default ports. Non-default must always be presented\n	for _, port := range [...]string{\":80\", \":443\"} {\n		domain = strings.TrimSuffix(domain, port)\n	}\n"),],
 needs="a host with two ports in a row, such as example.com:443:80",
 breaks="-", test='''package domain
import "testing"
func TestDemo(t *testing.T) {}
'''),
dict(id="B25-attachment-size", property="C20", lib=True,
 edits=[("http/response.go", "	return r.Attachment(fd, int(stat.Size())), nil\n", "	return r.Attachment(fd, int(int32(stat.Size()))), nil\n")],
 needs="a file of two gigabytes or more", breaks="-", test="package demo\n"),
]
SEEDS = [s for s in SEEDS if s["breaks"] != "-"]
