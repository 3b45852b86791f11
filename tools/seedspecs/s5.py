HEAD = '''package demo

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

var _ = strings.Count
var _ = http.Respond
var _ = fmt.Sprint
var _ sync.Mutex
var _ io.Reader
var _ = os.Open
var _ = filepath.Join
var _ = runtime.GC
var _ = encryption.Plain
var _ = serve.HTTP1
var _ router.Router
var _ = inbuilt.New

'''
P = 'internal/protocol/http1/'
SEEDS = [
dict(id="B27-pooled-too-early", property="C20", lib=True,
 edits=[(P+"serializer.go", "	d.buff = d.buff[:0]\n	d.defaultHeaders.Reset()\n", "	if len(d.fileBuff) > 0 {\n		// let others use it meanwhile\n		fileBuffs.Put(d.fileBuff)\n	}\n\n	d.buff = d.buff[:0]\n	d.defaultHeaders.Reset()\n"),
  (P+"serializer.go", "		d.fileBuff = make([]byte, d.fileBuffSize)\n", "		if buff, ok := fileBuffs.Get().([]byte); ok && len(buff) == d.fileBuffSize {\n			d.fileBuff = buff\n		} else {\n			d.fileBuff = make([]byte, d.fileBuffSize)\n		}\n"),
  (P+"serializer.go", "type Writer interface", "// fileBuffs holds buffers of connections which have sent their files\nvar fileBuffs sync.Pool\n\ntype Writer interface"),
  (P+"serializer.go", "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n")],
 needs="a connection which has sent a stream already and sends another one while a second connection sends its first one",
 breaks="the data of one stream appears in the other one",
 test=HEAD + '''
type stream func(b []byte) (int, error)

func (s stream) Read(b []byte) (int, error) { return s(b) }

func text(s string) stream {
	return func(b []byte) (int, error) {
		if s == "" {
			return 0, io.EOF
		}
		n := copy(b, s)
		s = s[n:]
		return n, nil
	}
}

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	var second string
	r := inbuilt.New().
		Get("/first", func(req *http.Request) *http.Response { return req.Respond().Attachment(text("first"), -1) }).
		Get("/other", func(req *http.Request) *http.Response {
			return req.Respond().Attachment(text("other stream"), -1)
		})
	var init router.Router
	done := false
	r.Get("/second", func(req *http.Request) *http.Response {
		return req.Respond().Attachment(stream(func(b []byte) (int, error) {
			if done {
				return 0, io.EOF
			}
			done = true
			n := copy(b, "second")
			// meanwhile, somebody else is served
			c := &conn{in: [][]byte{[]byte("GET /other HTTP/1.1\\r\\n\\r\\n")}}
			serve.HTTP1(config.Fill(config.Config{}), c, encryption.Plain, init)
			second = string(c.out)
			return n, nil
		}), -1)
	})
	init = r.Initialize()
	c := &conn{in: [][]byte{[]byte("GET /first HTTP/1.1\\r\\n\\r\\nGET /second HTTP/1.1\\r\\n\\r\\n")}}
	serve.HTTP1(config.Fill(config.Config{}), c, encryption.Plain, init)
	if got := string(c.out); !strings.Contains(got, "second") || strings.Contains(got, "other") {
		t.Fatalf("%q", got)
	}
	if !strings.Contains(second, "other stream") {
		t.Fatalf("%q", second)
	}
}
'''),
dict(id="B28-extension-memo", property="C17", lib=True,
 edits=[("http/response.go", "	r.fields.ContentType = mime.Extension[filepath.Ext(path)]\n	if len(r.fields.ContentType) == 0 {\n		r.fields.ContentType = defaultFileMIME\n	}\n", "	extension := filepath.Ext(path)\n	if _, found := mime.Extension[extension]; !found {\n		mime.Extension[extension] = defaultFileMIME\n	}\n\n	r.fields.ContentType = mime.Extension[extension]\n")],
 needs="two requests for files at the same moment, one of them the first one for an unknown extension",
 breaks="the process ends with a concurrent map access",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	const n = 4000
	for i := 0; i < n; i++ {
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("f.x%d", i)), []byte("x"), 0600); err != nil {
			t.Fatal(err)
		}
	}
	init := inbuilt.New().Static("/s", dir).Initialize()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < n; i += 8 {
				c := &conn{in: [][]byte{[]byte(fmt.Sprintf("GET /s/f.x%d HTTP/1.1\\r\\n\\r\\n", i))}}
				serve.HTTP1(config.Fill(config.Config{}), c, encryption.Plain, init)
				if !strings.Contains(string(c.out), "200 OK") {
					t.Errorf("%q", c.out)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id="B29-told-twice", property="C25", lib=True,
 edits=[(P+"suit.go", "			_ = s.Write(req.Proto, resp)\n			return false\n", "			if err = s.Write(req.Proto, resp); err != nil {\n				release(s.router.OnError(req, status.ErrCloseConnection))\n			}\n\n			return false\n")],
 needs="a malformed request whose client is gone by the time the error response is written",
 breaks="the application is told about the end of the connection twice",
 test=HEAD + '''
type counting struct{ n int }

func (c *counting) OnRequest(req *http.Request) *http.Response { return req.Respond() }
func (c *counting) OnError(req *http.Request, err error) *http.Response {
	c.n++
	return req.Respond().Error(err)
}

func TestDemo(t *testing.T) {
	for closed := 0; closed < 2; closed++ {
		r := &counting{}
		c := &conn{in: [][]byte{[]byte("GET / HTTQ/1.1\\r\\n\\r\\n")}, closed: closed}
		serve.HTTP1(config.Fill(config.Config{}), c, encryption.Plain, r)
		if r.n != 1 {
			t.Fatal(closed, r.n)
		}
	}
}
'''),
dict(id="B30-shallow-mkdir", property="C26", place=".", stubs=True,
 edits=[("https.go", "	return os.MkdirAll(dir, 0700)\n", "	if err := os.Mkdir(dir, 0700); err != nil && !os.IsExist(err) {\n		return err\n	}\n\n	return nil\n")],
 needs="a home directory without .cache yet",
 breaks="certificates are not kept, so each start orders them anew",
 test='''package indigo

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	t.Setenv("XDG_CACHE_HOME", "")
	home := t.TempDir()
	t.Setenv("HOME", home)
	l, err := autoTLSListener("example.com")("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	_ = l.Close()
	if _, err = os.Stat(filepath.Join(home, ".cache", "golang-autocert")); err != nil {
		t.Fatal(err)
	}
}
'''),
]
