HEAD = '''package demo

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

var _ = strings.Count
var _ = http.Respond
var _ = fmt.Sprint
var _ sync.Mutex

'''
ALL = [
dict(id="B24-shared-line", property="C23", lib=True,
 edits=[("router/inbuilt/middleware/logging.go", "	return func(next inbuilt.Handler, request *http.Request) *http.Response {\n		response := next(request)\n", "	var args [3]any\n\n	return func(next inbuilt.Handler, request *http.Request) *http.Response {\n		response := next(request)\n"),
  ("router/inbuilt/middleware/logging.go", "		for _, logger := range loggers {\n			logger.Printf(\"%s %s %d\", request.Method.String(), http.Escape(request.Path), response.Reveal().Code)\n", "		// render them once for all the loggers\n		args[0], args[1], args[2] = request.Method.String(), http.Escape(request.Path), response.Reveal().Code\n\n		for _, logger := range loggers {\n			logger.Printf(\"%s %s %d\", args[:]...)\n")],
 needs="two connections whose requests are logged at the same moment through several or slow loggers",
 breaks="the line of one request shows the values of another one",
 test=HEAD + '''
type lines struct {
	sync.Mutex
	all   []string
	block func(first bool)
	n     int
}

func (l *lines) Printf(f string, v ...any) {
	l.Lock()
	l.n++
	first := l.n == 1
	l.Unlock()
	l.block(first)
	l.Lock()
	l.all = append(l.all, fmt.Sprintf(f, v...))
	l.Unlock()
}

func TestDemo(t *testing.T) {
	in, out := make(chan struct{}), make(chan struct{})
	l := &lines{block: func(first bool) {
		if first {
			close(in)
			<-out
		}
	}}
	h := func(req *http.Request) *http.Response { return http.String(req, "x") }
	r := inbuilt.New().Use(middleware.LogRequests(l)).Get("/one", h).Get("/two", h)
	rt := fixed{r.Initialize()}
	done := make(chan struct{})
	go func() {
		talk(config.Config{}, rt, "GET /one HTTP/1.1\\r\\n\\r\\n")
		close(done)
	}()
	<-in
	talk(config.Config{}, rt, "GET /two HTTP/1.1\\r\\n\\r\\n")
	close(out)
	<-done
	if got := strings.Join(l.all, ";"); got != "GET /two 200;GET /one 200" {
		t.Fatal(got)
	}
}
''' ),
dict(id="B25-internal-codes", property="C23", lib=True,
 edits=[("router/inbuilt/middleware/logging.go", "		if response.Reveal().Code == status.CloseConnection {\n", "		// codes nobody has registered are for internal purposes, clients never see them\n		if code := response.Reveal().Code; code == status.CloseConnection || status.Text(code) == status.Text(0) {\n")],
 needs="a handler answering with a status of its own, like 499 or 599",
 breaks="such requests do not appear in the log",
 test=HEAD + '''
type count int

func (c *count) Printf(f string, v ...any) { *c++ }

func TestDemo(t *testing.T) {
	for code := 200; code < 600; code++ {
		if code == 439 {
			continue
		}
		var c count
		r := inbuilt.New().Use(middleware.LogRequests(&c)).Get("/", func(req *http.Request) *http.Response {
			return http.Code(req, status.Code(code))
		})
		talk(config.Config{}, r, "GET / HTTP/1.1\\r\\n\\r\\n")
		if c != 1 {
			t.Fatal(code, c)
		}
	}
}
'''.replace('TestDemo', 'TestDemo')),
dict(id="B26-first-host-wins", property="C24", lib=True,
 edits=[("router/inbuilt/middleware/httpsonly.go", "		host := params.RedirectTo\n\n		if len(host) == 0 {\n			host = removePort(request.Headers.Value(\"host\"))\n			if len(host) == 0 {\n", "		if len(params.RedirectTo) == 0 {\n			params.RedirectTo = removePort(request.Headers.Value(\"host\"))\n			if len(params.RedirectTo) == 0 {\n"),
  ("router/inbuilt/middleware/httpsonly.go", "		host += \":\" + params.Port\n", "		host := params.RedirectTo + \":\" + params.Port\n")],
 needs="two plain requests with different Host headers",
 breaks="every client is redirected to the host the first one asked for, so one client chooses the target for all",
 test=HEAD + '''
func TestDemo(t *testing.T) {
	h := func(req *http.Request) *http.Response { return http.String(req, "x") }
	r := fixed{inbuilt.New().Use(middleware.HTTPSOnly()).Get("/", h).Initialize()}
	for _, host := range []string{"a.com", "b.com", "c.com:80"} {
		out := talk(config.Config{}, r, "GET / HTTP/1.1\\r\\nHost: "+host+"\\r\\n\\r\\n")
		if !strings.Contains(out, "https://"+strings.TrimSuffix(host, ":80")) {
			t.Fatal(host, out)
		}
	}
}
'''),
]
import os
SEEDS = [s for s in ALL if s['id'].startswith(os.environ.get('ONLY', ''))]
FIXED = '''
type fixed struct{ r router.Router }

func (f fixed) Initialize() router.Router { return f.r }
'''
for s in SEEDS:
    if "status." in s["test"]:
        s["test"] = s["test"].replace('	"github.com/indigo-web/indigo/http"\n', '	"github.com/indigo-web/indigo/http"\n	"github.com/indigo-web/indigo/http/status"\n')
    if "fixed{" in s["test"]:
        s["test"] = s["test"].replace('	"github.com/indigo-web/indigo/router/inbuilt"\n', '	"github.com/indigo-web/indigo/router"\n	"github.com/indigo-web/indigo/router/inbuilt"\n') + FIXED
