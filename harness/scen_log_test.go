package verifsim

import (
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net/url"
	"strings"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
	"verif.local/sim/simtls"
)

func init() {
	scenarios["C23"] = scenC23
	scenarios["C24"] = scenC24
}

// logbook is a logger shared by all the connections.
type logbook struct {
	w      *World
	name   string
	lines  []string
	panics int
	slow   time.Duration
}

func (l *logbook) Printf(f string, v ...any) {
	line := fmt.Sprintf(f, v...)
	l.w.r.Event("log %s: %q", l.name, line)
	for i := 0; i < len(line); i++ {
		if line[i] < 0x20 || line[i] > 0x7e {
			l.w.violate("log-raw", "log %s gets a line with byte %#x in it: %q", l.name, line[i], line)
			return
		}
	}
	l.lines = append(l.lines, line)
	if l.slow > 0 {
		l.w.r.Sleep(l.slow)
	}
}

// writer lets a log write lines into the book.
type writer struct{ l *logbook }

func (x writer) Write(b []byte) (int, error) {
	line := strings.TrimSuffix(string(b), "\n")
	switch {
	case strings.HasPrefix(line, "panic: "):
		x.l.panics++
	case strings.HasPrefix(line, "misconfiguration: "):
		// of the server itself
	default:
		x.l.Printf("%s", line)
	}
	return len(b), nil
}

// about returns the lines which mention a marker.
func (l *logbook) about(marker string) (lines []string) {
	for _, x := range l.lines {
		if strings.Contains(x, marker) {
			lines = append(lines, x)
		}
	}
	return lines
}

// printable is how a path has to appear in logs.
func printable(p string) string {
	special := map[byte]byte{0: '0', 7: 'a', 8: 'b', 9: 't', 10: 'n', 11: 'v', 12: 'f', 13: 'r'}
	var b []byte
	for i := 0; i < len(p); i++ {
		switch c := p[i]; {
		case c >= 0x20 && c <= 0x7e:
			b = append(b, c)
		case special[c] != 0:
			b = append(b, '\\', special[c])
		default:
			b = append(b, '\\', '?')
		}
	}
	return string(b)
}

// oddPath makes a path for which a careless log would lie.
func (w *World) oddPath(marker string) string {
	p := marker
	for i, n := 0, w.between(0, 5); i < n; i++ {
		switch w.draw(8) {
		case 0:
			p += w.token(1, 6)
		case 1:
			p += w.oneStr("\r\nGET /forged 200", "\nPOST /x 500\n", "\r", "\n", "\x00", "\x1b[2J", "\x7f", "\x07\x08\t\v\f", " 200", "/", "~", "~\x7f\x80\x1f !")
		case 2:
			p += w.oneStr("ü", "日本語", "é", "\xff", "\xc3", "a\u2028b", "\u0085", "\xed\xa0\x80", "🙂")
		case 3:
			p += string([]byte{byte(w.draw(256))})
		case 4:
			p += w.oneStr("%d", "%s%s%n", "%!", "%%", "\\n", "\\")
		case 5:
			p += "/" + w.token(0, 30)
		case 6:
			// around the sizes buffers are made for
			p += strings.Repeat(w.oneStr("\n", "x", "ö"), w.between(0, 45))
		case 7:
			for j, k := 0, w.between(1, 12); j < k; j++ {
				p += string([]byte{byte(w.draw(256))})
			}
		}
	}
	return p
}

type watched struct {
	w     *World
	inner router.Fabric
	after func(s *Script, q *Req)
	error func(s *Script, err error)
}

type watchedRouter struct {
	watched
	r router.Router
}

func (x *watched) Initialize() router.Router { return &watchedRouter{*x, x.inner.Initialize()} }

func (x *watchedRouter) OnRequest(request *http.Request) *http.Response {
	s := x.w.scripts[request.Remote.String()]
	q := s.cur
	resp := x.r.OnRequest(request)
	x.after(s, q)
	return resp
}

func (x *watchedRouter) OnError(request *http.Request, err error) *http.Response {
	resp := x.r.OnError(request, err)
	x.error(x.w.scripts[request.Remote.String()], err)
	return resp
}

// C23: the log of requests.
func scenC23(w *World) {
	w.tune()
	w.newApp()
	var resp, reqs []*logbook
	book := func(name string) *logbook {
		l := &logbook{w: w, name: name}
		if w.chance(1, 3) {
			l.slow = time.Duration(w.between(1, 400)) * time.Millisecond
		}
		return l
	}
	// what goes to the default log
	def := &logbook{w: w, name: "default"} // nothing may wait inside of it
	log.SetOutput(writer{def})
	log.SetFlags(0)
	defer log.SetOutput(io.Discard)
	inUse := false
	var loggers []middleware.Logger
	for i, n := 0, w.pick(1, 4, 4); i < n; i++ {
		l := book(fmt.Sprintf("responses%d", i))
		resp = append(resp, l)
		loggers = append(loggers, l)
	}
	if len(loggers) == 0 {
		resp = append(resp, def)
		inUse = true
	}
	r := inbuilt.New()
	recovers := w.chance(1, 2)
	server := ""
	var mws []inbuilt.Middleware
	if w.chance(1, 4) {
		server = "outer"
		mws = append(mws, middleware.ServerHeader(server))
	}
	mws = append(mws, middleware.LogRequests(loggers...))
	if recovers {
		mws = append(mws, middleware.Recover)
	}
	for _, m := range mws {
		r.Use(m)
	}
	if w.chance(1, 2) {
		n := w.pick(1, 3, 3)
		for i := 0; i < n; i++ {
			reqs = append(reqs, book(fmt.Sprintf("requests%d", i)))
		}
		switch {
		case n == 2:
			r.Mutator(mutator.RequestsLog(reqs[0], reqs[1]))
		case n == 1:
			r.Mutator(mutator.RequestsLog(reqs[0]))
		case !inUse:
			reqs = append(reqs, def)
			inUse = true
			r.Mutator(mutator.RequestsLog())
		}
	}
	t := w.newTable()
	group := "/in"
	r.Catch("/", t.makeLeaf(&leaf{name: "c", any: true}))
	r.Group(group).Catch("/", t.makeLeaf(&leaf{name: "g", any: true}))
	if w.chance(1, 2) {
		r.RouteError(func(request *http.Request) *http.Response {
			return http.Error(request, request.Env.Error).Header("X-Error-By", "router")
		})
	}
	if w.chance(1, 3) {
		r.Get("/dynamic/{x}", func(request *http.Request) *http.Response { return nil })
	}
	handled, errs, refused := 0, 0, 0
	codes := map[int]int{}
	for i, n := 0, w.between(1, 5); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		for j, k := 0, w.between(1, 6); j < k; j++ {
			prefix, route := "", "c"
			if w.chance(1, 4) {
				prefix, route = group, "g"
			}
			marker := fmt.Sprintf("%s/L%d.%d.", prefix, i, j)
			q := w.genReq(genOpts{maxBody: 30, path: w.oddPath(marker)})
			w.readMode(q)
			q.Route, q.routed = route, norm2(q.Path)
			q.marker = marker
			if server != "" {
				q.extra = []KV{{"Server", server}}
			}
			p := w.genPlan(planOpts{simple: w.chance(1, 3), maxBody: 40, streams: w.chance(1, 6), files: w.chance(1, 6)})
			if recovers && w.chance(1, 6) && !p.unsized() {
				p.Panics, p.Dirty = true, false
				q.Exps = func() []*Exp {
					return []*Exp{{Proto: q.FinalProt, Codes: []int{500}, CType: "text/html", AnyBody: true, Head: q.Method == "HEAD", Defaults: q.defaults, Headers: q.extra}}
				}
			}
			if w.chance(1, 4) {
				p.Delay = time.Duration(w.between(1, 900)) * time.Millisecond
			}
			s.add(q, p)
		}
		switch w.draw(6) {
		case 0:
			b := w.genBad()
			b.anyErrBody = true
			s.add(b, nil)
		case 1:
			w.cut(s)
		}
	}
	after := func(s *Script, q *Req) {
		if w.r.Failed() || q == nil {
			return
		}
		handled++
		e := q.exps()
		codes := e[len(e)-1].Codes
		for _, l := range resp {
			lines := l.about(q.marker)
			want := fmt.Sprintf("%s %s %d", q.Method, printable(norm2(q.Path)), codes[0])
			if len(lines) != 1 {
				s.violate("log-count", "log %s has %d lines for one request when it has been answered: %q, want %q", l.name, len(lines), lines, want)
				return
			}
			if len(codes) == 1 && lines[0] != want {
				s.violate("log-line", "log %s says %q, want %q", l.name, lines[0], want)
				return
			}
		}
		for _, l := range reqs {
			lines := l.about(q.marker)
			if want := fmt.Sprintf("%s %s", q.Method, printable(q.Path)); len(lines) != 1 || lines[0] != want {
				s.violate("log-line", "log %s says %q, want %q", l.name, lines, want)
				return
			}
		}
	}
	onError := func(s *Script, err error) {
		errs++
		if code := codeOf(err); code != int(status.CloseConnection) {
			refused++
			codes[code]++
		}
	}
	w.serve(w.front(&watched{w, r, after, onError}))
	w.runAll()
	w.stop()
	if w.r.Failed() {
		return
	}
	if !inUse && len(def.lines) > 0 {
		w.violate("log-count", "the default log has %d lines although others are to be used: %q", len(def.lines), def.lines)
	}
	panics := 0
	for _, s := range w.all {
		for _, q := range s.reqs {
			if q.given && q.Plan != nil && q.Plan.Panics {
				panics++
			}
		}
	}
	if def.panics != panics {
		w.violate("log-count", "%d panics have been logged, but there were %d", def.panics, panics)
	}
	want := handled + refused
	for _, l := range resp {
		for code, n := range codes {
			k := 0
			for _, x := range l.lines {
				if strings.HasSuffix(x, fmt.Sprintf(" %d", code)) {
					k++
				}
			}
			if k < n {
				w.violate("log-count", "log %s has %d lines with status %d, but %d requests have been refused with it: %q", l.name, k, code, n, l.lines)
			}
		}
		if len(l.lines) != want {
			w.violate("log-count", "log %s has %d lines for %d requests: %q", l.name, len(l.lines), want, l.lines)
		}
	}
	for _, l := range reqs {
		if len(l.lines) < handled || len(l.lines) > handled+errs {
			w.violate("log-count", "log %s has %d lines for %d requests and %d errors: %q", l.name, len(l.lines), handled, errs, l.lines)
		}
	}
	if refused > 0 {
		w.r.Probe("log-refused")
	}
}

// C24: plain requests are sent to HTTPS.
func scenC24(w *World) {
	simtls.Listeners = map[string]*tls.Config{}
	simtls.Reset()
	w.tune()
	const tlsAddr, ownAddr = "10.0.0.7:8443", "0.0.0.0:9001"
	w.newApp()
	w.enc[mainAddr] = encryption.Plain
	addrs := []string{mainAddr, mainAddr}
	if w.chance(3, 4) {
		w.r.FS.Put("/etc/tls/0.crt", []byte(certPairs[0][0]))
		w.r.FS.Put("/etc/tls/0.key", []byte(certPairs[0][1]))
		w.app.HTTPS(tlsAddr, "/etc/tls/0.crt", "/etc/tls/0.key")
		w.enc[tlsAddr] = encryption.TLS
		addrs = append(addrs, tlsAddr, tlsAddr)
	}
	if w.chance(1, 3) {
		w.app.Listen(":9001", indigo.Listener{})
		w.enc[ownAddr] = encryption.Plain
		addrs = append(addrs, ownAddr)
	}
	var params middleware.HTTPOnlyParams
	params.RedirectTo = w.oneStr("", "", "secure.example.com", "[::1]")
	params.Port = w.oneStr("", "8443", "443")
	f := middleware.HTTPSOnly(params)
	if params == (middleware.HTTPOnlyParams{}) && w.chance(1, 2) {
		f = middleware.HTTPSOnly()
	}
	r := inbuilt.New()
	server := ""
	if w.chance(1, 3) {
		server = "outer"
		r.Use(middleware.ServerHeader(server))
	}
	scope := w.draw(3) // where it is in force: everywhere, in a group, on one catcher
	t := w.newTable()
	root, sub := t.makeLeaf(&leaf{name: "c", any: true}), t.makeLeaf(&leaf{name: "g", any: true})
	switch scope {
	case 0:
		r.Use(f)
		r.Catch("/", root)
		r.Group("/in").Catch("/", sub)
	case 1:
		r.Catch("/", root)
		r.Group("/in").Use(f).Catch("/", sub)
	default:
		r.Catch("/", root)
		r.Catch("/in", sub, f)
	}
	alias := ""
	if w.chance(1, 2) {
		alias = "/here"
		r.Alias(alias, "/in/there")
	}
	for i, n := 0, w.between(1, 4); i < n; i++ {
		s := w.script(addrs[w.draw(len(addrs))])
		w.network(s)
		for j, k := 0, w.between(1, 6); j < k; j++ {
			path := w.oddPath(w.oneStr("/", "/in/", "/in/", "/x/"))
			if alias != "" && w.chance(1, 3) {
				path = alias
			}
			q := w.genReq(genOpts{maxBody: 30, path: path, noUpgrade: true})
			w.readMode(q)
			if server != "" {
				q.extra = []KV{{"Server", server}}
			}
			host := w.setHost(q)
			q.Route, q.routed = "c", norm2(q.Path)
			if path == alias {
				q.aliasFrom, q.routed = alias, "/in/there"
			}
			if strings.HasPrefix(q.routed, "/in/") || q.routed == "/in" || scope == 2 && strings.HasPrefix(q.routed, "/in") {
				q.Route = "g"
			}
			if scope < 2 && strings.HasPrefix(q.routed, "/in") {
				// a prefix is a prefix
				q.Route = "g"
			}
			p := w.genPlan(planOpts{simple: w.chance(1, 2), maxBody: 40})
			if w.encOf(s.addr) == encryption.Plain && (scope == 0 || q.Route == "g") {
				w.redirected(q, params, host)
				p = w.genPlan(planOpts{simple: true})
			} else if w.encOf(s.addr) == encryption.TLS {
				w.r.Probe("https-handled")
			}
			s.add(q, p)
		}
		if w.chance(1, 8) {
			w.cut(s)
		}
	}
	w.serve(w.front(r))
	w.runAll()
	w.stop()
}

// setHost gives the request one Host header, or none.
func (w *World) setHost(q *Req) string {
	host := w.oneStr("", "example.com", "example.com:8080", "Example.COM:80", "localhost", "10.0.0.7:8080", "[::1]:8080", "[::1]", "[2001:db8::7]:80", ":8080", "a.b")
	var hs []KV
	for _, h := range q.Headers {
		if !strings.EqualFold(h.K, "host") {
			hs = append(hs, h)
		}
	}
	if host != "" {
		at := w.draw(len(hs) + 1)
		hs = append(hs[:at:at], append([]KV{{w.mixCase("host"), host}}, hs[at:]...)...)
	}
	q.Headers = hs
	q.build(w, false)
	return host
}

// redirected makes a request expect to be sent away.
func (w *World) redirected(q *Req, params middleware.HTTPOnlyParams, host string) {
	q.Route = ""
	path := q.routed
	if q.aliasFrom != "" {
		path = q.aliasFrom
	}
	if i := strings.LastIndexByte(host, ':'); i > strings.LastIndexByte(host, ']') {
		host = host[:i]
	}
	if params.RedirectTo != "" {
		host = params.RedirectTo
	}
	e := &Exp{Proto: q.FinalProt, Head: q.Method == "HEAD", CType: "text/html", Defaults: q.defaults, Headers: q.extra}
	if host == "" {
		w.r.Probe("https-no-host")
		e.Codes, e.AnyBody = []int{400}, true
		q.Exps = func() []*Exp { e.Defaults = q.defaults; return []*Exp{e} }
		return
	}
	w.r.Probe("https-redirected")
	e.Codes = []int{301}
	e.AnyHdr = true
	e.Extra = func(r *Resp) string {
		v := r.values("location")
		if len(v) != 1 {
			return fmt.Sprintf("Location is %q", v)
		}
		for i := 0; i < len(v[0]); i++ {
			if c := v[0][i]; c <= 0x20 || c >= 0x7f {
				return fmt.Sprintf("Location %q has byte %#x in it", v[0], c)
			}
		}
		u, err := url.Parse(v[0])
		if err != nil {
			return fmt.Sprintf("Location %q: %v", v[0], err)
		}
		port := u.Port()
		want := params.Port
		if port == "" {
			port = "443"
		}
		if want == "" {
			want = "443"
		}
		if u.Scheme != "https" || u.Hostname() != strings.Trim(host, "[]") || port != want || u.Path != path || u.RawQuery != "" && u.RawQuery != q.RawQuery || u.Fragment != "" || u.User != nil {
			return fmt.Sprintf("Location is %q, want https, host %s, port %s, path %q", v[0], host, want, path)
		}
		// apart from it, the response is an ordinary one
		rest := &Exp{CType: "text/html", Defaults: q.defaults, Headers: append([]KV{{"Location", v[0]}}, q.extra...)}
		if rest.Defaults != nil {
			d := map[string]string{}
			for k, x := range rest.Defaults {
				d[k] = x
			}
			rest.Defaults = d
		}
		return rest.headers(r)
	}
	q.Exps = func() []*Exp { return []*Exp{e} }
}
