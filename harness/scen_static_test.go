package verifsim

import (
	"fmt"
	"path"
	"strings"
	"syscall"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/router/virtual"
)

func init() {
	scenarios["C05"] = scenC05
	scenarios["C17"] = scenC17
	scenarios["C18"] = scenC18
}

// extTypes is what files of known kinds have to be sent as.
var extTypes = map[string]string{
	".avif": "image/avif",
	".css":  "text/css; charset=utf-8",
	".gif":  "image/gif",
	".htm":  "text/html; charset=utf-8",
	".html": "text/html; charset=utf-8",
	".jpeg": "image/jpeg",
	".jpg":  "image/jpeg",
	".js":   "text/javascript; charset=utf-8",
	".json": "application/json",
	".mjs":  "text/javascript; charset=utf-8",
	".pdf":  "application/pdf",
	".png":  "image/png",
	".svg":  "image/svg+xml",
	".wasm": "application/wasm",
	".webp": "image/webp",
	".xml":  "text/xml; charset=utf-8",
	".gz":   "application/gzip",
	".sql":  "application/sql",
	".tzif": "application/tzif",
	".yaml": "application/yaml",
	".xfdf": "application/xfdf",
	".zip":  "application/zip",
	".zlib": "application/zlib",
	".zstd": "application/zstd",
	".ico":  "image/vnd.microsoft.icon",
}

var extList = []string{
	".html", ".css", ".js", ".json", ".png", ".txt", "", ".avif", ".gif", ".htm", ".jpeg", ".jpg", ".mjs", ".pdf", ".svg", ".wasm",
	".webp", ".xml", ".gz", ".sql", ".tzif", ".yaml", ".xfdf", ".zip", ".zlib", ".zstd", ".ico", ".bin", ".tar.gz", ".",
}

// Site is a directory served under a prefix.
type Site struct {
	prefix string // as requests have it
	root   string // as it is configured
	dir    string // where it is
	mws    []mw
	files  []string // names below the directory
}

// genSite fills a directory.
func (w *World) genSite(n int) *Site {
	st := &Site{}
	switch n % 4 {
	case 0:
		st.root, st.dir = "/srv/www", "/srv/www"
	case 1:
		st.root, st.dir = "./public", "/cwd/public"
	case 2:
		st.root, st.dir = "assets", "/cwd/assets"
	case 3:
		st.root, st.dir = "/srv/other/", "/srv/other"
	}
	for i, k := 0, w.between(1, 6); i < k; i++ {
		ext := extList[w.draw(len(extList))]
		if w.chance(1, 2) {
			ext = extList[w.draw(6)]
		}
		name := w.oneStr("index", "a", "b", "file", "x y", "ü", w.token(1, 9)) + ext
		if w.chance(1, 3) {
			name = w.oneStr("sub", "d.ir", "sub/deep") + "/" + name
		}
		if w.chance(1, 10) {
			name = "static/" + name
		}
		w.putFile(st, name)
	}
	return st
}

func (w *World) putFile(st *Site, name string) {
	full := st.dir + "/" + name
	if n := w.r.FS.Nodes[full]; n != nil && n.Dir {
		return
	}
	for d := path.Dir(full); d != "/"; d = path.Dir(d) {
		if n := w.r.FS.Nodes[d]; n != nil && !n.Dir {
			return
		}
	}
	body := []byte(fmt.Sprintf("this is %s;", full))
	if n := w.oneOf(0, 0, 100, 900); n > 0 {
		body = append(body, w.content(w.draw(n))...)
	}
	if w.chance(1, 12) {
		body = nil
	}
	w.r.FS.Put(full, body)
	st.files = append(st.files, name)
}

// fileTarget draws a path below (or not quite below) a prefix.
func (w *World) fileTarget(st *Site) string {
	t := w.rawTarget(st)
	if !strings.HasPrefix(t, "/") {
		return "/" + t
	}
	return t
}

func (w *World) rawTarget(st *Site) string {
	p := strings.TrimSuffix(st.prefix, "/")
	name := "nothing"
	if len(st.files) > 0 {
		name = st.files[w.draw(len(st.files))]
	}
	switch w.pick(10, 2, 2, 6, 2, 2, 2, 1, 1) {
	case 8:
		return p + w.oneStr("x", "s", "%", ".", "\\", "-") + name
	case 1:
		return p + "/" + name + w.oneStr("x", "/", "/x", ".", "\x00", "\x00.html")
	case 2:
		return p + w.oneStr("", "/", "//", "x", "/.", "/sub", "/sub/", "/sub/deep", ".html")
	case 3:
		up := w.oneStr("..", "../..", "../../..", "sub/../..", ".../..", "..\\..", "./..", "a/../../..", "..//..", "sub/..", "....")
		if w.chance(1, 4) {
			return p + up + "/" + w.oneStr("secret.txt", "srv/secret.txt")
		}
		return p + "/" + up + "/" + w.oneStr("secret.txt", "etc/passwd", "srv/secret.txt", "www-private/x.txt", "www/"+name, name)
	case 4:
		return p + w.oneStr("//", "/./", "/sub//", "/sub/../") + name
	case 5:
		return p + w.oneStr("-private/x.txt", "/../www-private/x.txt", "//etc/passwd", "/etc/passwd", "/srv/secret.txt", "/\\etc\\passwd")
	case 6:
		return p + "/" + strings.ToUpper(name)
	case 7:
		return p + "/" + w.token(1, 300)
	}
	return p + "/" + name
}

// canonical tells whether every part of a name is an ordinary one.
func canonical(name string) bool {
	for _, s := range strings.Split(name, "/") {
		if s == "" || s == "." || strings.Contains(s, "..") {
			return false
		}
	}
	return name != "" && strings.IndexByte(name, 0) < 0
}

// fileExp works out what a request under a prefix has to get.
func (w *World) fileExp(q *Req, st *Site) {
	e := &Exp{Proto: q.FinalProt, Head: q.Method == "HEAD", Defaults: q.defaults}
	for i := len(st.mws) - 1; i >= 0; i-- {
		if m := st.mws[i]; m.kind == mwServer {
			e.Headers = append(e.Headers, KV{"Server", m.val})
		}
	}
	p := norm2(q.Path)
	base := strings.TrimSuffix(st.prefix, "/") + "/"
	rel := ""
	if strings.HasPrefix(p, base) {
		rel = p[len(base):]
	}
	file := path.Join(st.dir, rel)
	node := w.r.FS.Nodes[file]
	inside := strings.HasPrefix(file, st.dir+"/") && rel != "" && node != nil && !node.Dir
	must := inside && canonical(rel) && norm2(q.Path) == q.Path
	if inside {
		w.r.Probe("static-file")
		e.Codes = []int{200}
		e.Body = append([]byte(nil), node.Data...)
		e.Size = len(e.Body)
		ext := path.Ext(file)
		if e.CType = extTypes[ext]; e.CType == "" {
			e.CType = "application/octet-stream"
			if extTypes[strings.ToLower(ext)] != "" {
				e.CType = "*"
			}
		}
		if len(e.Body) == 0 {
			e.Size = -2
			if q.FinalProt == "HTTP/1.0" && !e.Head {
				e.UntilClose = true
				q.Closes = true
			}
		}
	} else {
		w.r.Probe("static-404")
		e.Codes, e.CType, e.AnyBody = []int{404}, "text/html", true
	}
	if inside && !must {
		// may be refused as well
		e404 := &Exp{Proto: e.Proto, Codes: []int{404}, CType: "text/html", AnyBody: true, Head: e.Head, Defaults: e.Defaults, Headers: e.Headers}
		e.Alt = e404
	}
	if w.diskFaults {
		e500 := &Exp{Proto: e.Proto, Codes: []int{404, 500}, CType: "*", AnyBody: true, Head: e.Head, Defaults: e.Defaults, Headers: e.Headers}
		e.Alt = e500
		e.Either = true
	}
	q.Exps = func() []*Exp { return []*Exp{e} }
	q.want = nil
	q.Route = ""
}

// fileReq makes a request for a file.
func (w *World) fileReq(s *Script, st *Site, target string) *Req {
	g := genOpts{maxBody: 20, path: target, noUpgrade: true}
	g.method = w.oneStr("GET", "GET", "GET", "HEAD", "POST")
	q := w.genReq(g)
	q.defaults = w.cfg.Headers.Default
	w.fileExp(q, st)
	if q.Alt() && q.Closes && q.FinalProt == "HTTP/1.0" && hasTok(q.Conn, "keep-alive") && !hasTok(q.Conn, "close") {
		// whether it closes is not determined
		q.Target = strings.TrimSuffix(st.prefix, "/") + "/nothing"
		q.Path, q.Query, q.RawQuery, q.queryErr = q.Target, nil, "", false
		q.build(w, false)
		q.Closes = false
		w.fileExp(q, st)
	}
	return s.add(q, nil)
}

// Alt tells whether the outcome of a request is not fully determined.
func (q *Req) Alt() bool {
	for _, e := range q.Exps() {
		if e.Alt != nil {
			return true
		}
	}
	return false
}

// secrets puts files which nobody may get.
func (w *World) secrets() {
	for _, f := range []string{"/srv/secret.txt", "/srv/www-private/x.txt", "/etc/passwd", "/cwd/secret.txt", "/secret.txt", "/cwd/public-private/x.txt", "/cwd/etc/passwd"} {
		w.r.FS.Put(f, []byte("SECRET "+f))
	}
}

func (w *World) addSite(r *inbuilt.Router, n int, alone bool) *Site {
	st := w.genSite(n)
	prefix := []string{"/static", "/files/", "/f", "/static/more"}[n%4]
	if alone && w.chance(1, 8) {
		prefix = "/"
	}
	mwfs := mwFuncs(nil)
	if w.chance(1, 3) {
		m := w.genMw(false, true)
		if m.kind == mwStop || m.kind == mwSlow {
			m.kind = mwPlain
		}
		st.mws = append(st.mws, m)
		mwfs = mwFuncs(st.mws)
	}
	switch w.pick(3, 2, 1) {
	case 0:
		st.prefix = prefix
		r.Static(prefix, st.root, mwfs...)
	case 1:
		g := fmt.Sprintf("/group%d", n)
		st.prefix = g + prefix
		r.Group(g).Static(prefix, st.root, mwfs...)
	default:
		g := fmt.Sprintf("/res%d", n)
		st.prefix = g + prefix
		st.mws = nil
		r.Resource(g).Static(prefix, st.root)
	}
	return st
}

// C17: static files.
func scenC17(w *World) {
	w.tune()
	w.newApp()
	w.secrets()
	r := inbuilt.New()
	var sites []*Site
	first := w.draw(4)
	for i, n := 0, w.between(1, 2); i < n; i++ {
		sites = append(sites, w.addSite(r, first+i, n == 1))
	}
	if len(sites) == 2 && strings.HasPrefix(sites[1].prefix, sites[0].prefix) {
		// a file of the outer one is not reachable there
		sites = sites[1:]
	}
	if w.chance(1, 3) {
		// makes paths be looked up in another way
		r.Get("/dynamic/{x}", func(request *http.Request) *http.Response { return nil })
	}
	w.diskFaults = w.chance(1, 6)
	if w.diskFaults {
		op := w.oneStr("open", "fstat", "read")
		w.r.FS.On = func(o, name string) error {
			if o == op && w.r.Chance("disk", 1, 4) {
				w.r.Fault("disk-" + op)
				return syscall.EIO
			}
			return nil
		}
	}
	for i, n := 0, w.between(1, 4); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		for j, k := 0, w.between(1, 6); j < k; j++ {
			st := sites[w.draw(len(sites))]
			w.fileReq(s, st, w.fileTarget(st))
		}
	}
	w.serve(w.front(r))
	w.runAll()
	w.stop()
}

// vhost is a virtual host.
type vhost struct {
	name string // as registered (the last one)
	id   string
	inb  bool
}

// hostKey is what matters of a Host value.
func hostKey(h string) string {
	h = strings.ToLower(h)
	h = strings.TrimPrefix(h, "www.")
	for _, p := range []string{":80", ":443"} {
		if strings.HasSuffix(h, p) {
			return strings.TrimSuffix(h, p)
		}
	}
	return h
}

// C18: virtual hosts.
func scenC18(w *World) {
	w.tune()
	w.newApp()
	names := []string{"example.com", "foo.example.com", "bar.example.com", "localhost", "example.org:8080", "example.org", "10.0.0.7", "a", "localhost:8080", "xample.com", "www2.example.com", "example.co"}
	v := virtual.New()
	t := w.newTable()
	hosts := map[string]*vhost{}
	var def, last *vhost
	var lastF router.Fabric
	mk := func(id string) (*vhost, router.Fabric) {
		h := &vhost{id: id}
		l := &leaf{name: id, any: true}
		lf := t.makeLeaf(l)
		ef := func(request *http.Request) *http.Response {
			s := w.step(request, "e"+id)
			if s == nil {
				return nil
			}
			err := request.Env.Error
			return http.Code(request, status.Code(codeOf(err))).Header("X-Error-By", id).String("refused by " + id)
		}
		if w.chance(1, 2) {
			h.inb = true
			r := inbuilt.New()
			if w.chance(1, 2) {
				r.Use(func(next inbuilt.Handler, request *http.Request) *http.Response {
					s := w.step(request, "u"+id)
					if s != nil && s.cur != nil && strings.Count(strings.Join(s.cur.trail, " ")+" ", "u"+id+" ") > 1 {
						s.violate("middlewares", "a middleware of host %s runs more than once: %s", id, s.cur.trail)
					}
					return next(request)
				})
			}
			into := r
			if w.chance(1, 2) {
				into = r.Group("")
				r.Group("/a-group-of-its-own").Get("/", lf)
			}
			into.Catch("/", lf)
			r.RouteError(ef)
			return h, r
		}
		return h, simple.New(simple.Handler(lf), simple.Handler(ef))
	}
	n := w.between(1, 4)
	if w.chance(1, 12) {
		n = w.between(8, 40)
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("h%d.example.net", i))
		}
	}
	for i := 0; i < n; i++ {
		name := names[w.draw(len(names))]
		if hosts[hostKey(name)] != nil {
			continue
		}
		h, f := mk(fmt.Sprintf("v%d", i))
		if last != nil && w.chance(1, 6) {
			// one router for several hosts
			w.r.Probe("shared-router")
			h, f = last, lastF
		}
		last, lastF = h, f
		hosts[hostKey(name)] = h
		h.name = name
		reg := name
		switch w.draw(5) {
		case 0:
			reg = w.mixCase(reg)
		case 1:
			reg = "www." + reg
		case 2:
			if !strings.Contains(reg, ":") {
				reg += w.oneStr(":80", ":443")
			}
		}
		v.Host(reg, f)
	}
	if w.chance(1, 2) {
		h, f := mk("default")
		def = h
		if w.chance(1, 2) {
			v.Default(f)
		} else {
			v.Host(w.oneStr("0.0.0.0", "0.0.0.0:80", "0.0.0.0:8080"), f)
		}
	}
	w.errTrail = nil
	for i, n := 0, w.between(1, 4); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		for j, k := 0, w.between(1, 6); j < k; j++ {
			bad := j == k-1 && w.chance(1, 4)
			var q *Req
			for {
				q = w.genReq(genOpts{maxBody: 20, noUpgrade: true})
				if strings.HasPrefix(q.Path, "/") {
					break
				}
			}
			w.readMode(q)
			// choose the host
			var vals []string
			for x, y := 0, w.pick(1, 12, 2); x < y; x++ {
				h := names[w.draw(len(names))]
				switch w.draw(8) {
				case 0:
					h = w.mixCase(h)
				case 1:
					h = w.mixCase("www.") + h
				case 2:
					if !strings.Contains(h, ":") {
						h += w.oneStr(":80", ":443", ":8080", ":81", ":4430")
					}
				case 3:
					h = w.oneStr("unknown.com", "examplexcom", "example.comm", "xexample.com", "wwwexample.com", "0.0.0.0", "com", "www.www.example.com")
				}
				vals = append(vals, h)
			}
			var hs []KV
			for _, h := range q.Headers {
				if !strings.EqualFold(h.K, "host") {
					hs = append(hs, h)
				}
			}
			for x, val := range vals {
				at := 0
				if !bad {
					at = w.draw(len(hs) + 1)
				}
				if x > 0 {
					at = 0
					for y, h := range hs {
						if strings.EqualFold(h.K, "host") {
							at = y + 1
						}
					}
				}
				hs = append(hs[:at:at], append([]KV{{w.mixCase("host"), val}}, hs[at:]...)...)
			}
			q.Headers = hs
			q.build(w, false)
			// the model
			var to *vhost
			code := 0
			switch {
			case len(vals) == 0:
				to, code = def, 400
			case len(vals) > 1:
				code = 400
			default:
				if to = hosts[hostKey(vals[0])]; to == nil {
					to, code = def, 421
				}
			}
			if bad {
				w.badHost(q, len(vals), to, code, def)
				s.add(q, nil)
				break
			}
			if to == nil {
				w.r.Probe("host-refused")
				q.Exps = func() []*Exp {
					return []*Exp{{Proto: q.FinalProt, Codes: []int{code}, AnyBody: true, AnyHdr: true, Head: q.Method == "HEAD"}}
				}
			} else {
				w.r.Probe("host-routed")
				q.Route = to.id
				q.routed = q.Path
				if to.inb {
					q.routed = norm2(q.Path)
				}
			}
			s.add(q, w.genPlan(planOpts{simple: w.chance(1, 2), maxBody: 40}))
		}
	}
	w.serve(w.front(v))
	w.runAll()
	w.stop()
}

// badHost makes a request malformed before or after its Host.
func (w *World) badHost(q *Req, hosts int, to *vhost, code int, def *vhost) {
	q.Bad = true
	lines := strings.Split(string(q.Head), "\r\n")
	lines = lines[:len(lines)-2]
	if w.chance(1, 2) {
		// the request line: nothing is known about the host
		lines[0] = w.oneStr("FOO / HTTP/1.1", "GET / HTTP/1.9", "GET /%zz HTTP/1.1", "GET")
		q.BadCodes = []int{400, 501, 505}
		q.BadMethod = true
		to, code = def, 400
	} else {
		// hosts come first
		lines = append(lines, w.oneStr("No Colon", "Content-Length: x", "A B: c"))
		q.BadCodes = []int{400}
	}
	codes := q.BadCodes
	if to == nil {
		codes = append([]int{code}, q.BadCodes...)
	}
	q.Head = []byte(strings.Join(lines, "\r\n") + "\r\n\r\n")
	q.Wire = nil
	e := &Exp{Codes: codes, AnyHdr: true, AnyBody: true, Head: q.Method == "HEAD" && !q.BadMethod}
	e.Extra = func(r *Resp) string {
		by := r.values("x-error-by")
		want := ""
		if to != nil {
			want = to.id
		}
		if want == "" && len(by) > 0 || want != "" && (len(by) != 1 || by[0] != want) {
			return fmt.Sprintf("the error is answered by %q, want %q", by, want)
		}
		return ""
	}
	q.Exps = func() []*Exp { return []*Exp{e} }
}

// C05: concurrent connections.
func scenC05(w *World) {
	w.lots = w.chance(1, 12)
	w.tune()
	w.newApp()
	w.secrets()
	var fab router.Fabric
	var t *Table
	var st *Site
	if w.chance(1, 5) {
		fab = w.simple()
	} else {
		var r *inbuilt.Router
		t, r = w.genTable(tableOpts{few: true})
		st = w.genSite(w.draw(2))
		st.prefix = "/st-files"
		for p := range t.catchers {
			if strings.HasPrefix("/st-files", p) || strings.HasPrefix(p, "/st-files") {
				st = nil
				break
			}
		}
		if st != nil {
			st.mws = t.rootMws
			r.Static(st.prefix, st.root)
		}
		fab = w.front(r)
	}
	w.leave = w.chance(1, 3)
	for i, n := 0, w.between(2, 6); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		s.startDelay = time.Duration(w.draw(5)) * time.Millisecond
		timed := w.chance(1, 3)
		for j, k := 0, w.between(1, 5); j < k; j++ {
			po := planOpts{simple: w.chance(1, 3), maxBody: w.oneOf(40, 300), streams: true, files: w.chance(1, 4)}
			g := genOpts{maxBody: 60}
			var q *Req
			file := ""
			if st != nil && w.chance(1, 3) {
				file = w.fileTarget(st)
				by, _ := t.resolve(file)
				nothing, _ := t.resolve(st.prefix + "/nothing")
				if by != nil || nothing != nil {
					// a template matches as well
					file = ""
				}
			}
			switch {
			case t == nil:
				q = w.genReq(g)
				w.readMode(q)
				q = s.add(q, w.genPlan(po))
			case file != "":
				q = w.fileReq(s, st, file)
			default:
				q = t.route(s, g, po)
			}
			if w.chance(1, 4) {
				q.Plan.Delay = time.Duration(w.between(1, 200)) * time.Millisecond
			}
			if timed && q.Plan.Src != nil {
				q.Plan.Src.stall = 0
			}
		}
		if timed {
			s.timed = true
			s.pipeline = 0
			s.slowRead, s.prof.Window, s.recvMax = false, 0, 0
		} else if w.chance(1, 6) {
			w.cut(s)
		}
	}
	w.serve(fab)
	w.runAll()
	w.stop()
}
