package verifsim

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

// front stands before a router under test: what the server gives to the router is compared
// with what the clients meant, and so is what the router makes of it.
type front struct {
	w     *World
	inner router.Fabric
}

type frontRouter struct {
	w     *World
	inner router.Router
}

func (w *World) front(inner router.Fabric) router.Fabric {
	w.routed = true
	return &front{w, inner}
}

func (f *front) Initialize() router.Router { return &frontRouter{f.w, f.inner.Initialize()} }

func (f *frontRouter) OnRequest(request *http.Request) *http.Response {
	w := f.w
	s, q := w.enter(request)
	if q == nil {
		return nil
	}
	defer w.exit(s)
	s.cur = q
	q.trail = q.trail[:0]
	resp := f.inner.OnRequest(request)
	s.cur = nil
	if s.wild || w.r.Failed() {
		return resp
	}
	if q.Route != "" && q.leaf == "" {
		s.violate("dispatch", "request %d (%s %q) reached no handler, want %s", s.calls-1, q.Method, q.Path, q.Route)
	}
	if got, want := strings.Join(q.trail, " "), strings.Join(q.want, " "); got != want && q.want != nil {
		s.violate("middlewares", "request %d (%s %q): ran %s, want %s", s.calls-1, q.Method, q.Path, got, want)
	}
	return resp
}

func (f *frontRouter) OnError(request *http.Request, err error) *http.Response {
	w := f.w
	s := w.scriptOf(request)
	if s == nil {
		return http.Respond(request)
	}
	s.onError(request, err)
	if w.r.Failed() {
		return http.Respond(request)
	}
	s.errTrail = nil
	path := request.Path
	resp := f.inner.OnError(request, err)
	if w.errTrail != nil && !s.wild && !w.r.Failed() {
		if got, want := strings.Join(s.errTrail, " "), strings.Join(w.errTrail(s, err, path), " "); got != want {
			s.violate("middlewares", "error %v: ran %s, want %s", err, got, want)
		}
	}
	return resp
}

// step records what a request passes.
func (w *World) step(request *http.Request, what string) *Script {
	s := w.scriptOf(request)
	if s == nil {
		return nil
	}
	if s.cur != nil {
		s.cur.trail = append(s.cur.trail, what)
	} else {
		s.errTrail = append(s.errTrail, what)
	}
	return s
}

// mw is a middleware.
type mw struct {
	name string
	kind int
	val  string
	f    inbuilt.Middleware
}

const (
	mwPlain   = iota
	mwStop    // answers itself if the request asks for it
	mwServer  // adds a header
	mwRecover // turns panics into 500
	mwContext
	mwSlow
	mwRedirect
)

const stopHeader = "X-Stop-At"

type mwKey struct{}

const movedPath = "/moved"

func (w *World) genMw(recovers, root bool) mw {
	w.mwCnt++
	m := mw{name: fmt.Sprintf("m%d", w.mwCnt)}
	m.kind = w.pick(5, 2, 2, 0, 2, 2, 1)
	if recovers {
		m.kind = mwRecover
	}
	switch m.kind {
	case mwServer:
		m.val = "srv" + m.name
		m.f = middleware.ServerHeader("srv" + m.name)
		if w.chance(1, 8) {
			m.val = middleware.DefaultServerHeader
			m.f = middleware.ServerHeader("")
		}
	case mwRedirect:
		m.val = w.oneStr(movedPath, "/a", "/api/b", movedPath)
		if root {
			m.val = movedPath // no malformed request has it
		}
		m.f = middleware.Redirect(m.val, "/to/"+m.name)
	case mwRecover:
		m.f = middleware.Recover
	case mwContext:
		m.f = middleware.CustomContext(context.WithValue(context.Background(), mwKey{}, m.name))
	default:
		slow := time.Duration(0)
		if m.kind == mwSlow {
			slow = time.Duration(w.between(1, 50)) * time.Millisecond
		}
		name, kind := m.name, m.kind
		m.f = func(next inbuilt.Handler, request *http.Request) *http.Response {
			s := w.step(request, name+"+")
			if s == nil {
				return nil
			}
			if kind == mwStop && request.Headers.Value(stopHeader) == name && s.cur != nil {
				w.step(request, name+"!")
				return http.String(request, "stopped by "+name).Code(status.Forbidden)
			}
			if slow > 0 && s.cur != nil && !s.timed {
				w.r.Sleep(slow)
			}
			resp := next(request)
			w.step(request, name+"-")
			return resp
		}
	}
	return m
}

// visible tells whether the middleware records its steps.
func (m mw) visible() bool { return m.kind == mwPlain || m.kind == mwStop || m.kind == mwSlow }

func mwFuncs(ms []mw) (fs []inbuilt.Middleware) {
	for _, m := range ms {
		fs = append(fs, m.f)
	}
	return fs
}

// leaf is what a path leads to.
type leaf struct {
	name string
	mws  []mw
	any  bool // parameters are of no importance
}

// rnode is a path segment in the model of a router.
type rnode struct {
	statics map[string]*rnode
	wild    *rnode
	name    string
	by      map[string]*leaf
}

func newRnode() *rnode { return &rnode{statics: map[string]*rnode{}, by: map[string]*leaf{}} }

// Table is the model of a router.
type Table struct {
	w                  *World
	warm               bool
	hotMethod, hotPath string
	dynamic            bool
	root               *rnode
	statics            map[string]map[string]*leaf
	paths              []string // templates
	aliases            []KV
	catchers           map[string]*leaf
	static             map[string]string // prefixes of static files and their roots
	handlers           map[int]string    // error handlers
	rootMws            []mw
	mutator            bool
	cnt                int
	wildName           map[string]string
	servers            []string
}

func (w *World) newTable() *Table {
	return &Table{
		w: w, root: newRnode(), statics: map[string]map[string]*leaf{}, catchers: map[string]*leaf{},
		handlers: map[int]string{}, wildName: map[string]string{}, static: map[string]string{},
	}
}

func norm(p string) string {
	p = strings.TrimRight(p, "/")
	if p == "" {
		return "/"
	}
	return p
}

func segments(p string) []string {
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

// find follows a path.
func (t *Table) find(p string) (map[string]*leaf, []KV) {
	if !t.dynamic {
		return t.statics[p], nil
	}
	if !strings.HasPrefix(p, "/") {
		return nil, nil
	}
	var params []KV
	n := t.root
	for _, s := range segments(p) {
		if next := n.statics[s]; next != nil {
			n = next
		} else if n.wild != nil && s != "" {
			if n.name != "" {
				params = append(params, KV{n.name, s})
			}
			n = n.wild
		} else {
			return nil, nil
		}
	}
	if len(n.by) == 0 {
		return nil, nil
	}
	return n.by, params
}

func (t *Table) has(m, p string) bool {
	p = norm(p)
	return t.statics[p] != nil && t.statics[p][m] != nil
}

// add registers a route in the model.
func (t *Table) add(m, p string, l *leaf) {
	p = norm(p)
	if t.statics[p] == nil {
		t.statics[p] = map[string]*leaf{}
		t.paths = append(t.paths, p)
	}
	t.statics[p][m] = l
	n := t.root
	for _, s := range segments(p) {
		if strings.HasPrefix(s, "{") {
			t.dynamic = true
			if n.wild == nil {
				n.wild = newRnode()
				n.name = s[1 : len(s)-1]
			}
			n = n.wild
			continue
		}
		if n.statics[s] == nil {
			n.statics[s] = newRnode()
		}
		n = n.statics[s]
	}
	n.by[m] = l
}

// path makes a template. Parameters at one place have one name.
func (t *Table) path(prefix string) string {
	w := t.w
	p := ""
	for i, n := 0, w.pick(2, 5, 4, 2); i < n; i++ {
		if t.dynamicAllowed() && w.chance(1, 3) {
			key := norm(prefix + p)
			if _, ok := t.wildName[key]; !ok {
				t.wildName[key] = w.oneStr("id", "name", "", "a", "b", "c") + ""
				if t.wildName[key] != "" && w.chance(1, 2) {
					t.wildName[key] += w.token(1, 3)
				}
			}
			p += "/{" + t.wildName[key] + "}"
			continue
		}
		p += "/" + w.oneStr("a", "b", "c", "api", "users", "v1", "items", "x.html", "moved", w.token(1, 5))
	}
	return p
}

func (t *Table) dynamicAllowed() bool { return t.w.tableDynamic }

// makeLeaf is a handler which checks that it is the right one.
func (t *Table) makeLeaf(l *leaf) inbuilt.Handler {
	w := t.w
	return func(request *http.Request) *http.Response {
		s := w.step(request, l.name)
		if s == nil {
			return nil
		}
		q := s.cur
		if q == nil {
			s.violate("dispatch", "handler %s is called for an error", l.name)
			return nil
		}
		if s.wild {
			w.readBody(s, q, request)
			return w.give(q, request)
		}
		if q.leaf != "" {
			s.violate("dispatch", "request %d (%s %q) reached handler %s after %s", s.calls-1, q.Method, q.Path, l.name, q.leaf)
			return nil
		}
		q.leaf = l.name
		if l.name != q.Route {
			s.violate("dispatch", "request %d (%s %q) reached handler %s, want %q", s.calls-1, q.Method, q.Path, l.name, q.Route)
			return nil
		}
		if request.Path != q.routed {
			s.violate("dispatch", "handler %s sees path %q, want %q", l.name, request.Path, q.routed)
			return nil
		}
		if request.Env.AliasFrom != q.aliasFrom {
			s.violate("dispatch", "handler %s sees alias from %q, want %q", l.name, request.Env.AliasFrom, q.aliasFrom)
			return nil
		}
		if v, _ := request.Ctx.Value(mwKey{}).(string); v != q.wantCtx {
			s.violate("dispatch", "handler %s sees the context of %q, want %q", l.name, v, q.wantCtx)
			return nil
		}
		if !l.any {
			if d := q.checkParams(request); d != "" {
				s.violate("params", "handler %s for %q: %s", l.name, q.Path, d)
				return nil
			}
		}
		resp := w.answer(s, q, request)
		if !l.any && !w.r.Failed() && !w.leave {
			if d := q.checkParams(request); d != "" {
				s.violate("params", "handler %s for %q, later: %s", l.name, q.Path, d)
			}
		}
		return resp
	}
}

func (q *Req) checkParams(request *http.Request) string {
	got := request.Params.Unwrap()
	if len(got) != len(q.params) {
		return fmt.Sprintf("parameters are %q, want %q", got, q.params)
	}
	for i, p := range q.params {
		if got[i].Key != p.K || got[i].Value != p.V {
			return fmt.Sprintf("parameters are %q, want %q", got, q.params)
		}
		same := 0
		for _, x := range q.params {
			if strings.EqualFold(x.K, p.K) {
				same++
			}
		}
		if v := request.Params.Value(p.K); v != p.V && same == 1 {
			return fmt.Sprintf("parameter %s is %q, want %q", p.K, v, p.V)
		}
	}
	return ""
}

func methodOf(m string) method.Method { return method.Parse(m) }

// reg registers a handler in one of the possible ways.
func (t *Table) reg(r *inbuilt.Router, m, p string, h inbuilt.Handler, ms []mw) {
	fs := mwFuncs(ms)
	if t.w.chance(1, 4) {
		r.Route(methodOf(m), p, h, fs...)
		return
	}
	switch m {
	case "GET":
		r.Get(p, h, fs...)
	case "HEAD":
		r.Head(p, h, fs...)
	case "POST":
		r.Post(p, h, fs...)
	case "PUT":
		r.Put(p, h, fs...)
	case "DELETE":
		r.Delete(p, h, fs...)
	case "CONNECT":
		r.Connect(p, h, fs...)
	case "OPTIONS":
		r.Options(p, h, fs...)
	case "TRACE":
		r.Trace(p, h, fs...)
	case "PATCH":
		r.Patch(p, h, fs...)
	}
}

func (t *Table) regRes(r inbuilt.Resource, m string, h inbuilt.Handler, ms []mw) {
	fs := mwFuncs(ms)
	if t.w.chance(1, 4) {
		r.Route(methodOf(m), h, fs...)
		return
	}
	switch m {
	case "GET":
		r.Get(h, fs...)
	case "HEAD":
		r.Head(h, fs...)
	case "POST":
		r.Post(h, fs...)
	case "PUT":
		r.Put(h, fs...)
	case "DELETE":
		r.Delete(h, fs...)
	case "CONNECT":
		r.Connect(h, fs...)
	case "OPTIONS":
		r.Options(h, fs...)
	case "TRACE":
		r.Trace(h, fs...)
	case "PATCH":
		r.Patch(h, fs...)
	}
}

// tableOpts limits genTable.
type tableOpts struct {
	noRecover, few, noStop bool
}

// genTable makes a router and its model.
func (w *World) genTable(o tableOpts) (*Table, *inbuilt.Router) {
	t := w.newTable()
	w.tableDynamic = w.chance(2, 3)
	r := inbuilt.New()
	t.fill(r, "", nil, 0, o)
	// error handlers
	if w.chance(1, 2) {
		for i, n := 0, w.between(1, 3); i < n; i++ {
			code := w.oneOf(0, 404, 405, 400, 501, 505, 431, 413, int(status.CloseConnection))
			t.cnt++
			name := fmt.Sprintf("e%d", t.cnt)
			t.handlers[code] = name
			h := t.errHandler(name)
			if code == 0 && w.chance(1, 2) {
				r.RouteError(h)
			} else {
				r.RouteError(h, status.Code(code))
			}
		}
	}
	if w.chance(1, 4) {
		t.mutator = true
		r.Mutator(func(request *http.Request) { w.step(request, "mut") })
	}
	w.errTrail = func(s *Script, err error, path string) []string {
		code := codeOf(err)
		for _, a := range t.aliases {
			if path == a.K {
				path = a.V
			}
		}
		var want []string
		if t.mutator {
			want = append(want, "mut")
		}
		return append(want, t.errSteps(code, path)...)
	}
	return t, r
}

// errSteps is what runs for an error.
func (t *Table) errSteps(code int, path string) (want []string) {
	name := t.errName(code)
	n := redirector(t.rootMws, path)
	for _, m := range t.rootMws[:n] {
		if m.visible() {
			want = append(want, m.name+"+")
		}
	}
	if name != "" && n == len(t.rootMws) {
		want = append(want, name)
	}
	for i := n - 1; i >= 0; i-- {
		if m := t.rootMws[i]; m.visible() {
			want = append(want, m.name+"-")
		}
	}
	return want
}

// redirector is the middleware which sends a path elsewhere.
func redirector(ms []mw, path string) int {
	for i, m := range ms {
		if m.kind == mwRedirect && m.val == path {
			return i
		}
	}
	return len(ms)
}

func (t *Table) errName(code int) string {
	name := t.handlers[code]
	if name == "" && code != 405 {
		name = t.handlers[0]
	}
	return name
}

func (t *Table) errHandler(name string) inbuilt.Handler {
	w := t.w
	return func(request *http.Request) *http.Response {
		s := w.step(request, name)
		if s == nil {
			return nil
		}
		err := request.Env.Error
		if err == nil {
			s.violate("errors", "error handler %s is called without an error", name)
			return nil
		}
		return http.Code(request, status.Code(codeOf(err))).Header("X-Error-By", name).
			String(fmt.Sprintf("%s for client %d: %d", name, s.ID, codeOf(err)))
	}
}

var allMethods = []string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"}

func (t *Table) fill(r *inbuilt.Router, prefix string, mws []mw, depth int, o tableOpts) {
	w := t.w
	own := append([]mw(nil), mws...)
	many := w.pick(3, 3, 1)
	if w.chance(1, 20) {
		many = w.between(3, 9)
	}
	for i := 0; i < many; i++ {
		m := w.genMw(!o.noRecover && w.chance(1, 4), depth == 0)
		if o.noStop && m.kind == mwSlow {
			continue
		}
		own = append(own, m)
	}
	used := own[len(mws):]
	late := w.chance(1, 2)
	if !late {
		r.Use(mwFuncs(used)...)
	}
	if depth == 0 {
		t.rootMws = used
	}
	newLeaf := func(ms []mw) *leaf {
		t.cnt++
		return &leaf{name: fmt.Sprintf("h%d", t.cnt), mws: append(append([]mw(nil), own...), ms...)}
	}
	routeMws := func() (ms []mw) {
		n := w.pick(5, 2, 1)
		if w.chance(1, 30) {
			n = w.between(3, 9)
		}
		for i := 0; i < n; i++ {
			m := w.genMw(!o.noRecover && w.chance(1, 5), false)
			if o.noStop && m.kind == mwSlow {
				continue
			}
			ms = append(ms, m)
		}
		return ms
	}
	n := w.between(1, 5)
	if o.few {
		n = w.between(1, 3)
	}
	if w.chance(1, 10) {
		n = 36 // more than what is searched one by one
	}
	for i := 0; i < n; i++ {
		p := t.path(prefix)
		if n > 30 && i < 34 {
			p = fmt.Sprintf("/%s%d", w.oneStr("k", "l"), i)
		}
		if prefix+p == "" {
			p = "/"
		}
		for j, k := 0, w.pick(6, 3, 1)+1; j < k; j++ {
			m := allMethods[w.draw(3)]
			if w.chance(1, 3) {
				m = allMethods[w.draw(len(allMethods))]
			}
			if t.has(m, prefix+p) {
				continue
			}
			ms := routeMws()
			l := newLeaf(ms)
			t.add(m, prefix+p, l)
			wp := p
			if w.chance(1, 8) && prefix+p != "/" {
				wp += "/"
			}
			t.reg(r, m, wp, t.makeLeaf(l), ms)
		}
	}
	if w.chance(1, 4) {
		// a resource
		p := t.path(prefix)
		if p == "" {
			p = "/res"
		}
		res := r.Resource(p)
		var rms []mw
		for i, n := 0, w.pick(2, 2, 1); i < n; i++ {
			m := w.genMw(false, false)
			if o.noStop && m.kind == mwSlow {
				continue
			}
			rms = append(rms, m)
			res.Use(m.f)
		}
		for _, m := range allMethods {
			if !w.chance(1, 3) || t.has(m, prefix+p) {
				continue
			}
			ms := routeMws()
			l := newLeaf(append(append([]mw(nil), rms...), ms...))
			t.add(m, prefix+p, l)
			t.regRes(res, m, t.makeLeaf(l), ms)
		}
		if full := norm(prefix + p + "/rest"); w.chance(1, 4) && t.catchers[full] == nil && !strings.Contains(full, "{") {
			ms := routeMws()
			l := newLeaf(append(append([]mw(nil), rms...), ms...))
			l.any = true
			t.catchers[full] = l
			res.Catch("/rest", t.makeLeaf(l), mwFuncs(ms)...)
		}
	}
	for i, n := 0, w.pick(9, 3, 1, 1); i < n; i++ {
		p := "/" + w.oneStr("a", "ap", "api", "b", "files", "x")
		if w.chance(1, 5) {
			p = "/"
		}
		full := norm(prefix + p)
		if t.catchers[full] == nil && !strings.Contains(full, "{") {
			ms := routeMws()
			l := newLeaf(ms)
			l.any = true
			t.catchers[full] = l
			r.Catch(p, t.makeLeaf(l), mwFuncs(ms)...)
		}
	}
	for i, n := 0, w.pick(12, 3, 1, 1); i < n; i++ {
		from := "/" + w.oneStr("old", "a", "gone", "x/y")
		to := ""
		if len(t.paths) > 0 {
			to = t.instance(t.paths[w.draw(len(t.paths))], false)
		}
		dup := to == "" || strings.Contains(prefix, "{")
		for _, a := range t.aliases {
			dup = dup || a.K == prefix+from || a.K == to
		}
		if !dup {
			t.aliases = append(t.aliases, KV{prefix + from, to})
			r.Alias(from, to)
		}
	}
	if depth < 2 && !o.few {
		for i, n := 0, w.pick(3, 2, 1); i < n; i++ {
			p := t.path(prefix)
			if p == "" {
				continue
			}
			t.fill(r.Group(p), prefix+p, own, depth+1, o)
		}
	}
	if late {
		r.Use(mwFuncs(used)...)
	}
}

// instance gives values to the parameters of a template.
func (t *Table) instance(p string, odd bool) string {
	w := t.w
	out := ""
	for _, s := range segments(p) {
		if strings.HasPrefix(s, "{") {
			s = w.oneStr(w.token(1, 8), "a", "api", "users", "42", "x y", "\xff\x00", "{id}")
			if odd && w.chance(1, 4) {
				_, s = w.pathSeg(1, 6)
			}
		}
		out += "/" + s
	}
	if out == "" {
		out = "/"
	}
	return out
}

// target draws a path which may or may not be known.
func (t *Table) target() string {
	w := t.w
	p := "/"
	if len(t.paths) > 0 {
		p = t.instance(t.paths[w.draw(len(t.paths))], true)
	}
	switch w.pick(12, 2, 2, 2, 2, 2, 1, 1, 1) {
	case 1:
		p += "/"
	case 2:
		p = strings.TrimSuffix(p, "/") + "/" + w.oneStr("a", "zz", "api", "")
	case 3:
		if i := strings.LastIndexByte(p, '/'); i > 0 {
			p = p[:i]
		}
	case 4:
		if len(t.aliases) > 0 {
			p = t.aliases[w.draw(len(t.aliases))].K
		}
	case 5:
		var cs []string
		for c := range t.catchers {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		if len(cs) > 0 {
			p = cs[w.draw(len(cs))] + w.oneStr("", "x", "/deep/er", "/")
		}
	case 6:
		p = strings.Replace(p, "/", "//", 1)
	case 7:
		p = w.oneStr("/", "//", "///", "*", "x", "/nowhere", "/nowhere/at/all", movedPath, movedPath+"/")
	case 8:
		p = strings.ToUpper(p)
	}
	return p
}

// route makes a request and tells what has to come out of it.
func (t *Table) route(s *Script, g genOpts, po planOpts) *Req {
	w := t.w
	g.path = t.target()
	byM, _ := t.resolve(g.path)
	if len(byM) > 0 && w.chance(2, 3) {
		var ms []string
		for m := range byM {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		g.method = ms[w.draw(len(ms))]
		if g.method == "GET" && w.chance(1, 3) {
			g.method = "HEAD"
		}
	} else {
		g.method = methods[w.draw(len(methods))]
	}
	if !t.warm {
		// in some runs most requests have something in common
		t.warm = true
		if w.chance(1, 5) {
			t.hotMethod = w.oneStr("TRACE", "TRACE", "GET", "HEAD", "PATCH")
		}
		if w.chance(1, 6) {
			t.hotPath = g.path
		}
	}
	if t.hotMethod != "" && w.chance(3, 4) {
		g.method = t.hotMethod
	}
	if t.hotPath != "" && w.chance(3, 4) {
		g.path = t.hotPath
		byM, _ = t.resolve(g.path)
	}
	stop := ""
	if len(byM) > 0 {
		l := byM[g.method]
		if l == nil && g.method == "HEAD" {
			l = byM["GET"]
		}
		if l != nil && w.chance(1, 4) {
			for _, m := range l.mws {
				if m.kind == mwStop {
					stop = m.name
					g.headers = append(g.headers, KV{stopHeader, stop})
					break
				}
			}
		}
	}
	q := w.genReq(g)
	w.readMode(q)
	q.Plan = w.genPlan(po)
	t.expect(q, stop, po)
	return s.add(q, q.Plan)
}

// resolve applies aliases and follows the path.
func (t *Table) resolve(p string) (map[string]*leaf, string) {
	for _, a := range t.aliases {
		if p == a.K {
			p = a.V
		}
	}
	p = norm2(p)
	by, _ := t.find(p)
	return by, p
}

// norm2 strips trailing slashes of a request path.
func norm2(p string) string {
	if q := strings.TrimRight(p, "/"); q != "" {
		return q
	}
	if strings.HasPrefix(p, "/") {
		return "/"
	}
	return p
}

// expect works out what has to happen with a request.
func (t *Table) expect(q *Req, stop string, po planOpts) {
	w := t.w
	p := q.Path
	for _, a := range t.aliases {
		if p == a.K {
			p, q.aliasFrom = a.V, a.K
		}
	}
	p = norm2(p)
	q.routed = p
	by, params := t.find(p)
	q.want = []string{}
	if t.mutator {
		q.want = append(q.want, "mut")
	}
	var l *leaf
	code := 0
	switch {
	case by == nil:
		best := ""
		for c, cl := range t.catchers {
			if strings.HasPrefix(p, c) && len(c) > len(best) {
				best, l = c, cl
			}
		}
		if l == nil {
			code = 404
		}
	default:
		l = by[q.Method]
		if l == nil && q.Method == "HEAD" {
			l = by["GET"]
		}
		q.params = params
		if l == nil {
			code = 405
			if q.Method == "TRACE" {
				q.Exps = func() []*Exp { return []*Exp{t.traceExp(q)} }
				w.r.Probe("trace-echo")
				return
			}
		}
	}
	if l == nil {
		w.r.Probe(fmt.Sprintf("routed-%d", code))
		q.want = append(q.want, t.errSteps(code, p)...)
		q.Exps = func() []*Exp { return []*Exp{t.errExp(q, code, by)} }
		return
	}
	q.Route = l.name
	var servers []KV
	recover := -1
	for i, m := range l.mws {
		switch m.kind {
		case mwRecover:
			recover = i
		case mwContext:
			q.wantCtx = m.name
		}
	}
	if q.Plan != nil && recover >= 0 && stop == "" && w.chance(1, 3) && !q.Plan.unsized() {
		q.Plan.Panics = true
		q.Plan.Dirty = false
	}
	panics := q.Plan.Panics
	done := len(l.mws)
	stopped := false
	moved := redirector(l.mws, p)
	for i, m := range l.mws {
		if i == moved {
			w.r.Probe("redirected")
			done, stopped, panics = i, true, false
			break
		}
		if m.visible() {
			q.want = append(q.want, m.name+"+")
		}
		if stop != "" && m.name == stop {
			q.want = append(q.want, m.name+"!")
			done, stopped = i, true
			break
		}
	}
	if stopped {
		q.Route = ""
	} else {
		q.want = append(q.want, l.name)
	}
	if panics {
		done = recover
	}
	for i := done - 1; i >= 0; i-- {
		if m := l.mws[i]; m.visible() {
			q.want = append(q.want, m.name+"-")
		} else if m.kind == mwServer {
			servers = append(servers, KV{"Server", m.val})
		}
	}
	switch {
	case stopped && done == moved:
		q.Plan.Panics = false
		q.Exps = func() []*Exp { return []*Exp{moveExp(q, l.mws[moved].name, servers)} }
	case stopped:
		q.Exps = func() []*Exp {
			return []*Exp{{
				Proto: q.FinalProt, Codes: []int{403}, CType: "text/html", Body: []byte("stopped by " + stop), Size: len("stopped by " + stop),
				Head: q.Method == "HEAD", Defaults: q.defaults, Headers: servers,
			}}
		}
	case panics:
		w.r.Probe("panic-recovered")
		q.Exps = func() []*Exp {
			return []*Exp{{
				Proto: q.FinalProt, Codes: []int{500}, CType: "text/html", AnyBody: true,
				Head: q.Method == "HEAD", Defaults: q.defaults, Headers: servers,
			}}
		}
	default:
		q.extra = servers
	}
}

// moveExp is what the redirecting middleware answers.
func moveExp(q *Req, name string, servers []KV) *Exp {
	return &Exp{
		Proto: q.FinalProt, Codes: []int{307}, CType: "text/html", Head: q.Method == "HEAD", Defaults: q.defaults,
		Headers: append([]KV{{"Location", "/to/" + name}}, servers...),
	}
}

func (t *Table) errExp(q *Req, code int, by map[string]*leaf) *Exp {
	e := &Exp{Proto: q.FinalProt, Codes: []int{code}, CType: "text/html", Head: q.Method == "HEAD", Defaults: q.defaults, AnyBody: true}
	n := redirector(t.rootMws, q.routed)
	for i := n - 1; i >= 0; i-- {
		if m := t.rootMws[i]; m.kind == mwServer {
			e.Headers = append(e.Headers, KV{"Server", m.val})
		}
	}
	if n < len(t.rootMws) {
		return moveExp(q, t.rootMws[n].name, e.Headers)
	}
	if name := t.errName(code); name != "" {
		e.AnyBody = false
		e.Body = []byte(fmt.Sprintf("%s for client %d: %d", name, q.script.ID, code))
		e.Size = len(e.Body)
		e.Headers = append([]KV{{"X-Error-By", name}}, e.Headers...)
	} else if code == 405 {
		e.AnyHdr = true
		e.Extra = func(r *Resp) string {
			v := r.values("allow")
			if len(v) != 1 {
				return fmt.Sprintf("Allow is %q", v)
			}
			got := map[string]bool{}
			for _, m := range strings.Split(v[0], ",") {
				m = strings.TrimSpace(m)
				if got[m] {
					return fmt.Sprintf("Allow repeats %s: %q", m, v[0])
				}
				got[m] = true
			}
			for m := range by {
				if !got[m] {
					return fmt.Sprintf("Allow is %q, lacks %s", v[0], m)
				}
				delete(got, m)
			}
			if by["GET"] != nil {
				delete(got, "HEAD")
			}
			if len(got) > 0 {
				return fmt.Sprintf("Allow is %q, which is too much", v[0])
			}
			return ""
		}
	}
	return e
}

// traceExp is the echo of a TRACE request.
func (t *Table) traceExp(q *Req) *Exp {
	target := q.routed
	if q.RawQuery != "" {
		target += "?" + q.RawQuery
	}
	var b strings.Builder
	fmt.Fprintf(&b, "TRACE %s %s\r\n", target, q.Proto)
	for _, h := range q.Headers {
		fmt.Fprintf(&b, "%s: %s\r\n", h.K, h.V)
	}
	b.WriteString("Content-Length: 0\r\n\r\n")
	return &Exp{
		Proto: q.FinalProt, Codes: []int{200}, CType: "message/http", Body: []byte(b.String()), Size: b.Len(), Defaults: q.defaults,
	}
}
