package verifsim

import (
	"fmt"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/router/inbuilt"
)

func init() {
	scenarios["C16"] = scenC16
}

// C16: routing.
func scenC16(w *World) {
	w.tune()
	w.newApp()
	t, r := w.genTable(tableOpts{})
	if w.chance(1, 25) {
		w.noRouter()
		return
	}
	if w.chance(1, 25) {
		w.badTable(t, r)
		return
	}
	for i, n := 0, w.between(1, 4); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		w.routedTalk(s, t, w.between(1, 6), genOpts{maxBody: 30}, planOpts{simple: w.chance(1, 2), maxBody: 40, streams: w.chance(1, 6)})
		if w.chance(1, 8) {
			w.cut(s)
		}
	}
	if w.chance(1, 12) {
		// whatever it has been used for before
		w.r.Probe("router-used-before")
		r.Initialize()
	}
	w.serve(w.front(r))
	w.runAll()
	w.stop()
}

// badTable adds something to a router that makes no sense: it must not come up.
func (w *World) badTable(t *Table, r *inbuilt.Router) {
	h := func(request *http.Request) *http.Response { return http.Respond(request) }
	var what string
	fails := func(f func()) (failed bool) {
		defer func() { failed = recover() != nil }()
		f()
		return false
	}
	pathAndMethod := func() (p, m string) {
		p = t.paths[w.draw(len(t.paths))]
		for _, k := range methods {
			if t.statics[p][k] != nil && (m == "" || w.chance(1, 2)) {
				m = k
			}
		}
		if p != "/" && w.chance(1, 3) {
			return p + "/", m
		}
		return p, m
	}
	var add func()
	switch kind := w.draw(4); {
	case kind == 0 && len(t.paths) > 0:
		p, m := pathAndMethod()
		what = "a second route " + m + " " + p
		into := r
		if w.chance(1, 2) {
			if at := strings.LastIndexByte(strings.TrimSuffix(p, "/"), '/'); at > 0 && w.chance(1, 2) {
				into, p = r.Group(p[:at]), p[at:]
			} else {
				into = r.Group("")
			}
			what += " in a group"
		}
		add = func() { t.reg(into, m, p, h, nil) }
	case kind == 1 && len(t.paths) > 0 && t.dynamic:
		// a parameter of another name at the same place
		for _, p := range t.paths {
			at := strings.IndexByte(p, '{')
			if at < 0 {
				continue
			}
			p := p[:at] + "{another}" + w.oneStr("", "/x")
			what = "another parameter at one place: " + p
			add = func() { t.reg(r, "GET", p, h, nil) }
		}
	case kind == 2:
		p := "/c" + w.token(1, 4)
		what = "a second catcher of " + p
		r.Catch(p, h)
		add = func() { r.Catch(p+w.oneStr("", "/"), h) }
	}
	if add == nil {
		p := w.oneStr("", "a", "a/b", "{a}", "/a/{b", "/{", "/a/{b}c", "/a{b}", "/x/a{b}/c", "/a/{b{c}}", "/a/{b/c}", "/{a}{b}")
		what = fmt.Sprintf("a route %q", p)
		add = func() { t.reg(r, "GET", p, h, nil) }
	}
	w.r.Probe("bad-table")
	if !fails(add) && !fails(func() { r.Initialize() }) {
		w.violate("bad-table", "%s is accepted", what)
	}
}

// noRouter serves without any router: there is nothing to be found.
func (w *World) noRouter() {
	w.errTrail, w.unseen = nil, true
	w.r.Probe("no-router")
	for i, n := 0, w.between(1, 3); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		for j, k := 0, w.between(1, 4); j < k; j++ {
			q := s.add(w.genReq(genOpts{maxBody: 30}), w.genPlan(planOpts{simple: true}))
			q.Exps = func() []*Exp {
				return []*Exp{{Proto: q.FinalProt, Codes: []int{404}, CType: "text/html", AnyBody: true, Head: q.Method == "HEAD", Defaults: q.defaults}}
			}
		}
		s.end = w.oneOf(endClose, endFIN)
	}
	w.serve(nil)
	w.runAll()
	w.stop()
}

// routedTalk fills a client with requests to a router.
func (w *World) routedTalk(s *Script, t *Table, n int, g genOpts, p planOpts) {
	for i := 0; i < n; i++ {
		q := t.route(s, g, p)
		if q.Plan != nil && w.chance(1, 6) {
			q.Plan.Delay = time.Duration(w.between(1, 3000)) * time.Millisecond
		}
		if w.chance(1, 12) {
			w.upgrade(q)
		}
	}
	if w.chance(1, 10) {
		b := w.genBad()
		b.anyErrBody = true
		s.add(b, nil)
		code := t.errBody(b)
		_ = code
	}
}

// errBody makes a malformed request expect the answer of the router.
func (t *Table) errBody(q *Req) int {
	inner := q.buildExps
	q.Exps = nil
	list := inner()
	e := list[0]
	e.Extra = func(r *Resp) string {
		name := t.errName(r.Code)
		by := r.values("x-error-by")
		if name == "" && len(by) > 0 || name != "" && (len(by) != 1 || by[0] != name) {
			return "the error is answered by " + join(by) + ", want " + name
		}
		return ""
	}
	q.Exps = func() []*Exp { return list }
	return 0
}

func join(v []string) (s string) {
	for _, x := range v {
		s += x + " "
	}
	return s
}
