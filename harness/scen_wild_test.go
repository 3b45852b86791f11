package verifsim

import (
	"fmt"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/virtual"
)

func init() {
	scenarios["C08"] = scenC08
	scenarios["C22"] = scenC22
}

var pieces = []string{
	"GET ", "POST ", "HEAD ", "TRACE ", "/", "/a", "*", "http://x/", "%", "%2", "%zz", "%00", "%20", "%2f", "?", "?a=b", "=", "&", "&&", "+", "#",
	" ", "  ", "HTTP/1.1", " HTTP/1.1", " HTTP/1.0", "HTTP/2", "\r\n", "\n", "\r", "\r\n\r\n", "\n\n", ":", ": ", ",", ";", "\x00", "\xff", "\t",
	"Host: a\r\n", "Host:\r\n", "host: [::1]:80\r\n", "Host: :80\r\n", "Content-Length: 3\r\n", "Content-Length: 99999999999999999999\r\n", "Content-Length:\r\n", "Content-Length: 0\r\n", "content-length: 4096\r\n",
	"Transfer-Encoding: chunked\r\n", "Transfer-Encoding:\r\n", "transfer-encoding: ,,chunked,\r\n", "Trailer: x\r\n", "Connection: close\r\n", "Connection: keep-alive\r\n", "Upgrade: HTTP/1.0\r\n", "Upgrade: h2c, HTTP/1.1\r\n", "Upgrade:\r\n", "Upgrade: ,\r\n",
	"Cookie: a=b; c=d\r\n", "Cookie: =\r\n", "Cookie: ;\r\n", "Cookie: a\r\n", "Cookie: a=\r\n", "Cookie: a=b;\r\n", "Cookie: a=b; \r\n", "Cookie:\r\n",
	"Content-Encoding: gzip\r\n", "Content-Type: application/json\r\n", "X: ", "X:\n", "{}", "0\r\n\r\n", "0\r\n", "3\r\nabc\r\n", "ffffffffffffffff\r\n", "5;x\r\n", "a\r\n", "0",
}

// wildBytes makes a stream nobody knows the meaning of.
func (w *World) wildBytes(target func() string) []byte {
	var b []byte
	for i, n := 0, w.between(1, 4); i < n; i++ {
		switch w.pick(3, 4, 1) {
		case 0:
			for j, k := 0, w.between(1, 25); j < k; j++ {
				b = append(b, pieces[w.draw(len(pieces))]...)
			}
		case 1:
			var q *Req
			if w.chance(1, 4) {
				q = w.genBad()
			} else {
				q = w.genReq(genOpts{path: target(), maxBody: 60})
			}
			b = append(b, w.mutate(q.raw())...)
		default:
			for j, k := 0, w.between(1, 60); j < k; j++ {
				b = append(b, byte(w.draw(256)))
			}
		}
	}
	return b
}

// mutate changes some bytes.
func (w *World) mutate(b []byte) []byte {
	for i, n := 0, w.pick(1, 4, 2, 1); i < n && len(b) > 0; i++ {
		at := w.draw(len(b))
		end := at + w.between(0, len(b)-at)
		if end > at+12 && w.chance(3, 4) {
			end = at + w.draw(12)
		}
		switch w.draw(7) {
		case 0:
			b[at] ^= byte(1 << uint(w.draw(8)))
		case 1:
			b = append(b[:at:at], b[end:]...)
		case 2:
			b = append(b[:at:at], append([]byte(pieces[w.draw(len(pieces))]), b[at:]...)...)
		case 3:
			b = append(b[:end:end], b[at:]...)
		case 4:
			b = b[:at]
		case 5:
			b[at] = "\r\n :%\x00=;,&?/0"[w.draw(13)]
		default:
			b = append(b[:at:at], append([]byte(strings.Repeat(string(b[at:at+1]), w.between(1, 300))), b[at:]...)...)
		}
	}
	return b
}

// wildTalk is a client which knows no rules.
func (w *World) wildTalk(s *Script, target func() string) {
	w.network(s)
	s.wild, s.noVerify = true, true
	if w.chance(1, 5) {
		s.prof.WriteFailAt = w.draw(400)
	}
	if w.chance(1, 20) {
		s.prof.NoDeadline = true
	}
	if w.chance(1, 5) {
		s.abortAfter = time.Duration(1+w.draw(4000)) * time.Millisecond
	}
	raw := w.wildBytes(target)
	if w.chance(1, 12) {
		raw = nil
	}
	never := w.chance(1, 6) // does not read at all
	if never {
		s.prof.Window = 1 + w.draw(60)
	}
	wait := time.Duration(w.draw(200)) * time.Second
	s.onTalk = func() {
		p := s.peer
		s.send(raw)
		if d := p.LastArrival() - w.r.Now(); d > 0 {
			w.r.Sleep(d)
		}
		if never {
			w.r.Fault("client-never-reads")
			w.r.Sleep(wait)
			p.Abort(false)
			return
		}
		for !p.Over() && w.r.Chance("net", 2, 3) {
			if !s.peer.Recv(wait, s.recvMax) {
				break
			}
		}
	}
}

// pokeAll uses accessors of a request nothing is known about.
func pokeAll(r *http.Request) {
	_ = r.Headers.Keys()
	for _, p := range r.Headers.Unwrap() {
		_ = headers.ValueOf(p.Value)
		_ = headers.QualityOf(p.Value)
		_ = headers.CharsetOf(p.Value)
		_ = headers.ParamOf(p.Value, p.Key)
	}
	_ = r.Headers.Clone()
	_ = http.Escape(r.Path)
	_ = r.Proto.String()
	_ = r.Upgrade.String()
	_ = r.Method.String()
	_ = r.Params.Keys()
}

// wildRouter draws a router and the paths it knows.
func (w *World) wildRouter() (router.Fabric, *Table, func() string) {
	any := func() string { return w.oneStr("/", "/a", "/a/b", "/static/x", "/x y") }
	switch w.pick(3, 4, 1) {
	case 0:
		return w.simple(), nil, any
	case 1:
		t, r := w.genTable(tableOpts{few: true})
		free := true
		for p := range t.catchers {
			if strings.HasPrefix("/st-files", p) || strings.HasPrefix(p, "/st-files") {
				free = false
			}
		}
		if free {
			st := w.genSite(0)
			st.prefix = "/st-files"
			r.Static(st.prefix, st.root)
			return w.front(r), t, func() string {
				if w.chance(1, 4) {
					return w.fileTarget(st)
				}
				return t.target()
			}
		}
		return w.front(r), t, t.target
	default:
		v := virtual.New().Default(w.simple())
		v.Host("wild.example", inbuilt.New().Get("/", func(r *http.Request) *http.Response { return http.String(r, "wild") }))
		return v, nil, any
	}
}

// C08: no input and no fault can do any harm.
func scenC08(w *World) {
	w.tune()
	if w.chance(1, 3) {
		// limits are met
		w.cfg.URL.BufferSize.Maximal = w.between(600, 2000)
		w.cfg.Headers.Number.Maximal = w.between(20, 50)
		w.cfg.Body.MaxSize = uint(w.between(300, 1000))
	}
	if w.chance(1, 3) {
		w.cfg.TCP.ReadTimeout = time.Duration(w.between(3, 20)) * time.Second
	}
	w.newApp()
	w.secrets()
	fab, t, target := w.wildRouter()
	good := func(n int) *Script {
		s := w.script(mainAddr)
		w.network(s)
		s.maxGap = 500 * time.Millisecond
		if t != nil {
			w.routedTalk(s, t, n, genOpts{maxBody: 30}, planOpts{simple: true, maxBody: 40})
		} else {
			w.conversation(s, n, genOpts{maxBody: 60}, planOpts{maxBody: 60})
		}
		if w.cfg.TCP.ReadTimeout < 30*time.Second {
			s.delayBetw = 0
			for _, q := range s.reqs {
				if q.Plan != nil && q.Plan.Delay > time.Second {
					q.Plan.Delay = time.Second
				}
			}
		}
		return s
	}
	for i, n := 0, w.between(0, 2); i < n; i++ {
		good(w.between(1, 4))
	}
	for i, n := 0, w.between(1, 3); i < n; i++ {
		w.wildTalk(w.script(mainAddr), target)
	}
	w.serve(fab)
	w.runAll()
	// and afterwards
	w.all = nil
	good(w.between(1, 2))
	w.runAll()
	w.stop()
}

// C22: clients which come and go do not wear the server out.
func scenC22(w *World) {
	w.tune()
	w.cfg.TCP.ReadTimeout = time.Duration(w.between(2, 30)) * time.Second
	w.newApp()
	w.secrets()
	fab, t, target := w.wildRouter()
	w.noLeakCheck = false
	wave := func() {
		for i, n := 0, w.between(2, 9); i < n; i++ {
			s := w.script(mainAddr)
			s.startDelay = time.Duration(w.draw(4000)) * time.Millisecond
			switch w.pick(3, 3, 2, 2) {
			case 0:
				w.wildTalk(s, target)
				s.startDelay = time.Duration(w.draw(4000)) * time.Millisecond
			case 1: // gone at once
				s.wild, s.noVerify = true, true
				how := w.draw(3)
				s.onTalk = func() {
					w.r.Fault("client-gone-at-once")
					switch how {
					case 0:
						s.peer.Abort(true)
					case 1:
						s.peer.Close(0)
					default:
						s.peer.CloseWrite(0)
					}
				}
			case 2: // silent
				s.wild, s.noVerify = true, true
				s.end = endIdle
				head := w.oneStr("", "G", "GET / HTTP/1.1\r\nA", "POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\nab")
				s.onTalk = func() {
					w.r.Fault("client-silent")
					s.send([]byte(head))
				}
			default: // asks for much and reads nothing
				s.wild, s.noVerify = true, true
				s.prof.Window = 1
				stay := time.Duration(1+w.draw(100)) * time.Second
				s.onTalk = func() {
					w.r.Fault("client-never-reads")
					s.send([]byte(strings.Repeat("GET "+"/"+" HTTP/1.1\r\n\r\n", 5)))
					w.r.Sleep(stay)
					s.peer.Abort(false)
				}
			}
		}
	}
	good := func() {
		s := w.script(mainAddr)
		w.network(s)
		s.timed = true
		s.pipeline = 0
		s.slowRead, s.prof.Window, s.recvMax = false, 0, 0
		s.maxGap = 300 * time.Millisecond
		s.delayBetw = time.Second
		s.startDelay = time.Duration(w.draw(5000)) * time.Millisecond
		n := w.between(1, 3)
		if t != nil {
			w.routedTalk(s, t, n, genOpts{maxBody: 30}, planOpts{simple: true, maxBody: 40})
		} else {
			w.conversation(s, n, genOpts{maxBody: 60}, planOpts{simple: true, maxBody: 60})
		}
		for _, q := range s.reqs {
			if q.Plan != nil && q.Plan.Delay > time.Second {
				q.Plan.Delay = time.Second
			}
		}
	}
	// a crowd is many clients of one kind at (almost) the same time
	crowd := func() {
		w.r.Probe("crowd")
		kind := w.draw(4)
		top := w.oneOf(20, 40, 70, 140, 270)
		spread := w.oneOf(1, 1000, 4000)
		for i, n := 0, w.between(top/2, top); i < n; i++ {
			s := w.script(mainAddr)
			s.wild, s.noVerify = true, true
			s.startDelay = time.Duration(w.draw(spread)) * time.Millisecond
			switch kind {
			case 0: // silent
				s.end = endIdle
				s.onTalk = func() {}
			case 1: // gone at once
				s.onTalk = func() { s.peer.Abort(true) }
			case 2: // refused
				s.end = endIdle
				s.onTalk = func() { s.send([]byte("BAD\r\n\r\n")) }
			default: // leaves in the middle of a request
				s.end = endClose
				s.onTalk = func() { s.send([]byte("GET / HTTP/1.1\r\nA")) }
			}
		}
	}
	w.serve(fab)
	crowded := w.chance(1, 6)
	for i, n := 0, w.between(1, 4); i < n && !w.r.Failed(); i++ {
		w.all = nil
		if crowded && w.chance(1, 2) {
			crowd()
		} else {
			wave()
		}
		for j, k := 0, w.between(1, 2); j < k; j++ {
			good()
		}
		w.runAll()
	}
	w.stop()
}

var _ = fmt.Sprint
