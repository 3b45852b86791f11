package verifsim

import (
	"bytes"
	"io"
	"strconv"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
)

func init() {
	scenarios["C25"] = scenC25
}

// tally is what the application has been told about a connection.
type tally struct {
	requests int
	inside   bool
	hijacked bool
	ends     []error
}

// tallyFabric stands in front of a router and notes every call.
type tallyFabric struct {
	w     *World
	inner router.Fabric
	by    map[string]*tally
}

type tallyRouter struct {
	*tallyFabric
	r router.Router
}

func (t *tallyFabric) Initialize() router.Router { return &tallyRouter{t, t.inner.Initialize()} }

func (t *tallyRouter) of(request *http.Request) *tally {
	a := request.Remote.String()
	if t.by[a] == nil {
		t.by[a] = &tally{}
	}
	return t.by[a]
}

func (t *tallyRouter) OnRequest(request *http.Request) *http.Response {
	c := t.of(request)
	if c.inside || len(c.ends) > 0 || c.hijacked {
		t.w.violate("ends", "%s: a request is handled; meanwhile another one: %v, told about the end: %v, hijacked: %v", request.Remote, c.inside, c.ends, c.hijacked)
		return nil
	}
	c.requests++
	c.inside = true
	resp := t.r.OnRequest(request)
	c.inside = false
	c.hijacked = request.WasHijacked()
	return resp
}

func (t *tallyRouter) OnError(request *http.Request, err error) *http.Response {
	c := t.of(request)
	if c.inside || len(c.ends) > 0 || c.hijacked {
		t.w.violate("ends", "%s: told about %v; a request is being handled: %v, told before about: %v, hijacked: %v", request.Remote, err, c.inside, c.ends, c.hijacked)
		return http.Respond(request)
	}
	if _, ok := err.(status.HTTPError); !ok {
		t.w.violate("ends", "%s: told about %v", request.Remote, err)
	}
	c.ends = append(c.ends, err)
	return t.r.OnError(request, err)
}

// forever is a stream which never ends.
type forever struct {
	w      *World
	pos    int
	piece  int
	zeros  bool
	closed int
	late   bool
}

func foreverByte(i int) byte { return byte('a' + i%23) }

func (f *forever) Read(b []byte) (int, error) {
	if f.closed > 0 {
		f.late = true
	}
	if f.zeros && f.w.r.Chance("app", 1, 4) {
		return 0, nil
	}
	if f.piece > 0 && len(b) > f.piece {
		b = b[:f.piece]
	}
	for i := range b {
		b[i] = foreverByte(f.pos)
		f.pos++
	}
	return len(b), nil
}

func (f *forever) Close() error { f.closed++; return nil }

// endlessTalk is a client which gets a response without an end and leaves at some moment.
func (w *World) endlessTalk(s *Script) {
	s.prof.Window = w.between(1, w.oneOf(50, 3000))
	s.noVerify = true
	s.end = endClose
	src := &forever{w: w, piece: w.oneOf(0, 1, 7, 100), zeros: w.chance(1, 4)}
	size := w.oneOf(0, -1, 1<<40)
	q := w.genReq(genOpts{maxBody: 30, noUpgrade: true, noClose: w.chance(1, 2)})
	w.readMode(q)
	q.Plan = w.genPlan(planOpts{simple: true})
	given := false
	q.Custom = func(s *Script, request *http.Request) *http.Response {
		w.readBody(s, q, request)
		given = true
		return request.Respond().Attachment(src, size)
	}
	q.Exps = func() []*Exp { return nil }
	s.add(q, q.Plan)
	q.cached = []*Exp{}
	want := w.draw(w.oneOf(100, 2000))
	how := w.draw(4)
	if how == 3 {
		s.prof.WriteFailAt = want
		w.r.Fault("write-failure-armed")
	}
	patience := 30 * time.Second
	s.onTalk = func() {
		p := s.peer
		if !s.send(q.raw()) {
			return
		}
		for len(p.Got) < want || how == 3 {
			if !p.Recv(patience, s.recvMax) || p.Over() {
				break
			}
		}
		w.r.Probe("endless-response")
		s.checkEndless(p.Got, q)
		s.maybe = true // the body may be lost with the connection
		switch how {
		case 0:
			p.Abort(true)
		case 1:
			p.Abort(false)
		default:
			p.Close(0)
		}
		w.r.Fault("client-leaves-endless-response")
	}
	s.afterTalk = func() {
		w.r.Park("given up", func() bool { return p0(s) }, nil)
		if given && src.closed != 1 {
			s.violate("leak-stream", "the endless stream has been closed %d times", src.closed)
		}
		if src.late {
			s.violate("leak-stream", "the endless stream is read after it has been closed")
		}
	}
}

func p0(s *Script) bool { return s.peer.C.Closed }

// checkEndless compares the beginning of a response without an end.
func (s *Script) checkEndless(got []byte, q *Req) {
	end := bytes.Index(got, []byte("\r\n\r\n"))
	if end == -1 {
		return
	}
	head, body := got[:end], got[end+4:]
	if q.Method == "HEAD" {
		if len(body) > 0 {
			s.violate("response", "a body in the response to HEAD: %s", hexs(body))
		}
		return
	}
	if bytes.Contains(bytes.ToLower(head), []byte("transfer-encoding: chunked")) {
		body = chunkedPrefix(body)
		if body == nil {
			s.violate("response", "malformed chunks in %s", hexs(got))
			return
		}
	}
	for i, b := range body {
		if b != foreverByte(i) {
			s.violate("response", "byte %d of an endless response is %q: %s", i, b, hexs(got))
			return
		}
	}
}

// chunkedPrefix decodes as many chunks as there are.
func chunkedPrefix(b []byte) []byte {
	out := []byte{}
	for len(b) > 0 {
		nl := bytes.Index(b, []byte("\r\n"))
		if nl == -1 {
			return out
		}
		n, err := strconv.ParseUint(string(b[:nl]), 16, 32)
		if err != nil || n == 0 {
			return nil
		}
		b = b[nl+2:]
		if int(n) >= len(b) {
			return append(out, b...)
		}
		out = append(out, b[:n]...)
		b = b[n:]
		if len(b) == 1 && b[0] != '\r' || len(b) >= 2 && string(b[:2]) != "\r\n" {
			return nil
		}
		if len(b) < 2 {
			return out
		}
		b = b[2:]
	}
	return out
}

var _ io.ReadCloser = &forever{}

// C25: the application is told about the end of every connection.
func scenC25(w *World) {
	w.tune()
	w.cfg.TCP.ReadTimeout = time.Duration(w.between(1, 60)) * time.Second
	w.newApp()
	w.secrets()
	fab, t, target := w.wildRouter()
	for i, n := 0, w.between(1, 4); i < n; i++ {
		s := w.script(mainAddr)
		kind := w.pick(4, 3, 2, 2, 2)
		if t != nil && kind != 1 && kind != 4 {
			kind = 0
		}
		switch kind {
		case 1:
			w.wildTalk(s, target)
			continue
		case 4: // gone at once
			s.wild, s.noVerify = true, true
			how := w.draw(3)
			s.onTalk = func() {
				w.r.Fault("client-gone-at-once")
				switch how {
				case 0:
					s.peer.Abort(true)
				case 1:
					s.peer.Close(0)
				default:
					s.peer.CloseWrite(0)
				}
			}
			continue
		}
		w.network(s)
		s.slowRead = false
		s.maxGap, s.delayBetw = 300*time.Millisecond, 300*time.Millisecond
		if s.prof.Latency > 200*time.Millisecond {
			s.prof.Latency = 200 * time.Millisecond
		}
		switch kind {
		case 2:
			w.endlessTalk(s)
			continue
		case 3:
			w.conversation(s, w.between(0, 2), genOpts{maxBody: 50, noClose: true, noHTTP10: true}, planOpts{simple: true, maxBody: 40})
			w.hijacker(s, planOpts{simple: true})
			continue
		}
		if t != nil {
			w.routedTalk(s, t, w.between(0, 4), genOpts{maxBody: 30}, planOpts{simple: true, maxBody: 40})
		} else {
			w.conversation(s, w.between(0, 4), genOpts{maxBody: 60}, planOpts{streams: true, failing: w.chance(1, 2), maxBody: 200})
		}
		if t == nil && w.chance(1, 5) {
			s.add(w.genBad(), nil)
		}
		for _, q := range s.reqs {
			if q.Plan == nil {
				continue
			}
			if src := q.Plan.Src; src != nil && src.stall > 300*time.Millisecond {
				src.stall = 300 * time.Millisecond
			}
		}
		switch w.pick(4, 2, 2, 1, 2) {
		case 1:
			w.cut(s)
		case 2:
			s.prof.WriteFailAt = w.draw(800)
			w.r.Fault("write-failure-armed")
		case 3:
			s.prof.NoDeadline = true
			w.r.Fault("deadline-failure-armed")
		case 4:
			s.abortAfter = time.Duration(1+w.draw(3000)) * time.Millisecond
		}
	}
	told := &tallyFabric{w: w, inner: fab, by: map[string]*tally{}}
	w.serve(told)
	w.runAll()
	w.r.Sleep(10 * time.Minute) // whoever is left is dropped
	w.stop()
	if w.r.Failed() {
		return
	}
	for _, c := range w.r.Net.Conns {
		if !c.Accepted {
			continue
		}
		a := told.by[c.Remote()]
		switch {
		case a == nil:
			w.violate("ends", "%s: the connection has ended, and nothing was told about it", c.Remote())
		case a.hijacked && len(a.ends) != 0:
			w.violate("ends", "%s: hijacked, and told about %v", c.Remote(), a.ends)
		case !a.hijacked && len(a.ends) != 1:
			w.violate("ends", "%s: the connection has ended after %d requests, told about it %d times", c.Remote(), a.requests, len(a.ends))
		case a.hijacked:
			w.r.Probe("end-hijacked")
		case codeOf(a.ends[0]) == int(status.CloseConnection):
			w.r.Probe("end-disconnect")
		default:
			w.r.Probe("end-protocol-error")
		}
	}
}
