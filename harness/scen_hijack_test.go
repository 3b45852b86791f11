package verifsim

import (
	"bytes"
	"time"

	"github.com/indigo-web/indigo/http"
)

func init() {
	scenarios["C14"] = scenC14
}

// hijack is a conversation in a protocol of its own: the client sends a piece, the handler
// answers with another one.
type hijack struct {
	in, out [][]byte
	cutAt   int // bytes the client sends in all; -1: everything
	got     []byte
	err     error
	ended   bool // the handler has returned
	endedAt time.Duration
	taken   bool
	wrote   []byte
	tail    bool // the handler reads until the end of the stream
	self    bool // the handler closes the connection
	raw     bool // the handler writes to the bare connection
	linger  time.Duration
	extra   []byte // sent while nobody reads
	reads   int
}

func (h *hijack) all() (b []byte) {
	for _, p := range h.in {
		b = append(b, p...)
	}
	return b
}

// bytesLike makes data which could be taken for HTTP.
func (w *World) bytesLike() []byte {
	switch w.pick(3, 2, 2, 1) {
	case 1:
		return []byte("GET /" + w.token(0, 5) + " HTTP/1.1\r\nHost: a\r\n\r\n")
	case 2:
		return []byte(w.oneStr("\r\n", "0\r\n\r\n", "\r\n\r\n", "5\r\nhello\r\n", "\x00", "POST", " / HTTP/1.1\r\n"))
	}
	return w.content(w.between(1, w.oneOf(8, 60, 700)))
}

// C14: hijacking.
func scenC14(w *World) {
	w.tune()
	w.cfg.TCP.ReadTimeout = time.Duration(w.between(20, 90)) * time.Second
	w.newApp()
	for i, n := 0, w.between(1, 3); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		s.slowRead = false
		w.conversation(s, w.between(0, 3), genOpts{maxBody: 50, noClose: true, noHTTP10: true}, planOpts{simple: w.chance(1, 2), maxBody: 40})
		if w.chance(1, 8) {
			continue // an ordinary client next to them
		}
		w.hijacker(s, planOpts{simple: true})
	}
	w.serve(w.simple())
	w.runAll()
	w.r.Park("closed", func() bool {
		for _, s := range w.all {
			if s.peer != nil && !s.peer.C.Closed {
				return false
			}
		}
		return true
	}, nil)
	w.stop()
	for _, s := range w.all {
		s.endHijack()
	}
}

// hijacker ends the conversation of a client with a hijacked request.
func (w *World) hijacker(s *Script, po planOpts) {
	q := w.genReq(genOpts{maxBody: 60, noUpgrade: true})
	w.readMode(q)
	if q.ReadMode == readJSON {
		q.ReadMode = readNone
	}
	if w.chance(1, 5) {
		w.upgrade(q)
		w.r.Probe("hijacked-upgrade")
	}
	h := &hijack{cutAt: -1, tail: w.chance(1, 2), self: w.chance(1, 6), raw: w.chance(1, 3)}
	for i, n := 0, w.between(0, 3); i < n; i++ {
		var in, out []byte
		for k := w.between(1, 2); k > 0; k-- {
			in = append(in, w.bytesLike()...)
		}
		if i < n-1 || w.chance(1, 2) {
			out = w.bytesLike()
		}
		h.in, h.out = append(h.in, in), append(h.out, out)
	}
	if w.chance(1, 3) {
		h.linger = time.Duration(1+w.draw(4000)) * time.Millisecond
		if w.chance(1, 2) && !h.tail {
			h.extra = w.bytesLike()
		}
	}
	if len(q.Body) > 0 && q.Chunked && w.chance(1, 8) {
		w.spoil(q)
	}
	q.Plan = w.genPlan(po)
	q.Custom = func(s *Script, request *http.Request) *http.Response { return w.runHijack(s, q, h, request) }
	q.Exps = func() []*Exp { return nil }
	s.add(q, q.Plan)
	if q.BodyErr {
		q.Exps = nil
		q.cached = nil
	} else {
		q.Hijack = true
		q.cached = []*Exp{}
	}
	total := s.total()
	switch {
	case q.BodyErr:
	case w.chance(1, 8):
		// the body breaks off
		if len(q.Wire) > 0 {
			s.cutAt = total - len(q.Wire) + w.draw(len(q.Wire))
			s.cutKind = w.draw(4)
			q.Exps, q.cached, q.Hijack = nil, nil, false
		}
	case w.chance(1, 4) && len(h.all()) > 0:
		h.cutAt = w.draw(len(h.all()))
		s.cutKind = w.oneOf(cutFIN, cutFIN, cutReset, cutClose)
	}
	if s.end == endAbort {
		s.end = endClose
	}
	if q.Hijack {
		s.onTalk = func() { s.hijackTalk(q, h) }
		s.hijack = h
	}
}

// runHijack is the handler.
func (w *World) runHijack(s *Script, q *Req, h *hijack, request *http.Request) *http.Response {
	w.readBody(s, q, request)
	if w.r.Failed() {
		return nil
	}
	if request.WasHijacked() {
		s.violate("hijack", "is hijacked before it has been")
		return nil
	}
	client, err := request.Hijack()
	if q.Broken || q.BodyErr {
		if err == nil {
			s.violate("hijack", "the connection is handed over although the body is incomplete or malformed")
		}
		w.r.Probe("hijack-refused")
		return w.give(q, request)
	}
	if err != nil {
		if s.disturbed() {
			return w.give(q, request)
		}
		s.violate("hijack", "Hijack: %v", err)
		return nil
	}
	if !request.WasHijacked() {
		s.violate("hijack", "is not marked as hijacked")
	}
	h.taken = true
	w.r.Probe("hijacked")
	defer func() {
		h.ended = true
		h.endedAt = w.r.Now()
		s.peer.C.Mark(true)
	}()
	if a := client.Remote(); a == nil || a.String() != s.remote() {
		s.violate("hijack", "the remote address is %v", a)
	}
	read := func() bool {
		b, err := client.Read()
		h.reads++
		h.got = append(h.got, b...)
		if err != nil {
			h.err = err
			return false
		}
		return true
	}
	want := 0
	for i := range h.in {
		want += len(h.in[i])
		for len(h.got) < want {
			if !read() {
				return w.give(q, request)
			}
		}
		if len(h.out[i]) > 0 {
			var err error
			h.wrote = append(h.wrote, h.out[i]...)
			if h.raw {
				_, err = client.Conn().Write(h.out[i])
			} else {
				err = client.Write(h.out[i])
			}
			if err != nil {
				h.err = err
				return w.give(q, request)
			}
		}
	}
	if h.linger > 0 {
		// the connection must be left alone meanwhile
		s.peer.C.Mark(true)
		w.r.Sleep(h.linger)
		s.peer.C.Mark(false)
		if c := s.peer.C; c.ReadAfter+c.WriteAfter > 0 {
			s.violate("hijack", "the server itself has read %d times and written %d times on the hijacked connection", c.ReadAfter, c.WriteAfter)
		}
	}
	if h.tail {
		for read() {
		}
	}
	if h.self {
		_ = client.Close()
	}
	return w.give(q, request)
}

// hijackTalk is the client's part.
func (s *Script) hijackTalk(q *Req, h *hijack) {
	w := s.w
	s.talk()
	if s.peer.Over() || w.r.Failed() {
		return
	}
	left := h.cutAt
	answered := 0
	for i, in := range h.in {
		if i > 0 && w.r.Chance("net", 1, 2) {
			w.r.Sleep(time.Duration(w.r.Draw("net", 1500)) * time.Millisecond)
		}
		cut := false
		if left >= 0 {
			if len(in) > left {
				in, cut = in[:left], true
			}
			left -= len(in)
		}
		s.send(in)
		if cut {
			if d := s.peer.LastArrival() - w.r.Now(); d > 0 {
				w.r.Sleep(d)
			}
			w.r.Fault([]string{"hijack-fin", "hijack-reset", "", "hijack-close"}[s.cutKind])
			switch s.cutKind {
			case cutFIN:
				s.end = endFIN
			case cutReset:
				s.peer.Abort(w.r.Chance("net", 1, 3))
				s.maybe = true
			case cutClose:
				s.peer.Close(0)
				s.maybe = true
			}
			return
		}
		answered += len(h.out[i])
		// wait for the answer to it
		if i < len(h.in)-1 || s.end == endClose || w.r.Chance("net", 1, 2) {
			for s.afterResponses() < answered {
				if !s.recv(400 * time.Second) {
					break
				}
			}
		}
	}
	if len(h.extra) > 0 {
		s.send(h.extra)
	}
}

// afterResponses counts the bytes received after the ordinary responses.
func (s *Script) afterResponses() int {
	s.pump()
	if s.parsed < s.upTo(len(s.reqs)) {
		return 0
	}
	return len(s.peer.Got) - s.offset
}

// verifyHijack checks what has become of the hijacked connection.
func (s *Script) verifyHijack() {
	h := s.hijack
	if !h.taken {
		return
	}
	rest := s.peer.Got[s.offset:]
	if s.disturbed() || s.end == endClose {
		if !bytes.HasPrefix(h.wrote, rest) {
			s.violate("hijack", "the client has got %s, the handler wrote %s", hexs(rest), hexs(h.wrote))
		}
	} else if !bytes.Equal(rest, h.wrote) {
		s.violate("hijack", "the client has got %s, the handler wrote %s", hexs(rest), hexs(h.wrote))
	}
}

// endHijack checks, when everything is over, that the server left the connection alone.
func (s *Script) endHijack() {
	h := s.hijack
	if h == nil || s.w.r.Failed() {
		return
	}
	if !h.taken {
		if !s.disturbed() {
			s.violate("hijack", "the connection is not handed over")
		}
		return
	}
	c := s.peer.C
	if s.calls != len(s.reqs) {
		s.violate("calls", "the handler has been called %d times, want %d", s.calls, len(s.reqs))
	}
	if !h.ended {
		s.violate("hijack", "the handler never returns")
		return
	}
	sent := h.all()
	if h.cutAt >= 0 {
		sent = sent[:h.cutAt]
	}
	if h.tail && h.cutAt < 0 {
		sent = append(sent, h.extra...)
	}
	full := append(h.all(), h.extra...)
	if !bytes.HasPrefix(full, h.got) {
		s.violate("hijack", "the handler has got %s, the client sent %s", hexs(h.got), hexs(full))
		return
	}
	if !s.disturbed() && len(h.got) < len(sent) {
		s.violate("hijack", "the handler has got %d of %d bytes, then %v: %s", len(h.got), len(sent), h.err, hexs(h.got))
		return
	}
	if c.ReadAfter+c.WriteAfter > 0 {
		s.violate("hijack", "the server has read %d times and written %d times after the handler", c.ReadAfter, c.WriteAfter)
	}
	if !c.Closed || !h.self && c.ClosedAt != h.endedAt && !s.w.r.Stalls {
		s.violate("hijack", "the connection is closed: %v, at %s, the handler returned at %s", c.Closed, c.ClosedAt, h.endedAt)
	}
}
