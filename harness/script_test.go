package verifsim

import (
	"bytes"
	"fmt"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	sim "verif.local/sim"
)

// How a client ends.
const (
	endFIN   = iota // half-closes, then reads until the server closes
	endClose        // closes when it has all its responses
	endIdle         // stays silent until the server drops it
	endAbort        // resets when it has all its responses
)

// How a client breaks off (see Script.cutAt).
const (
	cutFIN = iota
	cutReset
	cutSilent // sends nothing anymore and waits
	cutClose
)

// Script is a client.
type Script struct {
	w    *World
	ID   int
	addr string
	prof sim.Profile
	peer *sim.Peer

	reqs       []*Req
	pipeline   int // 0: waits for every response; 1: sends everything at once; 2: random
	segMode    int // 0: whole; 1: random cuts; 2: single bytes
	maxGap     time.Duration
	delayBetw  time.Duration // largest pause between requests
	slowRead   bool
	recvMax    int
	startDelay time.Duration
	end        int
	cutAt      int // bytes of the whole stream which are sent; -1: all
	cutKind    int
	abortAfter time.Duration // reset at some moment; 0: never
	mayRefuse  bool
	wild       bool // sends anything
	maybe      bool // may be disturbed at any moment
	noVerify   bool
	onTalk     func() // replaces the conversation
	afterTalk  func()

	// state
	sent     int
	calls    int
	discs    int
	errs     int
	inside   int
	refused  bool
	done     bool
	offset   int // parsed part of Got
	parsed   int // number of complete responses in it
	lastSend time.Duration
	doneAt   time.Duration
	overAt   time.Duration
	slack    time.Duration
	need     int
	tried    int
	chunked  bool
	lost     bool // some responses could not be received because of a fault

	tolerateAfter int

	gapTop   time.Duration // gaps are shorter than that
	dialAt   time.Duration
	busyAt   time.Duration // the last moment a handler began or ended
	enterAt  time.Duration
	dropped  bool // not taken because of a shutdown
	timed    bool // responses must not be delayed by anybody
	lateness time.Duration
	cur      *Req // being routed
	errTrail []string
	hijack   *hijack
	slept    time.Duration
	naps     int
	late     time.Duration // when its part began
	stubborn bool          // does not read for long while the server wants to send
}

func (s *Script) violate(class, f string, a ...interface{}) {
	s.w.violate(class, fmt.Sprintf("client %d (%s): ", s.ID, s.remote())+f, a...)
}

func (s *Script) remote() string {
	if s.peer == nil {
		return s.addr
	}
	return s.peer.C.Remote()
}

// total is the length of the whole stream.
func (s *Script) total() (n int) {
	for _, q := range s.reqs {
		n += len(q.Head) + len(q.Wire)
	}
	return n
}

// settle marks the requests which the cut makes incomplete.
func (s *Script) settle() {
	if s.cutAt < 0 {
		return
	}
	at := 0
	for _, q := range s.reqs {
		if body := at + len(q.Head); s.cutAt >= body && s.cutAt < body+len(q.Wire) {
			q.Broken = true
			if q.Wire != nil && q.BodyErr {
				q.Broken = false
			}
		}
		at += len(q.Head) + len(q.Wire)
	}
}

// model tells how many requests the application must see, how many of them have to be
// answered, and whether the server ends the connection on its own afterwards.
func (s *Script) model() (calls, must int, closes, bad bool) {
	at := 0
	for _, q := range s.reqs {
		if s.cutAt >= 0 && s.cutAt < at+len(q.Head) && !q.Bad {
			return calls, calls, false, false
		}
		if q.Bad {
			if s.cutAt >= 0 && s.cutAt < at+len(q.Head) {
				// it may be refused or may still be incomplete
				return calls, calls, false, true
			}
			return calls, calls + 1, true, true
		}
		calls++
		if q.Broken {
			return calls, calls - 1, false, false
		}
		if q.Closes || q.BodyErr || q.Hijack {
			return calls, calls, true, false
		}
		at += len(q.Head) + len(q.Wire)
	}
	return calls, calls, false, false
}

func (s *Script) run() {
	w := s.w
	s.settle()
	s.dialAt = w.r.Now()
	s.busyAt = s.dialAt
	p, err := w.r.Net.Dial(s.addr, s.prof)
	if err != nil {
		s.refused = true
		s.done = true
		if !s.mayRefuse && !w.stopping(s.dialAt) {
			s.violate("refused", "cannot connect: %v", err)
		}
		return
	}
	s.peer = p
	w.register(s)
	if s.abortAfter > 0 {
		s.maybe = true
		w.r.Spawn("abort", func() {
			w.r.Sleep(s.abortAfter)
			if !s.done {
				p.Abort(w.r.Chance("net", 1, 2))
				w.r.Fault("client-reset-async")
			}
		})
	}
	if s.onTalk != nil {
		s.onTalk()
	} else {
		s.talk()
	}
	s.finish()
	s.done = true
	s.doneAt = w.r.Now()
	if !s.noVerify {
		s.verify()
	}
	if s.afterTalk != nil {
		s.afterTalk()
	}
}

func (s *Script) talk() {
	w := s.w
	for i, q := range s.reqs {
		if i > 0 && s.delayBetw > 0 && w.r.Chance("net", 1, 2) {
			w.r.Sleep(time.Duration(w.r.Draw("net", int(s.delayBetw/time.Millisecond)+1)) * time.Millisecond)
		}
		raw := q.raw()
		at := 0
		for _, g := range q.gates {
			if !s.send(raw[at:g.wire]) || !s.gate(i, q, g) {
				return
			}
			at = g.wire
		}
		if !s.send(raw[at:]) {
			return
		}
		if s.pipeline == 1 || s.pipeline == 2 && w.r.Chance("net", 1, 2) {
			continue
		}
		s.await(i)
		if s.peer.Over() {
			return
		}
		if s.timed && q.Plan != nil && !w.r.Failed() {
			if took := w.r.Now() - s.lastSend; took > q.Plan.Delay+s.prof.Latency {
				s.violate("delayed", "response %d came %s after the request was complete, want %s", i, took, q.Plan.Delay+s.prof.Latency)
				return
			}
		}
	}
}

// gate waits until the handler has got what has been sent.
func (s *Script) gate(i int, q *Req, g gate) bool {
	w := s.w
	for _, p := range s.reqs[:i] {
		if p.Closes || p.BodyErr {
			return true // nobody cares anymore
		}
	}
	end := s.peer.LastArrival()
	if now := w.r.Now(); end < now {
		end = now
	}
	end += time.Second
	ok := func() bool { return q.called > 0 && q.seen >= g.body }
	for !ok() && w.r.Now() < end && !s.peer.Over() && !w.r.Failed() {
		w.r.Sleep(10 * time.Millisecond)
	}
	if ok() {
		w.r.Probe("body-as-it-comes")
		return true
	}
	if !w.r.Failed() && !s.maybe {
		s.violate("body-late", "request %d: %d bytes of the body have arrived a second ago, the handler (called %d times) has got %d of them", i, g.body, q.called, q.seen)
	}
	return false
}

// send puts bytes on the way in pieces. It returns false if the client has broken off.
func (s *Script) send(raw []byte) bool {
	w := s.w
	cut := false
	if s.cutAt >= 0 && s.sent+len(raw) > s.cutAt {
		raw = raw[:s.cutAt-s.sent]
		cut = true
	}
	off := s.peer.LastArrival() - w.r.Now()
	if off < 0 {
		off = 0
	}
	for len(raw) > 0 {
		n := len(raw)
		switch s.segMode {
		case 1:
			if w.r.Chance("net", 2, 3) {
				n = 1 + w.r.Draw("net", len(raw))
			} else if n > 8 {
				n = 1 + w.r.Draw("net", 8)
			}
		case 2:
			n = 1
		}
		s.peer.Send(raw[:n], off)
		s.sent += n
		raw = raw[n:]
		if s.gapTop > 0 {
			if w.r.Chance("net", 1, 2) {
				off += w.gap(s.gapTop)
			}
		} else if s.maxGap > 0 && s.segMode == 1 && w.r.Chance("net", 1, 3) {
			off += time.Duration(1+w.r.Draw("net", int(s.maxGap/time.Millisecond))) * time.Millisecond
		}
	}
	s.lastSend = w.r.Now() + off
	return !cut
}

// pump parses what has arrived.
func (s *Script) pump() {
	for {
		e := s.expect(s.parsed)
		if e == nil || s.offset >= len(s.peer.Got) {
			return
		}
		if got := s.peer.Got; !s.peer.Over() {
			// not worth trying again
			if len(got) < s.need {
				return
			}
			if from := s.tried - 4; s.chunked && from > s.offset && !bytes.Contains(got[from:], []byte("0\r\n\r\n")) {
				s.tried = len(got)
				return
			}
		}
		r, n, err := parseResp(s.peer.Got[s.offset:], e.Head, s.until(e))
		s.need, s.chunked, s.tried = 0, false, len(s.peer.Got)
		if err == errShort && r != nil {
			if s.chunked = r.Chunked; r.HasCL && len(r.Body) > 0 {
				s.need = len(s.peer.Got) + r.CL - len(r.Body)
			}
		}
		if err != nil {
			if err != errShort && !e.Short && !e.Either {
				s.violate("malformed", "response %d: %v; received %s", s.parsed, err, hexs(s.peer.Got[s.offset:]))
			}
			return
		}
		if d := s.accept(e, r); d != "" {
			s.violate("response", "response %d: %s", s.parsed, d)
			return
		}
		s.offset += n
		s.parsed++
	}
}

// until tells how a response without any framing is treated.
func (s *Script) until(e *Exp) int {
	switch {
	case !e.UntilClose:
		return 0
	case s.peer.EOF:
		return 2
	}
	return 1
}

func (s *Script) accept(e *Exp, r *Resp) string {
	if e.Short {
		return fmt.Sprintf("looks complete although its body failed: %d %s", r.Code, hexs(r.Body))
	}
	return e.check(r)
}

// expect returns the nth response the client has to get.
func (s *Script) expect(n int) *Exp {
	for _, q := range s.reqs {
		for _, e := range q.exps() {
			if n == 0 {
				return e
			}
			n--
		}
	}
	return nil
}

// upTo counts the responses of the first n requests.
func (s *Script) upTo(n int) (cnt int) {
	for i := 0; i < n && i < len(s.reqs); i++ {
		cnt += len(s.reqs[i].exps())
	}
	return cnt
}

func (s *Script) recv(d time.Duration) bool {
	// too much of it would be taken for silence
	if top := s.w.cfg.TCP.ReadTimeout / 4; s.slowRead && s.slept < top && s.slept < 15*time.Second && s.w.r.Chance("net", 1, 3) {
		nap := time.Duration(1+s.w.r.Draw("net", 400)) * time.Millisecond
		s.slept += nap
		s.w.r.Sleep(nap)
	}
	if s.stubborn && s.naps < 2 {
		s.w.r.Sleep(1)
	}
	if (s.slowRead || s.stubborn) && s.naps < 2 && s.peer.C.Blocked() && s.w.r.Chance("net", 1, 6) {
		// the server has something to send, so nobody is silent, however long it takes
		s.naps++
		s.w.r.Fault("client-reads-nothing-for-long")
		s.w.r.Sleep(time.Duration(s.w.r.Draw("net", int(2*s.w.cfg.TCP.ReadTimeout/time.Millisecond)+1)) * time.Millisecond)
	}
	return s.peer.Recv(d, s.recvMax)
}

// patience is how long a client waits for the server.
func (s *Script) patience() time.Duration {
	d := s.w.cfg.TCP.ReadTimeout + 400*time.Second
	if s.w.patient {
		d += 100 * time.Hour
	}
	for _, q := range s.reqs {
		if q.Plan != nil {
			d += q.Plan.Delay
		}
	}
	if on := s.peer.LastArrival() - s.w.r.Now(); on > 0 {
		d += on
	}
	return d
}

// await waits for the responses of the requests up to i.
func (s *Script) await(i int) {
	want := s.upTo(i + 1)
	end := s.w.r.Now() + s.patience()
	for {
		s.pump()
		if s.parsed >= want || s.w.r.Failed() {
			return
		}
		if !s.recv(end - s.w.r.Now()) {
			s.pump()
			return
		}
		end = s.w.r.Now() + s.patience()
	}
}

// finish ends the conversation in the client's way.
func (s *Script) finish() {
	w := s.w
	p := s.peer
	cut := s.cutAt >= 0 && s.sent >= s.cutAt && s.cutAt < s.total()
	end := s.end
	if cut {
		w.r.Fault([]string{"client-fin-early", "client-reset-early", "client-falls-silent", "client-close-early"}[s.cutKind])
		if d := p.LastArrival() - w.r.Now(); d > 0 {
			w.r.Sleep(d)
		}
		switch s.cutKind {
		case cutFIN:
			end = endFIN
		case cutReset:
			p.Abort(w.r.Chance("net", 1, 3))
			s.maybe = true
			return
		case cutClose:
			p.Close(0)
			s.maybe = true
			return
		case cutSilent:
			end = endIdle
		}
	} else if (s.onTalk == nil || s.hijack != nil) && len(s.reqs) > 0 && !p.Over() && end != endFIN {
		s.await(len(s.reqs) - 1)
	}
	switch end {
	case endFIN:
		p.CloseWrite(0)
		s.drain()
	case endIdle:
		s.drain()
	case endClose:
		p.Close(0)
	case endAbort:
		p.Abort(false)
	}
}

// drain reads until the server has ended the connection.
func (s *Script) drain() {
	end := s.w.r.Now() + s.patience()
	for s.recv(end - s.w.r.Now()) {
		s.pump()
		if s.w.r.Failed() {
			return
		}
		end = s.w.r.Now() + s.patience()
	}
	s.pump()
	s.overAt = s.w.r.Now()
	if !s.peer.Over() && !s.peer.C.Closed && !s.peer.Gone() && !s.w.r.Failed() {
		s.violate("not-closed", "the server does not end the connection")
	}
}

// disturbed tells whether faults allow responses to be lost.
func (s *Script) disturbed() bool {
	return s.maybe || s.prof.WriteFailAt >= 0 || s.prof.NoDeadline
}

// verify compares the whole conversation with the model.
func (s *Script) verify() {
	w := s.w
	if w.r.Failed() {
		return
	}
	p := s.peer
	s.pump()
	if w.r.Failed() {
		return
	}
	if s.calls == 0 && len(p.Got) == 0 && p.Over() && w.stopping(s.dialAt) {
		// came too late
		s.dropped = true
		return
	}
	if s.hijack != nil {
		s.verifyHijack()
		if w.r.Failed() || s.end == endClose {
			return
		}
	}
	calls, must, closes, bad := s.model()
	rest := p.Got[s.offset:]
	// responses of requests which may be answered
	limit := s.upTo(calls)
	if bad {
		limit = s.upTo(calls + 1)
	}
	if s.parsed > limit {
		s.violate("extra-response", "%d responses, only %d can be", s.parsed, limit)
		return
	}
	if s.hijack != nil && s.hijack.taken {
		rest = nil
	}
	if len(rest) > 0 {
		e := s.expect(s.parsed)
		if s.parsed >= limit || e == nil {
			s.violate("stray", "bytes after the last response: %s", hexs(rest))
			return
		}
		if !s.disturbed() && !e.Short && !e.Either && !s.brokenAt(s.parsed) {
			s.violate("cut-response", "response %d is incomplete: %s", s.parsed, hexs(rest))
			return
		}
		r, _, err := parseResp(rest, e.Head, s.until(e))
		if err == errShort && r != nil && r.Code != 0 {
			if len(r.Body) > 0 && !e.AnyBody && !bytes.HasPrefix(e.Body, r.Body) {
				s.violate("response", "incomplete response %d has a wrong body %s, want a prefix of %s", s.parsed, hexs(r.Body), hexs(e.Body))
				return
			}
		}
	}
	if !s.disturbed() {
		want := s.upTo(must)
		if e := s.expect(s.parsed); e != nil && s.parsed < want {
			if s.stopped() {
				// visibly short
			} else {
				s.violate("no-response", "%d of %d responses; calls %d; closed %v; received %s", s.parsed, want, s.calls, p.Over(), hexs(rest))
				return
			}
		}
		if s.calls != calls && !s.stopped() && !s.w.unseen {
			s.violate("calls", "the handler has been called %d times, want %d", s.calls, calls)
			return
		}
	} else if s.calls > calls {
		s.violate("calls", "the handler has been called %d times, at most %d requests are complete", s.calls, calls)
		return
	}
	if closes && !s.disturbed() && s.end != endClose && s.end != endAbort && !p.Over() {
		s.violate("not-closed", "the connection stays open after the last response")
	}
	if p.Over() && !closes && !s.disturbed() && s.end != endFIN && s.end != endIdle && !s.w.stopAsked && s.cutAt < 0 && !s.stopped() {
		s.violate("closed-early", "the server has closed the connection after %d responses", s.parsed)
	}
	if bad && closes && !s.disturbed() && !s.stopped() && s.errs != 1 {
		s.violate("errors", "the error handler has been called %d times for a malformed request", s.errs)
	}
}

// stopped tells whether a failed response ended the conversation legitimately.
func (s *Script) stopped() bool {
	if !s.peer.Over() {
		return false
	}
	for i := 0; i <= s.parsed; i++ {
		if e := s.expect(i); e != nil && (e.Either || e.Short && i == s.parsed) {
			return true
		}
	}
	return false
}

// brokenAt tells whether the nth response belongs to a request with an incomplete body.
func (s *Script) brokenAt(n int) bool {
	for _, q := range s.reqs {
		n -= len(q.exps())
		if n < 0 {
			return q.Broken
		}
	}
	return false
}

// onError is called by the server for errors of its own.
func (s *Script) onError(request *http.Request, err error) *http.Response {
	w := s.w
	w.r.Event("error handler for %s: %v", s.remote(), err)
	code := codeOf(err)
	if s.wild {
		return http.Error(request, err)
	}
	if err == nil || code == -1 {
		s.violate("errors", "error handler called with %v", err)
		return http.Respond(request)
	}
	if code == int(status.CloseConnection) {
		s.discs++
		if s.discs > 1 {
			s.violate("errors", "told about the disconnect twice")
		}
		resp := http.Respond(request).Header("X-Never", "sent")
		if w.release && w.r.Chance("app", 1, 3) {
			// nobody is there to get it
			src := &source{w: w, data: []byte("farewell"), failAt: -1, closer: true}
			w.farewell = append(w.farewell, src)
			resp.Attachment(src.reader(), []int{0, 8}[w.r.Draw("app", 2)])
		}
		return resp
	}
	s.errs++
	if s.errs > 1 {
		s.violate("errors", "the error handler is called again: %v", err)
		return http.Respond(request)
	}
	if s.calls >= len(s.reqs) || !s.reqs[s.calls].Bad {
		what := "no request"
		if s.calls < len(s.reqs) {
			what = hexs(s.reqs[s.calls].Head)
		}
		s.violate("refused-valid", "a well-formed request is refused: %v (%d): %s", err, code, what)
		return http.Respond(request)
	}
	q := s.reqs[s.calls]
	ok := false
	for _, c := range q.BadCodes {
		ok = ok || c == code
	}
	if !ok {
		s.violate("wrong-error", "error is %v (%d), want one of %v for %s", err, code, q.BadCodes, hexs(q.Head))
	}
	q.gotCode = code
	if request.Env.Encryption != q.Enc && !q.NoCompare {
		s.violate("request", "encryption is %v in the error handler, want %v", request.Env.Encryption, q.Enc)
	}
	return http.Error(request, err).Header("X-Error", fmt.Sprint(code)).String(errBody(s, code))
}

func errBody(s *Script, code int) string { return fmt.Sprintf("refused %d for client %d", code, s.ID) }
