package verifsim

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/query"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/keyvalue"
	sim "verif.local/sim"
)

// How the body of a response is given.
const (
	bodyNone = iota
	bodyString
	bodyBytes
	bodyWrite
	bodyJSON
	bodyError
	bodySized
	bodyChunked
	bodyFile
)

// Plan is the response a handler gives.
type Plan struct {
	Nil      bool // the handler returns nil
	Fresh    bool // a response object of its own
	Dirty    bool // something else is built first
	Code     int  // 0: not set
	Text     string
	Headers  []KV
	ByMap    bool
	CType    string
	Cookies  []cookie.Cookie
	Kind     int
	Body     []byte
	Declared int // announced size of a stream
	Src      *source
	File     string
	FileType string
	Delay    time.Duration
	FailFile bool
	Err      error // one of those which stand for a status
	ErrCode  int
	NilErr   bool
	Panics   bool
	DefExtra []KV
	Prefix   int    // so much of the body is given as a slice all the handlers share, and the rest is written
	BadJSON  bool   // something JSON does not know is given first
	Late     func() // called when the handler is about to return
}

// source is a scripted stream.
type source struct {
	w       *World
	data    []byte
	pos     int
	piece   int  // largest piece; 0: no limit
	random  bool // pieces of random size
	eofWith bool // the end comes with the last data
	failAt  int  // fails after so many bytes; -1: never
	zeros   bool // sometimes returns 0, nil
	stall   time.Duration
	stalled int
	closed  int
	reads   int
	closer  bool
	late    bool // used after it has been closed
	q       *Req
	before  int // bytes written to the connection before the first read
}

var errSource = errors.New("the source is broken")

// broken is how a source fails. Many errors of readers say something about an end.
func (s *source) broken() error {
	return []error{errSource, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrClosed, syscall.ECONNRESET}[s.w.r.Draw("app", 6)]
}

// conn is the connection the stream goes to, provided that nothing hinders the sending.
func (s *source) conn() *sim.Conn {
	if s.q == nil || s.q.script == nil || s.q.script.peer == nil {
		return nil
	}
	if sc := s.q.script; sc.prof.Window > 0 || sc.prof.WriteStall > 0 || sc.disturbed() || sc.cutAt >= 0 || sc.peer.Gone() || sc.peer.C.Closed {
		return nil
	}
	return s.q.script.peer.C
}

func (s *source) read(b []byte) (n int, err error) {
	s.reads++
	if c := s.conn(); s.reads == 1 && c != nil {
		s.before = c.Written
	}
	if s.closed > 0 {
		s.late = true
	}
	if s.stall > 0 && s.stalled < 6 && s.w.r.Chance("app", 1, 3) {
		s.stalled++
		s.w.r.Sleep(s.stall)
		if s.pos > 0 && s.conn() != nil {
			s.w.r.Probe("stream-as-it-comes")
			if c := s.conn(); c.Written-s.before < s.pos {
				s.w.violate("stream-late", "the stream gave %d bytes and then nothing for %s, but only %d bytes have been sent", s.pos, s.stall, c.Written-s.before)
			}
		}
	}
	if s.failAt >= 0 && s.pos >= s.failAt {
		s.w.r.Fault("source-error")
		return 0, s.broken()
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	if top := s.w.cfg.HTTP.FileBuffSize; top >= 16 && len(b) > top {
		s.w.violate("stream-buffer", "a stream is read with a buffer of %d bytes, configured are %d", len(b), top)
	}
	if s.zeros && s.w.r.Chance("app", 1, 4) {
		return 0, nil
	}
	max := len(b)
	if s.piece > 0 && s.piece < max {
		max = s.piece
	}
	if s.random {
		max = 1 + s.w.r.Draw("app", max)
	}
	end := len(s.data)
	if s.failAt >= 0 && s.failAt < end {
		end = s.failAt
	}
	n = copy(b[:max], s.data[s.pos:end])
	if n >= 4096 {
		s.w.r.Probe("large-piece")
	}
	s.pos += n
	if s.eofWith && s.pos == end {
		if s.failAt >= 0 {
			s.w.r.Fault("source-error-with-data")
			return n, s.broken()
		}
		s.w.r.Fault("source-eof-with-data")
		return n, io.EOF
	}
	return n, nil
}

type plainSource struct{ s *source }

func (p plainSource) Read(b []byte) (int, error) { return p.s.read(b) }

type closableSource struct{ s *source }

func (p closableSource) Read(b []byte) (int, error) { return p.s.read(b) }
func (p closableSource) Close() error               { p.s.closed++; return nil }

func (s *source) reader() io.Reader {
	if s.closer {
		return closableSource{s}
	}
	return plainSource{s}
}

// planOpts limits genPlan.
type planOpts struct {
	streams, files, failing, cookies bool
	maxBody                          int
	simple                           bool
	bodyless                         bool
}

// codes whose responses may have bodies
var okCodes = []int{200, 201, 202, 203, 206, 207, 208, 226, 300, 301, 302, 303, 305, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409,
	410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511}

// namedErrors are the errors which stand for a status.
var namedErrors = []struct {
	err  error
	code int
}{
	{status.ErrBadRequest, 400}, {status.ErrTooLongRequestLine, 400}, {status.ErrURIDecoding, 400}, {status.ErrBadQuery, 400},
	{status.ErrNotFound, 404}, {status.ErrInternalServerError, 500}, {status.ErrNotImplemented, 501}, {status.ErrMethodNotImplemented, 501},
	{status.ErrMethodNotAllowed, 405}, {status.ErrTooLarge, 413}, {status.ErrBodyTooLarge, 413}, {status.ErrRequestEntityTooLarge, 413},
	{status.ErrHeaderFieldsTooLarge, 431}, {status.ErrHeaderKeyTooLarge, 431}, {status.ErrHeaderValueTooLarge, 431}, {status.ErrTooManyHeaders, 431},
	{status.ErrRequestHeaderFieldsTooLarge, 431}, {status.ErrURITooLong, 414}, {status.ErrRequestURITooLong, 414}, {status.ErrUnsupportedProtocol, 505},
	{status.ErrHTTPVersionNotSupported, 505}, {status.ErrUnauthorized, 401}, {status.ErrPaymentRequired, 402}, {status.ErrForbidden, 403},
	{status.ErrNotAcceptable, 406}, {status.ErrProxyAuthRequired, 407}, {status.ErrRequestTimeout, 408}, {status.ErrConnectionTimeout, 408}, {status.ErrConflict, 409}, {status.ErrGone, 410},
	{status.ErrLengthRequired, 411}, {status.ErrPreconditionFailed, 412}, {status.ErrUnsupportedMediaType, 415}, {status.ErrUnsupportedEncoding, 415},
	{status.ErrRequestedRangeNotSatisfiable, 416}, {status.ErrExpectationFailed, 417}, {status.ErrTeapot, 418}, {status.ErrMisdirectedRequest, 421},
	{status.ErrUnprocessableEntity, 422}, {status.ErrLocked, 423}, {status.ErrFailedDependency, 424}, {status.ErrTooEarly, 425},
	{status.ErrUpgradeRequired, 426}, {status.ErrPreconditionRequired, 428}, {status.ErrTooManyRequests, 429}, {status.ErrUnavailableForLegalReasons, 451},
	{status.ErrBadGateway, 502}, {status.ErrServiceUnavailable, 503}, {status.ErrGatewayTimeout, 504}, {status.ErrVariantAlsoNegotiates, 506},
	{status.ErrInsufficientStorage, 507}, {status.ErrLoopDetected, 508}, {status.ErrNotExtended, 510}, {status.ErrNetworkAuthenticationRequired, 511},
}

func (w *World) genPlan(o planOpts) *Plan {
	p := &Plan{}
	if o.simple {
		p.Kind = bodyString
		p.Body = w.content(w.between(0, 30))
		return p
	}
	if w.chance(1, 12) {
		p.Nil = true
		return p
	}
	p.Fresh = w.chance(1, 12)
	p.Dirty = w.chance(1, 8)
	if w.chance(1, 2) {
		p.Code = okCodes[w.draw(len(okCodes))]
		if w.chance(1, 5) {
			p.Text = w.oneStr("Fine", "Custom Text", "x")
		}
		if w.chance(1, 16) {
			p.Code = w.oneOf(299, 499, 599)
			if p.Text = "Odd"; w.chance(1, 3) {
				p.Text = ""
			}
		}
	}
	for i, n := 0, w.more(w.pick(4, 3, 2, 1), 40); i < n; i++ {
		k := "X-" + w.token(1, 6)
		switch w.draw(6) {
		case 0:
			k = w.mixCase(w.oneStr("server", "x-powered-by", "accept-encodings", "x-frame-options", "cache-control", "vary", "location"))
		case 1:
			if len(p.Headers) > 0 {
				k = p.Headers[0].K
			}
		}
		v := strings.Trim(w.hvalue(), " \t")
		p.Headers = append(p.Headers, KV{k, v})
	}
	p.ByMap = w.chance(1, 6)
	for i, a := range p.Headers {
		for _, b := range p.Headers[:i] {
			if a.K != b.K && strings.EqualFold(a.K, b.K) {
				p.ByMap = false // their order would not be known
			}
		}
	}
	if w.chance(1, 3) {
		p.CType = w.oneStr("text/plain", "application/xml", "image/png", "text/html; charset=utf-8")
	}
	if o.cookies || w.chance(1, 5) {
		for i, n := 0, w.more(w.between(1, 2), 12); i < n; i++ {
			c := cookie.Cookie{Name: "c" + w.token(1, 4), Value: w.token(0, 6)}
			if w.chance(1, 3) {
				c.Path = "/" + w.token(0, 4)
			}
			if w.chance(1, 4) {
				c.Domain = "example.com"
			}
			if w.chance(1, 4) {
				c.Expires = time.Date(2030, time.Month(1+w.draw(12)), 1+w.draw(28), w.draw(24), 1, 2, 0, time.FixedZone("X", 3600*w.draw(5)))
			}
			if w.chance(1, 4) {
				c.MaxAge = w.oneOf(1, 3600, -1)
			}
			if w.chance(1, 4) {
				c.SameSite = cookie.SameSite(w.oneStr("Lax", "Strict", "None"))
			}
			c.Secure, c.HttpOnly = w.chance(1, 4), w.chance(1, 4)
			p.Cookies = append(p.Cookies, c)
		}
	}
	max := o.maxBody
	if max == 0 {
		max = 400
	}
	n := w.oneOf(w.between(0, 20), w.between(0, max))
	p.Body = w.content(n)
	weights := []int{1, 5, 3, 2, 1, 1}
	if o.streams {
		weights = append(weights, 4, 4)
	} else {
		weights = append(weights, 0, 0)
	}
	if o.files {
		weights = append(weights, 4)
	}
	if o.bodyless {
		weights = []int{1}
	}
	p.Kind = w.pick(weights...)
	switch p.Kind {
	case bodyWrite:
		if w.chance(1, 3) {
			p.Prefix = w.between(1, len(w.shared))
			p.Body = append(append([]byte(nil), w.shared[:p.Prefix]...), p.Body...)
		}
	case bodyNone:
		p.Body = nil
		if w.chance(1, 4) {
			p.Code = w.oneOf(204, 304)
		}
	case bodyJSON:
		p.Body = []byte(fmt.Sprintf(`{"a":%d,"b":%q}`, w.draw(1000), w.token(0, 5)))
		p.BadJSON = w.chance(1, 6)
	case bodyError:
		p.Body = []byte("err " + w.token(0, 9))
		switch w.draw(4) {
		case 0, 1:
			e := namedErrors[w.draw(len(namedErrors))]
			p.Err, p.ErrCode, p.Body = e.err, e.code, nil
		case 2:
			p.NilErr, p.Body = true, nil
		}
	case bodySized, bodyChunked:
		p.Src = &source{
			w: w, data: p.Body, failAt: -1, piece: w.oneOf(0, 1, 7, 64), random: w.chance(1, 2), eofWith: w.chance(1, 2),
			zeros: w.chance(1, 6), closer: w.chance(2, 3),
		}
		if len(p.Body) > 5000 && p.Src.piece > 0 {
			p.Src.piece = 5000
		}
		if w.chance(1, 6) {
			p.Src.stall = time.Duration(w.between(1, 3000)) * time.Millisecond
		}
		p.Declared = len(p.Body)
		if p.Kind == bodyChunked {
			p.Declared = w.oneOf(0, -1)
		} else if p.Declared == 0 {
			p.Kind, p.Declared = bodyChunked, 0
		}
		if o.failing && w.chance(1, 2) {
			switch k := w.draw(3); {
			case k == 0 || p.Kind == bodyChunked:
				p.Src.failAt = w.between(0, len(p.Body))
			case k == 1:
				p.Declared += w.between(1, 40)
			default:
				if p.Declared > 1 {
					p.Declared -= w.between(1, p.Declared-1)
				}
			}
		}
	case bodyFile:
		ext := extList[w.draw(len(extList))]
		p.File = fmt.Sprintf("/srv/files/%d%s", len(w.r.FS.Nodes), ext)
		w.r.FS.Put(p.File, p.Body)
		p.FileType = extTypes[filepath.Ext(p.File)]
	}
	if p.Kind != bodyNone && p.Kind != bodyError && !p.BadJSON && w.chance(1, 16) {
		// there is no body, whatever is given
		p.Code = w.oneOf(204, 304)
	}
	return p
}

// bodyless tells whether the response has no body because of its status.
func (p *Plan) bodyless() bool { return !p.Nil && (p.Code == 204 || p.Code == 304) }

// unsized tells whether the size of the response is not known beforehand.
func (p *Plan) unsized() bool {
	return !p.Nil && !p.bodyless() && (p.Kind == bodyChunked || p.Kind == bodyFile && len(p.Body) == 0)
}

// exps are the responses the client gets for the request.
func (q *Req) exps() []*Exp {
	if q.cached != nil || q.Plan == nil && !q.Bad {
		return q.cached
	}
	q.cached = q.buildExps()
	return q.cached
}

func (q *Req) buildExps() (list []*Exp) {
	if q.Exps != nil {
		if q.Interim {
			list = append(list, q.interim())
		}
		return append(list, q.Exps()...)
	}
	if q.Bad {
		proto := ""
		if q.Proto == "HTTP/1.1" {
			proto = q.Proto // whatever earlier requests used
		}
		e := &Exp{Proto: proto, Codes: q.BadCodes, AnyHdr: true, AnyBody: true, Head: q.Method == "HEAD" && !q.BadMethod}
		e.Extra = func(r *Resp) string {
			if q.script == nil || q.anyErrBody {
				return ""
			}
			if v := r.values("x-error"); len(v) != 1 || v[0] != fmt.Sprint(r.Code) {
				return fmt.Sprintf("is not what the error handler gave: %v", r.Headers)
			}
			if want := errBody(q.script, r.Code); !e.Head && string(r.Body) != want {
				return fmt.Sprintf("body %s is not what the error handler gave: %q", hexs(r.Body), want)
			}
			return ""
		}
		return []*Exp{e}
	}
	p := q.Plan
	e := &Exp{Proto: q.FinalProt, Codes: []int{200}, Head: q.Method == "HEAD", CType: "text/html", Defaults: q.defaults}
	if q.Interim {
		list = append(list, q.interim())
	}
	list = append(list, e)
	if p.Nil {
		e.Headers = q.extra
		return list
	}
	if p.Code != 0 {
		e.Codes = []int{p.Code}
	}
	e.Text = p.Text
	e.Headers = append(append([]KV(nil), p.Headers...), q.extra...)
	if p.CType != "" {
		e.CType = p.CType
	}
	e.Cookies = p.Cookies
	e.Body = p.Body
	e.Size = len(p.Body)
	switch p.Kind {
	case bodyNone:
		e.Body, e.Size = nil, 0
	case bodyJSON:
		e.CType = "application/json"
		if p.BadJSON {
			e.Codes, e.CType, e.AnyBody = []int{500}, "*", true
		}
	case bodyError:
		if p.ErrCode != 0 {
			e.Codes = []int{p.ErrCode}
		} else if p.Code == 0 && !p.NilErr {
			e.Codes = []int{500}
		}
	case bodySized:
		e.Size = p.Declared
		if !e.Head {
			switch {
			case p.Src.failAt >= 0 && p.Src.failAt < p.Declared, p.Declared > len(p.Body):
				e.Short = true
			case p.Src.failAt >= 0, p.Declared < len(p.Body):
				// more than announced: the announced part is a complete message
				e.Either = true
				e.Body = p.Body[:p.Declared]
			}
		}
	case bodyChunked:
		e.Size = -1
		if q.FinalProt == "HTTP/1.0" {
			e.Size, e.UntilClose = -2, !e.Head
			if p.Src.failAt >= 0 {
				// nothing can tell its end from a failure
				e.Body = p.Body[:p.Src.failAt]
			}
		} else if !e.Head && p.Src.failAt >= 0 {
			e.Short = true
		}
	case bodyFile:
		if p.FailFile {
			// the response before the failure is known is not determined
			e.AnyHdr, e.AnyBody, e.Either = true, true, true
			e.Codes = []int{404, 500}
			if p.Code != 0 {
				e.Codes = append(e.Codes, p.Code)
			} else {
				e.Codes = append(e.Codes, 200)
			}
			return list
		}
		e.CType = p.FileType
		if e.CType == "" {
			// no particular type is promised
			e.CType = "*"
		}
		if len(p.Body) == 0 {
			e.Size = -2
			e.UntilClose = q.FinalProt == "HTTP/1.0" && !e.Head
		}
	}
	if p.bodyless() {
		e.Head, e.Body, e.Size, e.Short, e.Either, e.UntilClose = true, nil, -2, false, false, false
	}
	return list
}

// interim is the response which announces another protocol.
func (q *Req) interim() *Exp {
	ie := &Exp{Proto: q.Proto, Codes: []int{101}, Head: true, AnyBody: true, CType: "", AnyHdr: true}
	ie.Extra = func(r *Resp) string {
		up, c := r.values("upgrade"), r.values("connection")
		if len(up) != 1 || !strings.EqualFold(up[0], q.FinalProt) {
			return fmt.Sprintf("101 names protocol %q, want %q", up, q.FinalProt)
		}
		if len(c) != 1 || !strings.EqualFold(c[0], "upgrade") {
			return fmt.Sprintf("101 has Connection %q", c)
		}
		if len(r.values("set-cookie")) > 0 {
			return "101 has cookies"
		}
		return ""
	}
	return ie
}

// handle is the application: it compares the request with what the client meant and gives
// the planned response.
func (w *World) handle(request *http.Request) *http.Response {
	s, q := w.enter(request)
	if q == nil {
		return nil
	}
	defer w.exit(s)
	return w.answer(s, q, request)
}

func (w *World) exit(s *Script) {
	s.inside--
	s.busyAt = w.r.Now()
}

// enter finds the request which is being handled and compares it with what the client meant.
func (w *World) enter(request *http.Request) (*Script, *Req) {
	s := w.scriptOf(request)
	if s == nil {
		return nil, nil
	}
	i := s.calls
	s.calls++
	s.busyAt = w.r.Now()
	s.enterAt = s.busyAt
	if w.release && !s.wild {
		for j := 0; j < i && j < len(s.reqs); j++ {
			if s.reqs[j].given {
				w.releasedOne(s, j, s.reqs[j])
			}
		}
	}
	w.r.Event("handler %s call %d: %s %s", s.remote(), i, request.Method, request.Path)
	if s.inside > 0 {
		s.violate("calls", "two handler calls at the same time on one connection")
		return nil, nil
	}
	if w.returned {
		s.violate("after-return", "a request is handled after Serve has returned")
	}
	if w.stopCnt > 0 {
		s.violate("after-stop", "a request is handled after the stop callback")
	}
	if w.stopTime >= 0 && s.dialAt > w.stopTime {
		s.violate("taken-late", "a connection made at %s is served although the stop was requested at %s", s.dialAt, w.stopTime)
	}
	if s.wild {
		s.inside++
		q := &Req{wild: true, NoCompare: true, Plan: w.genPlan(planOpts{streams: true, files: w.chance(1, 4), failing: true, maxBody: 60})}
		w.poke(s, q, request)
		return s, q
	}
	if i >= len(s.reqs) {
		s.violate("calls", "handler call %d, only %d requests are sent: %s %q", i+1, len(s.reqs), request.Method, request.Path)
		return nil, nil
	}
	q := s.reqs[i]
	q.called++
	if q.Bad {
		s.violate("bad-accepted", "a malformed request is given to the handler: %s", hexs(q.Head))
		return nil, nil
	}
	if i > 0 && s.reqs[i-1].Closes {
		s.violate("after-close", "request %d is handled although the previous one closes the connection", i)
	}
	if s.discs > 0 {
		s.violate("after-close", "request %d is handled after the disconnect", i)
	}
	if d := w.compare(s, q, request); d != "" {
		s.violate("request", "request %d: %s; sent %s", i, d, hexs(q.Head))
		return nil, nil
	}
	for j := 0; j < i; j++ {
		if old := s.reqs[j]; old.kept != nil {
			if d := old.kept(); d != "" {
				s.violate("kept", "what the handler of request %d has cloned is different when request %d is handled: %s", j, i, d)
				return nil, nil
			}
		}
	}
	s.inside++
	return s, q
}

// answer reads the body and gives the planned response.
func (w *World) answer(s *Script, q *Req, request *http.Request) *http.Response {
	i := s.calls - 1
	if q.Custom != nil {
		return q.Custom(s, request)
	}
	w.readBody(s, q, request)
	if w.r.Failed() {
		return nil
	}
	if q.Plan.Delay > 0 {
		w.r.Sleep(q.Plan.Delay)
	}
	if d := w.compare(s, q, request); d != "" {
		s.violate("request", "request %d has changed while being handled: %s; sent %s", i, d, hexs(q.Head))
		return nil
	}
	if w.leave && w.r.Chance("app", 1, 3) {
		// keep what is said to be safe to keep
		hs, ps := request.Headers.Clone(), request.Params.Clone()
		var qs *keyvalue.Storage
		if params, err := request.Query.Unwrap(); err == nil {
			qs = params.Clone()
		}
		var cs *keyvalue.Storage
		if jar, err := request.Cookies(); err == nil {
			cs = jar.Clone()
		}
		if storage(ps, q.params, false) != "" {
			ps = nil // of no importance here
		}
		q.kept = func() string {
			if d := storage(hs, q.Headers, true); d != "" {
				return "headers: " + d
			}
			if ps != nil {
				if d := storage(ps, q.params, false); d != "" {
					return "parameters: " + d
				}
			}
			if qs != nil {
				if d := storage(qs, q.Query, false); d != "" {
					return "query: " + d
				}
			}
			if cs != nil {
				if d := storage(cs, q.Cookies, false); d != "" {
					return "cookies: " + d
				}
			}
			return ""
		}
		w.r.Probe("kept-clones")
	}
	if w.leave && w.r.Chance("app", 1, 2) {
		// leave traces everywhere
		request.Ctx = context.WithValue(request.Ctx, leaveKey{}, i)
		request.Env.AliasFrom = "/left"
		request.Env.AllowedMethods = "LEFT"
		request.Env.Error = status.ErrTeapot
		request.Params.Add("left", "over")
	}
	return w.give(q, request)
}

type leaveKey struct{}

// give builds the planned response.
func (w *World) give(q *Req, request *http.Request) *http.Response {
	p := q.Plan
	q.given = true
	if p.Panics {
		panic("planned")
	}
	if p.Late != nil {
		p.Late()
	}
	if p.Dirty {
		request.Respond().Code(status.Teapot).Status("dirty").Header("X-Dirty", "1").ContentType("dirty/dirty").
			String("dirty").Cookie(cookie.Cookie{Name: "dirty", Value: "1"})
		if p.Nil {
			return nil
		}
	}
	if p.Nil {
		return nil
	}
	var resp *http.Response
	given := false
	switch {
	case p.Fresh:
		resp = http.NewResponse()
		if w.r.Chance("app", 1, 4) {
			resp.Code(status.Locked).Status("unclean").Header("X-Unclean", "1").ContentType("un/clean").Bytes([]byte("unclean")).
				Cookie(cookie.New("unclean", "1")).Clear()
		}
	case p.CType == "" && w.r.Chance("app", 1, 3):
		// shortcuts
		given = true
		switch p.Kind {
		case bodyNone:
			resp = http.Respond(request)
			if p.Code != 0 {
				resp = http.Code(request, status.Code(p.Code))
			}
		case bodyString:
			resp = http.String(request, string(p.Body))
		case bodyBytes:
			resp = http.Bytes(request, append([]byte(nil), p.Body...))
		case bodyJSON:
			resp = http.JSON(request, p.model())
		case bodyFile:
			resp = http.File(request, p.File)
		case bodyError:
			resp = http.Error(request, p.theErr(), p.errCode()...)
		default:
			given = false
			resp = http.Respond(request)
		}
	default:
		resp = request.Respond()
	}
	// the order of setting is of no importance
	for k := w.r.Draw("app", 2); k < 4; k++ {
		switch k % 4 {
		case 0, 2:
			if p.Code != 0 && !(given && (p.Kind == bodyError && p.Err != nil || p.BadJSON)) {
				resp.Code(status.Code(p.Code))
			}
			if p.Text != "" {
				resp.Status(status.Status(p.Text))
			}
		}
	}
	if p.ByMap {
		m := map[string][]string{}
		for _, h := range p.Headers {
			m[h.K] = append(m[h.K], h.V)
		}
		resp.Headers(m)
	} else {
		for i := 0; i < len(p.Headers); i++ {
			h := p.Headers[i]
			vs := []string{h.V}
			for i+1 < len(p.Headers) && p.Headers[i+1].K == h.K {
				i++
				vs = append(vs, p.Headers[i].V)
			}
			resp.Header(h.K, vs...)
		}
	}
	switch {
	case len(p.Cookies) > 0 && w.r.Chance("app", 1, 2):
		for _, c := range p.Cookies {
			b := cookie.Build(c.Name, c.Value).HttpOnly(c.HttpOnly).Secure(c.Secure).Path(c.Path).Domain(c.Domain).MaxAge(c.MaxAge).SameSite(c.SameSite)
			if !c.Expires.IsZero() {
				b = b.Expires(c.Expires)
			}
			resp.Cookie(b.Cookie())
		}
	case len(p.Cookies) > 0:
		resp.Cookie(p.Cookies...)
	}
	ctype := func() {
		if p.CType != "" {
			if len(p.CType)%2 == 0 {
				resp.ContentType(p.CType)
			} else {
				resp.Header("content-Type", p.CType)
			}
		}
	}
	ctype()
	if given {
		return resp
	}
	switch p.Kind {
	case bodyString:
		resp.String(string(p.Body))
	case bodyBytes:
		resp.Bytes(append([]byte(nil), p.Body...))
	case bodyWrite:
		if p.Prefix > 0 {
			resp.Bytes(w.shared[:p.Prefix])
		}
		for b := p.Body[p.Prefix:]; len(b) > 0; {
			n := 1 + w.r.Draw("app", len(b))
			if m, err := resp.Write(b[:n]); m != n || err != nil {
				w.violate("response", "Write returns %d, %v", m, err)
			}
			b = b[n:]
		}
	case bodyJSON:
		own := bytes.Repeat([]byte("replaced"), 1+w.r.Draw("app", 40))
		str := string(own)
		switch w.r.Draw("app", 4) {
		case 0:
			resp.String(str)
		case 1:
			resp.Bytes(own)
		}
		resp.JSON(p.model())
		if str != string(own) || strings.Count(str, "replaced")*8 != len(str) {
			w.violate("response", "what the application gave before is overwritten: %q, %q", own, str)
		}
	case bodyError:
		resp.Error(p.theErr(), p.errCode()...)
	case bodySized, bodyChunked:
		resp.Attachment(p.Src.reader(), p.Declared)
	case bodyFile:
		resp = resp.File(p.File)
	}
	return resp
}

// model is the value to be sent as JSON.
func (p *Plan) model() interface{} {
	if p.BadJSON {
		return struct {
			A int
			B func()
			C chan int
		}{1, func() {}, nil}
	}
	var m struct {
		A int    `json:"a"`
		B string `json:"b"`
	}
	if _, err := fmt.Sscanf(string(p.Body), `{"a":%d,"b":%q}`, &m.A, &m.B); err != nil {
		panic(err)
	}
	return m
}

func (p *Plan) theErr() error {
	switch {
	case p.Err != nil:
		return p.Err
	case p.NilErr:
		return nil
	}
	return errors.New(string(p.Body))
}

func (p *Plan) errCode() []status.Code {
	if p.Err == nil && !p.NilErr && p.Code != 0 {
		return []status.Code{status.Code(p.Code)}
	}
	return nil
}

// compare checks everything the application can see of a request.
func (w *World) compare(s *Script, q *Req, r *http.Request) string {
	if q.NoCompare {
		return ""
	}
	if r.Method.String() != q.Method {
		return fmt.Sprintf("method is %s, want %s", r.Method, q.Method)
	}
	// a router changes what belongs to it
	routed := w.routed && s.inside > 0
	if r.Path != q.Path && !routed {
		return fmt.Sprintf("path is %q, want %q", r.Path, q.Path)
	}
	if got := strings.TrimSpace(r.Proto.String()); got != q.Proto {
		return fmt.Sprintf("protocol is %q, want %q", got, q.Proto)
	}
	if r.Remote.String() != s.remote() {
		return fmt.Sprintf("remote is %s, want %s", r.Remote, s.remote())
	}
	// query
	if string(r.Query.Raw()) != q.RawQuery {
		return fmt.Sprintf("raw query is %q, want %q", r.Query.Raw(), q.RawQuery)
	}
	if q.queryErr {
		for i := 0; i < 2; i++ {
			if _, err := r.Query.Unwrap(); codeOf(err) != 400 {
				return fmt.Sprintf("malformed query %q gives %v", q.RawQuery, err)
			}
			if v, err := r.Query.Get("a"); codeOf(err) != 400 || v != "" {
				return fmt.Sprintf("malformed query %q gives %q, %v", q.RawQuery, v, err)
			}
		}
	} else {
		if len(q.Query) > 0 {
			kv := q.Query[len(q.Query)-1]
			want := kv.V
			for i := len(q.Query) - 1; i >= 0; i-- {
				if fold(q.Query[i].K) == fold(kv.K) {
					want = q.Query[i].V
				}
			}
			if v, err := r.Query.Get(kv.K); err != nil || v != want {
				return fmt.Sprintf("query parameter %q is %q, %v, want %q", kv.K, v, err, want)
			}
		}
		if v, err := r.Query.Get("no-such-parameter"); err != query.ErrNoSuchKey {
			return fmt.Sprintf("query has a parameter nobody sent: %q, %v", v, err)
		}
		params, err := r.Query.Unwrap()
		if err != nil {
			return fmt.Sprintf("query: %v", err)
		}
		if d := storage(params, q.Query, false); d != "" {
			return "query: " + d
		}
	}
	// headers
	var got []KV
	for _, p := range r.Headers.Unwrap() {
		if !strings.EqualFold(p.Key, "content-length") {
			got = append(got, KV{p.Key, p.Value})
		}
	}
	if len(got) != len(q.Headers) {
		return fmt.Sprintf("headers are %q, want %q", got, q.Headers)
	}
	for i, h := range q.Headers {
		if !strings.EqualFold(got[i].K, h.K) || got[i].V != h.V {
			return fmt.Sprintf("headers are %q, want %q", got, q.Headers)
		}
	}
	for i, h := range q.Headers {
		if i > 3 {
			break
		}
		var want []string
		for _, x := range q.Headers {
			if strings.EqualFold(x.K, h.K) {
				want = append(want, x.V)
			}
		}
		for _, k := range []string{strings.ToUpper(h.K), strings.ToLower(h.K)} {
			if v := r.Headers.Value(k); v != want[0] {
				return fmt.Sprintf("header %s is %q, want %q", k, v, want[0])
			}
			if vs := r.Headers.Values(k); strings.Join(vs, "\x00") != strings.Join(want, "\x00") || len(vs) != len(want) {
				return fmt.Sprintf("values of %s are %q, want %q", k, vs, want)
			}
			if !r.Headers.Has(k) {
				return fmt.Sprintf("no header %s", k)
			}
		}
	}
	if d := storage(r.Headers, q.Headers, true); d != "" {
		return "headers: " + d
	}
	if r.Headers.Has("X-No-Such") || r.Headers.Value("X-No-Such") != "" {
		return "a header nobody sent"
	}
	// what the server understood
	cl := q.CL
	if cl < 0 {
		cl = 0
	}
	if r.ContentLength != cl && !q.anyCL {
		return fmt.Sprintf("content length is %d, want %d", r.ContentLength, cl)
	}
	if r.ContentType != q.CType {
		return fmt.Sprintf("content type is %q, want %q", r.ContentType, q.CType)
	}
	if strings.Join(tokens(r.Connection), ",") != strings.Join(tokens(q.Conn), ",") {
		return fmt.Sprintf("connection is %q, want %q", r.Connection, q.Conn)
	}
	if r.Upgrade != q.Upgrade {
		return fmt.Sprintf("upgrade is %v, want %v", r.Upgrade, q.Upgrade)
	}
	if r.Encoding.Chunked != q.Chunked || r.Encoding.HasTrailer != q.Trailer {
		return fmt.Sprintf("chunked %v trailer %v, want %v %v", r.Encoding.Chunked, r.Encoding.HasTrailer, q.Chunked, q.Trailer)
	}
	if strings.Join(r.Encoding.Transfer, "\x00") != strings.Join(q.TE, "\x00") || len(r.Encoding.Transfer) != len(q.TE) {
		return fmt.Sprintf("transfer encoding is %q, want %q", r.Encoding.Transfer, q.TE)
	}
	if strings.Join(r.Encoding.Content, "\x00") != strings.Join(q.CE, "\x00") || len(r.Encoding.Content) != len(q.CE) {
		return fmt.Sprintf("content encoding is %q, want %q", r.Encoding.Content, q.CE)
	}
	if got, want := r.Encoding.Identity(), len(q.TE) == 0 && len(q.CE) == 0; got != want {
		return fmt.Sprintf("Identity is %v with transfer encoding %q and content encoding %q", got, q.TE, q.CE)
	}
	if jar, err := r.Cookies(); q.cookieErr {
		if err != cookie.ErrBadCookie {
			return fmt.Sprintf("malformed cookies give %v", err)
		}
	} else {
		if err != nil {
			return fmt.Sprintf("cookies: %v", err)
		}
		if d := storage(jar, q.Cookies, false); d != "" {
			return "cookies: " + d
		}
	}
	// surroundings
	if r.Env.Error != nil {
		return fmt.Sprintf("environment has the error %v", r.Env.Error)
	}
	if r.Env.Encryption != q.Enc {
		return fmt.Sprintf("encryption is %v, want %v", r.Env.Encryption, q.Enc)
	}
	if r.Ctx != context.Background() && !routed {
		return fmt.Sprintf("context is %v", r.Ctx)
	}
	if !routed {
		if r.Env.AllowedMethods != "" || r.Env.AliasFrom != "" {
			return fmt.Sprintf("environment is not empty: %+v", r.Env)
		}
		if r.Params.Len() != 0 {
			return fmt.Sprintf("path parameters are %q", r.Params.Unwrap())
		}
	}
	if r.WasHijacked() {
		return "is hijacked"
	}
	return ""
}

// fold makes names comparable regardless of the case of ASCII letters.
func fold(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// storage compares pairs with what they have to be, by every accessor.
func storage(got *keyvalue.Storage, want []KV, hdr bool) string {
	same := func(pairs []keyvalue.Pair, how string) string {
		i := 0
		for _, p := range pairs {
			if hdr && strings.EqualFold(p.Key, "content-length") {
				continue
			}
			if i >= len(want) || p.Value != want[i].V || p.Key != want[i].K && !(hdr && strings.EqualFold(p.Key, want[i].K)) {
				return fmt.Sprintf("%s: %q, want %q", how, pairs, want)
			}
			i++
		}
		if i != len(want) {
			return fmt.Sprintf("%s: %q, want %q", how, pairs, want)
		}
		return ""
	}
	if d := same(got.Unwrap(), "pairs are"); d != "" {
		return d
	}
	var list []keyvalue.Pair
	for it := got.Iter(); ; {
		p, more := it.Next()
		if !more || len(list) > len(want)+1 {
			break
		}
		list = append(list, p)
	}
	if d := same(list, "iterating gives"); d != "" {
		return d
	}
	if n := len(got.Unwrap()); got.Len() != n {
		return fmt.Sprintf("length is %d, want %d", got.Len(), n)
	}
	var names []string
	for i, x := range want {
		first := true
		for _, y := range want[:i] {
			first = first && fold(x.K) != fold(y.K)
		}
		if first {
			names = append(names, x.K)
		}
	}
	i := 0
	for _, k := range got.Keys() {
		if hdr && strings.EqualFold(k, "content-length") {
			continue
		}
		if i >= len(names) || fold(k) != fold(names[i]) {
			return fmt.Sprintf("keys are %q, want %q", got.Keys(), names)
		}
		i++
	}
	if i != len(names) {
		return fmt.Sprintf("keys are %q, want %q", got.Keys(), names)
	}
	if len(want) > 0 {
		first := want[len(want)-1]
		for j := len(want) - 1; j >= 0; j-- {
			if fold(want[j].K) == fold(first.K) {
				first = want[j]
			}
		}
		if v, ok := got.Get(first.K); !ok || v != first.V {
			return fmt.Sprintf("%s is %q, %v, want %q", first.K, v, ok, first.V)
		}
		if v := got.ValueOr(first.K, "else"); v != first.V {
			return fmt.Sprintf("%s is %q, want %q", first.K, v, first.V)
		}
	}
	if v, ok := got.Get("no-such-name"); ok || v != "" || got.ValueOr("no-such-name", "else") != "else" || got.Has("no-such-name") || got.Values("no-such-name") != nil {
		return fmt.Sprintf("a name nobody sent: %q", v)
	}
	return ""
}

// How a handler reads the body.
const (
	readNone = iota
	readBytes
	readString
	readReader
	readRetrieve
	readCallback
	readPartReader
	readPartRetrieve
	readDiscard
	readBytesTwice
	readJSON
	readCallbackErr
	readAll
	readRest // a piece, then the rest at once
	readMix  // one way, then another one
	readModes
)

var errCallback = errors.New("enough")

func (w *World) readBody(s *Script, q *Req, r *http.Request) {
	var (
		got  []byte
		err  error
		part bool
		n    int
	)
	body := r.Body
	const guard = 1 << 20
	mode := q.ReadMode
	switch mode {
	case readNone:
		return
	case readBytes, readBytesTwice:
		var b []byte
		b, err = body.Bytes()
		got = append(got, b...)
		if mode == readBytesTwice && err == nil {
			b, err = body.Bytes()
			if !bytes.Equal(b, got) {
				s.violate("body", "the second Bytes() gives %s, the first gave %s", hexs(b), hexs(got))
			}
		}
	case readString:
		var str string
		str, err = body.String()
		got = append(got, str...)
	case readReader, readPartReader, readAll:
		if mode == readAll {
			got, err = io.ReadAll(body)
			break
		}
		// sizes and capacities differ, and sizes change on the way
		vary := (q.ReadArg + len(q.Body)) % 4
		buf := make([]byte, q.ReadArg, q.ReadArg+[]int{0, 1, 64, 700}[(q.ReadArg+len(q.Head))%4])
		zeros := 0
		for i := 0; ; i++ {
			if mode == readPartReader && len(got) >= len(q.Body)/2 {
				part = true
				break
			}
			switch {
			case vary == 1:
				buf = buf[:1+i%cap(buf)]
			case vary == 2 && i%2 == 0:
				buf = buf[:cap(buf)]
			case vary == 2:
				buf = buf[:q.ReadArg]
			}
			n, err = body.Read(buf)
			if n < 0 || n > len(buf) {
				s.violate("body", "Read returns %d for a buffer of %d", n, len(buf))
				return
			}
			got = append(got, buf[:n]...)
			q.seen = len(got)
			if err != nil {
				break
			}
			if n == 0 {
				zeros++
			}
			if len(got) > guard || zeros > 10000 {
				s.violate("body", "Read does not end: %d bytes", len(got))
				return
			}
		}
		if err == io.EOF {
			if n, e := body.Read(buf); n != 0 || e != io.EOF {
				s.violate("body", "Read after the end gives %d, %v", n, e)
			}
			err = nil
		} else if err == nil && !part {
			part = true
		}
	case readRetrieve, readPartRetrieve, readRest:
		pieces := 0
		for {
			if mode != readRetrieve && pieces >= q.ReadArg%3 {
				part = mode == readPartRetrieve
				break
			}
			var b []byte
			b, err = body.Retrieve()
			got = append(got, b...)
			q.seen = len(got)
			pieces++
			if err != nil {
				break
			}
			if pieces > 200000 {
				s.violate("body", "Retrieve does not end")
				return
			}
		}
		if err == io.EOF {
			if b, e := body.Retrieve(); len(b) != 0 || e != io.EOF {
				s.violate("body", "Retrieve after the end gives %s, %v", hexs(b), e)
			}
			err = nil
		} else if mode == readRest && err == nil {
			var b []byte
			b, err = body.Bytes()
			got = append(got, b...)
		}
	case readMix:
		got, err = w.mixBody(s, q, body)
	case readCallback, readCallbackErr:
		calls := 0
		err = body.Callback(func(b []byte) error {
			calls++
			if len(b) == 0 {
				s.violate("body", "callback without data")
			}
			got = append(got, b...)
			q.seen = len(got)
			if mode == readCallbackErr && len(got) >= len(q.Body)/2 {
				return errCallback
			}
			return nil
		})
		if err == errCallback {
			err, part = nil, true
		} else if mode == readCallbackErr && len(got) > 0 && err == nil && len(got) >= len(q.Body)/2 {
			s.violate("body", "the error of the callback is lost")
		}
	case readDiscard:
		err = body.Discard()
		if err == nil {
			if b, e := body.Retrieve(); len(b) != 0 || e != io.EOF {
				if !q.Broken && !q.BodyErr {
					s.violate("body", "Retrieve after Discard gives %s, %v", hexs(b), e)
				}
			}
			got = q.Body
		}
	case readJSON:
		var m struct {
			A int    `json:"a"`
			B string `json:"b"`
		}
		err = r.JSON(&m)
		if err == nil {
			got = []byte(fmt.Sprintf(`{"a":%d,"b":%q}`, m.A, m.B))
		}
	}
	w.r.Event("body of %s call %d: %d bytes, %v", s.remote(), s.calls-1, len(got), err)
	q.bodyGot, q.bodyErr = got, err
	complete := !q.Broken && !q.BodyErr
	if q.wild {
		return
	}
	if mode == readJSON && q.CType != "" && !isJSON(q.CType) {
		if codeOf(err) != 415 {
			s.violate("body", "JSON of %q gives %v, want 415", q.CType, err)
		}
		return
	}
	if mode == readJSON && q.badJSON && complete && !s.maybe {
		if err == nil {
			s.violate("body", "%q is read as JSON without an error", q.Body)
		}
		return
	}
	switch {
	case err == io.EOF && mode != readJSON:
		s.violate("body", "mode %d: io.EOF is returned as an error", mode)
	case err != nil && complete && !s.maybe:
		s.violate("body", "mode %d: a complete body gives the error %v after %s; sent %s", mode, err, hexs(got), hexs(q.Wire))
	case err == nil && !complete && !part:
		s.violate("body-end", "mode %d: an incomplete or faulty body ends without an error: %s of %s; sent %s", mode, hexs(got), hexs(q.Body), hexs(q.Wire))
	case err == nil && complete && !part && !bytes.Equal(got, q.Body):
		s.violate("body", "mode %d: body is %s, want %s", mode, hexs(got), hexs(q.Body))
	case (err != nil || part) && mode != readDiscard && !bytes.HasPrefix(q.Body, got):
		s.violate("body", "mode %d: body %s is not a prefix of %s", mode, hexs(got), hexs(q.Body))
	case err != nil && len(q.BodyCodes) > 0:
		ok := false
		for _, c := range q.BodyCodes {
			ok = ok || c == codeOf(err)
		}
		if !ok {
			s.violate("body", "mode %d: error is %v, want code %v", mode, err, q.BodyCodes)
		}
	}
}

// mixBody begins to read a body in one way and goes on in another one.
func (w *World) mixBody(s *Script, q *Req, body http.Body) (got []byte, err error) {
	add := func(b []byte) {
		got = append(got, b...)
		q.seen = len(got)
	}
	how := q.ReadArg + len(q.Head) + 3*len(q.Body)
	buf := make([]byte, 1+how%7)
	for i, n := 0, 1+how/7%3; i < n && err == nil; i++ {
		if (how/21+i)%4 == 3 {
			var b []byte
			b, err = body.Retrieve()
			add(b)
			continue
		}
		var n int
		n, err = body.Read(buf)
		add(buf[:n])
	}
	if err == io.EOF {
		// it stays at the end
		err = nil
	}
	if err != nil {
		return got, err
	}
	w.r.Probe("mixed-reads")
	switch how % 5 {
	case 0:
		var b []byte
		b, err = body.Bytes()
		add(b)
	case 1:
		var str string
		str, err = body.String()
		add([]byte(str))
	case 2:
		err = body.Callback(func(b []byte) error {
			if len(b) == 0 {
				s.violate("body", "callback without data")
			}
			add(b)
			return nil
		})
	case 3:
		for i := 0; err == nil && i < 200000; i++ {
			var b []byte
			b, err = body.Retrieve()
			add(b)
		}
		if err == io.EOF {
			err = nil
		}
	default:
		if err = body.Discard(); err == nil {
			got = append([]byte(nil), q.Body...)
		}
	}
	if err == nil {
		if b, e := body.Retrieve(); len(b) != 0 || e != io.EOF {
			s.violate("body", "Retrieve after the end gives %s, %v", hexs(b), e)
		}
		if n, e := body.Read(buf); n != 0 || e != io.EOF {
			s.violate("body", "Read after the end gives %d, %v", n, e)
		}
	}
	return got, err
}

var _ = proto.HTTP11

// poke uses everything of a request nothing is known about.
func (w *World) poke(s *Script, q *Req, r *http.Request) {
	_, _ = r.Query.Unwrap()
	_, _ = r.Query.Get("a")
	_, _ = r.Cookies()
	_ = r.Headers.Values("cookie")
	_ = r.Headers.Value("host")
	pokeAll(r)
	q.ReadMode = w.draw(readModes)
	q.ReadArg = w.oneOf(64, 1, 2, 5, 17, 4096)
}
