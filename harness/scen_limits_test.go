package verifsim

import (
	"bytes"
	"fmt"
	"math"
	"strings"
)

func init() {
	scenarios["C07"] = scenC07
}

// measures are the sizes of a request which are limited.
type measures struct {
	url, num, key, val, keys, vals, toks, body, chunk int
}

// count raises one of the measures.
func (m *measures) count(x *int, v int) {
	if v > *x {
		*x = v
	}
}

// measure takes the sizes from the bytes of a request.
func (m *measures) measure(q *Req) {
	lines := bytes.SplitAfter(q.Head, []byte("\n"))
	line := bytes.TrimSuffix(lines[0], []byte("\n"))
	m.count(&m.url, len(line)-bytes.IndexByte(line, ' ')-1)
	num, keys, vals := 0, 0, 0
	for _, l := range lines[1:] {
		l = bytes.TrimSuffix(l, []byte("\n"))
		colon := bytes.IndexByte(l, ':')
		if colon < 0 {
			continue
		}
		num++
		keys += colon
		m.count(&m.key, colon)
		if !strings.EqualFold(string(l[:colon]), "content-length") {
			vals += len(l) - colon - 1
			m.count(&m.val, len(l)-colon-1)
		}
	}
	m.count(&m.num, num)
	m.count(&m.keys, keys)
	m.count(&m.vals, vals)
	m.count(&m.toks, len(q.TE))
	m.count(&m.toks, len(q.CE))
	m.count(&m.body, len(q.Body))
	if q.Chunked {
		m.count(&m.chunk, len(q.Body))
	}
}

// over makes a request which exceeds one of the limits.
func (w *World) over(m measures) *Req {
	kind := w.draw(10)
	if kind == 8 && m.body > 1<<20 {
		kind = 7
	}
	g := genOpts{noBody: true, noClose: true, noLF: true, noHTTP10: kind == 7 || kind == 8}
	q := w.genReq(g)
	if kind > 0 {
		q.Target, q.Path, q.Query, q.RawQuery, q.queryErr = "/", "/", nil, "", false
	}
	if kind == 7 || kind == 8 {
		// nothing else is too large
		q.Headers, q.Conn, q.CType, q.CE, q.Cookies, q.cookieErr = nil, "", "", nil, nil, false
	}
	by := w.oneOf(1, 1, 1, 2, 7, 50, 300)
	hdr := func(k, v string) {
		at := w.draw(len(q.Headers) + 1)
		q.Headers = append(q.Headers[:at:at], append([]KV{{k, v}}, q.Headers[at:]...)...)
	}
	q.Bad = true
	q.BadCodes = []int{431}
	if len(q.CE) > m.toks {
		// several limits at once
		q.BadCodes = append(q.BadCodes, 415)
	}
	name := func(n int) string {
		k := []byte("X")
		for len(k) < n {
			k = append(k, tokenChars[w.draw(26)])
		}
		return string(k[:n])
	}
	switch kind {
	case 9:
		// never anything but a method
		q.BadCodes = []int{414, 400, 501}
		q.Method = w.oneStr("GET", "") + name(m.url+by)
		q.BadMethod = true
		w.r.Probe("over-method")
	case 0:
		q.BadCodes = []int{414}
		if need := m.url + by - len(q.Target) - 1 - len(q.Proto); need > 0 {
			pad := w.token(need, need)
			if at := strings.IndexByte(q.Target, '?'); at >= 0 && w.chance(1, 2) {
				q.Target = q.Target[:at] + pad + q.Target[at:]
			} else {
				q.Target += pad
			}
		}
		w.r.Probe("over-url")
	case 1:
		have := len(q.Headers)
		if q.CL >= 0 {
			have++
		}
		for ; have < m.num+w.oneOf(1, 1, 2, 20); have++ {
			hdr(name(w.between(1, m.key)), "")
		}
		w.r.Probe("over-number")
	case 2:
		hdr(name(m.key+by), w.token(0, 3))
		w.r.Probe("over-key")
	case 3:
		hdr(name(w.between(1, m.key)), name(m.val+by))
		w.r.Probe("over-value")
	case 4:
		sum := 0
		for _, h := range q.Headers {
			sum += len(h.K)
		}
		if q.CL >= 0 {
			sum += len("content-length")
		}
		for sum <= m.keys {
			n := w.between(1, m.key)
			if left := m.keys + by - sum; n > left {
				n = left
			}
			hdr(name(n), "")
			sum += n
		}
		w.r.Probe("over-keys")
	case 5:
		sum := 0
		for _, h := range q.Headers {
			sum += len(h.V)
		}
		for sum <= m.vals {
			n := w.between(1, m.val)
			if left := m.vals + by - sum; n > left {
				n = left
			}
			hdr(name(w.between(1, 4)), name(n))
			sum += n
		}
		w.r.Probe("over-values")
	case 6:
		q.BadCodes = []int{415, 431}
		var toks []string
		for i := 0; i <= m.toks; i++ {
			toks = append(toks, w.oneStr("gzip", "br", "x"))
		}
		k := w.mixCase(w.oneStr("content-encoding", "transfer-encoding"))
		var hs []KV
		for _, h := range q.Headers {
			if !strings.EqualFold(h.K, k) {
				hs = append(hs, h)
			}
		}
		q.Headers = hs
		if w.chance(1, 3) {
			cut := w.draw(len(toks))
			hdr(k, strings.Join(toks[:cut], ","))
			toks = toks[cut:]
		}
		hdr(k, strings.Join(toks, ", "))
		w.r.Probe("over-tokens")
	default:
		q.Bad = false
		q.BodyErr = true
		if m.body > 1<<20 {
			q.Body = w.content(by)
			q.CL = m.body + by
			if w.chance(1, 3) {
				q.CL += w.oneOf(1<<32, 1<<50)
			}
			w.r.Probe("over-body-default")
			q.BodyCodes = []int{413}
			break
		}
		q.Body = w.content(m.body + by)
		if kind == 8 {
			q.Chunked = true
			q.CL = -1
			q.TE = []string{"chunked"}
			hdr(w.mixCase("transfer-encoding"), "chunked")
			w.r.Probe("over-chunked")
		} else {
			q.CL = len(q.Body)
			w.r.Probe("over-body")
			if w.chance(1, 3) {
				// announced only
				q.CL = w.oneOf(1<<50, 1<<62, 1<<32+w.draw(m.body), 1<<16+m.body, math.MaxInt64, math.MaxInt64-1)
				q.Body = q.Body[:w.draw(len(q.Body))]
				w.r.Probe("over-body-huge")
			}
		}
		if kind == 7 || len(q.Body) <= m.chunk {
			q.BodyCodes = []int{413}
		}
	}
	q.build(w, false)
	if (kind == 0 || kind == 2 || kind == 3 || kind == 9) && w.chance(1, 3) {
		// the rest never comes
		q.Unfinished = true
		switch kind {
		case 9:
			q.Head = q.Head[:m.url+w.between(1, by)]
		case 0:
			q.Head = q.Head[:len(q.Method)+1+m.url+1]
		default:
			at := 0
			for _, h := range q.Headers {
				if kind == 2 && len(h.K) > m.key {
					at = bytes.Index(q.Head, []byte("\n"+h.K+":")) + 1 + m.key + 1
					break
				} else if kind == 3 && len(h.V) > m.val {
					at = bytes.Index(q.Head, []byte(h.V)) + m.val + 1
					break
				}
			}
			q.Head = q.Head[:at]
		}
		w.r.Probe("over-unfinished")
	}
	if kind == 8 && w.chance(1, 2) {
		// a single piece, too large on its own
		q.Body = w.content(m.chunk + by)
		if len(q.Body) <= m.body {
			w.r.Probe("over-chunk")
		}
		q.Wire = []byte(fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(q.Body), q.Body))
		q.BodyCodes = nil
	}
	return q
}

// C07: limits.
func scenC07(w *World) {
	w.tune()
	var m measures
	clients := w.between(1, 3)
	for i := 0; i < clients; i++ {
		s := w.script(mainAddr)
		w.network(s)
		g := genOpts{noClose: true, noHTTP10: w.chance(3, 4), maxBody: 120}
		n := w.between(1, 5)
		if more, _ := w.long(s); more > 0 {
			n, g.maxBody, g.noHTTP10 = more, 12, true
		}
		for j := 0; j < n; j++ {
			q := w.genReq(g)
			w.readMode(q)
			m.measure(q)
			s.add(q, w.genPlan(planOpts{simple: true, maxBody: 40}))
		}
	}
	// the limits are as tight as possible
	slack := func(x *int, least int) {
		if *x < least {
			*x = least
		}
		if w.chance(1, 3) {
			*x += w.between(1, 30)
		}
	}
	slack(&m.url, 16)
	slack(&m.num, 1)
	slack(&m.key, 20)
	slack(&m.val, 20)
	slack(&m.keys, 20)
	slack(&m.vals, 20)
	slack(&m.toks, 1)
	slack(&m.body, 1)
	slack(&m.chunk, 16)
	c := &w.cfg
	// some are left as they are by default
	keep := func(def int, x *int) bool {
		if def < *x || !w.chance(1, 12) {
			return false
		}
		*x = def
		w.r.Probe("default-limit")
		if def > 1000 {
			// not byte by byte, as these are large
			if c.TCP.ReadBufferSize < 300 {
				c.TCP.ReadBufferSize = 300
			}
			for _, s := range w.all {
				s.prof.MaxRead = 0
				if s.prof.ReadCut > 1 {
					s.prof.ReadCut = 1
				}
				if s.segMode > 1 {
					s.segMode = 1
				}
			}
		}
		return true
	}
	if !keep(c.URL.BufferSize.Maximal, &m.url) {
		c.URL.BufferSize.Maximal = m.url
	}
	if !keep(c.Headers.Number.Maximal, &m.num) {
		c.Headers.Number.Maximal = m.num
	}
	if !keep(c.Headers.MaxKeyLength, &m.key) {
		c.Headers.MaxKeyLength = m.key
	}
	if !keep(c.Headers.MaxValueLength, &m.val) {
		c.Headers.MaxValueLength = m.val
	}
	if !keep(c.Headers.KeySpace.Maximal, &m.keys) {
		c.Headers.KeySpace.Maximal = m.keys
	}
	if !keep(c.Headers.ValueSpace.Maximal, &m.vals) {
		c.Headers.ValueSpace.Maximal = m.vals
	}
	if !keep(c.Headers.MaxEncodingTokens, &m.toks) {
		c.Headers.MaxEncodingTokens = m.toks
	}
	if def := int(c.Body.MaxSize); w.chance(1, 12) {
		// too much to be really sent
		m.body = def
		w.r.Probe("default-limit")
	}
	c.Body.MaxSize = uint(m.body)
	if !keep(int(c.Body.MaxChunkSize), &m.chunk) {
		c.Body.MaxChunkSize = int64(m.chunk)
	}
	for _, s := range w.all {
		for _, q := range s.reqs {
			q.defaults = c.Headers.Default
		}
		// some at the limit
		if w.chance(3, 4) {
			w.exact(s, m)
		}
		if w.chance(2, 3) {
			q := w.over(m)
			w.readMode(q)
			s.add(q, w.genPlan(planOpts{simple: true, maxBody: 40}))
			if !q.Unfinished && w.chance(1, 3) {
				w.conversation(s, 1, genOpts{noBody: true, simplePath: true}, planOpts{simple: true})
				s.pipeline = 1
			}
		}
	}
	w.newApp()
	w.serve(w.simple())
	w.runAll()
	w.stop()
}

// exact adds a request which is just within some limit.
func (w *World) exact(s *Script, m measures) {
	n := func(max int) string {
		if max < 1 {
			return ""
		}
		return w.token(max, max)
	}
	q := &Req{Method: "POST", Proto: "HTTP/1.1", FinalProt: "HTTP/1.1", CL: -1, Path: "/", Target: "/"}
	lf := w.chance(1, 2)
	cr := 1
	if lf {
		cr = 0
	}
	keys, vals, num := m.keys, m.vals, m.num
	hdr := func(k, v string) {
		q.Headers = append(q.Headers, KV{k, v})
		keys -= len(k)
		vals -= len(v) + 1 + cr
		num--
	}
	least := func(a, b int) int {
		if a < b {
			return a
		}
		return b
	}
	switch w.draw(6) {
	case 0:
		if l := m.url - cr - len("/ HTTP/1.1"); l > 0 {
			q.Target += n(l)
			q.Path = q.Target
		}
		w.r.Probe("exact-url")
	case 1:
		for num > 0 && keys > 0 && vals > cr {
			hdr("X", "")
		}
		w.r.Probe("exact-number")
	case 2:
		if l := least(m.key, keys); l > 0 && vals > 2+cr && num > 0 {
			hdr("X"+n(l-1), "a")
		}
		w.r.Probe("exact-key")
	case 3:
		if l := least(m.val, vals) - 1 - cr; l > 0 && num > 0 {
			hdr("X", n(l))
		}
		w.r.Probe("exact-value")
	case 4:
		// all the space for keys
		for keys > 0 && num > 0 && vals > cr {
			hdr("X"+n(least(m.key, keys)-1), "")
		}
		w.r.Probe("exact-keys")
	default:
		for keys > 0 && num > 0 && vals > 1+cr {
			hdr("X", n(least(m.val, vals)-1-cr))
		}
		w.r.Probe("exact-values")
	}
	if keys >= len("content-length") && num > 0 && m.body < 1<<20 && w.chance(1, 2) {
		q.CL = m.body
		q.Body = w.content(q.CL)
		num--
	}
	// no spaces other than the counted ones
	nl := "\r\n"
	if lf {
		nl = "\n"
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s %s%s", q.Method, q.Target, q.Proto, nl)
	for _, h := range q.Headers {
		fmt.Fprintf(&b, "%s: %s%s", h.K, h.V, nl)
	}
	if q.CL >= 0 {
		fmt.Fprintf(&b, "Content-Length: %d%s", q.CL, nl)
	}
	b.WriteString(nl)
	q.Head = b.Bytes()
	q.Wire = q.Body
	w.readMode(q)
	s.add(q, w.genPlan(planOpts{simple: true, maxBody: 40}))
}
