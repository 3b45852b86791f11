package verifsim

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http/proto"
)

func init() {
	scenarios["C01"] = scenC01
	scenarios["C02"] = scenC02
	scenarios["C03"] = scenC03
	scenarios["C04"] = scenC04
	scenarios["C06"] = scenC06
	scenarios["C19"] = scenC19
	scenarios["C20"] = scenC20
}

// C01: requests arrive as they were meant, however the bytes are cut.
func scenC01(w *World) {
	w.lots = w.chance(1, 12)
	w.tune()
	w.newApp()
	for i, n := 0, w.between(1, 3); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		w.conversation(s, w.between(1, 5), genOpts{}, planOpts{simple: true})
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
}

// cut makes the client break off anywhere.
func (w *World) cut(s *Script) {
	s.cutAt = w.draw(s.total() + 1)
	s.cutKind = w.draw(4)
	if w.chance(1, 2) {
		// around the end of some part
		at := 0
		var edges []int
		for _, q := range s.reqs {
			edges = append(edges, at, at+len(q.Head))
			at += len(q.Head) + len(q.Wire)
		}
		edges = append(edges, at)
		e := edges[w.draw(len(edges))] + w.between(-3, 3)
		if e >= 0 && e <= s.total() {
			s.cutAt = e
		}
	}
}

// C02: one call and one response per request, in order; persistence.
func scenC02(w *World) {
	w.tune()
	w.newApp()
	for i, n := 0, w.between(1, 3); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		if w.chance(1, 2) {
			s.pipeline = 1
		}
		w.conversation(s, w.between(1, 7), genOpts{maxBody: 60}, planOpts{streams: w.chance(1, 3), files: w.chance(1, 4), maxBody: 60})
		if n, g := w.long(s); n > 0 {
			s.reqs = nil
			w.conversation(s, n, g, planOpts{simple: true, maxBody: 12})
		}
		for _, q := range s.reqs {
			if w.chance(1, 5) {
				q.Plan.Delay = time.Duration(w.between(1, 20000)) * time.Millisecond
			}
		}
		switch w.pick(4, 3, 2) {
		case 1:
			w.cut(s)
		case 2:
			if w.chance(1, 2) {
				s.add(w.genBad(), nil)
				if w.chance(1, 2) {
					w.conversation(s, 1, genOpts{}, planOpts{simple: true})
				}
			}
		}
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
}

// C03: responses carry what the handler has set.
func scenC03(w *World) {
	w.lots = w.chance(1, 12)
	w.tune()
	w.newApp()
	for i, n := 0, w.between(1, 2); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		g := genOpts{maxBody: 40}
		if w.chance(1, 3) {
			g.method = "HEAD"
		}
		max := w.oneOf(100, 400, 3000)
		if s.prof.Window == 0 && w.chance(1, 30) {
			max = w.oneOf(66000, 130000)
			w.r.Probe("big-responses")
		}
		w.conversation(s, w.between(1, 6), g, planOpts{streams: true, files: true, maxBody: max})
		if w.chance(1, 8) {
			s.add(w.genBad(), nil)
		}
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
}

// C04: nothing of a request shows up in later ones.
func scenC04(w *World) {
	w.lots = w.chance(1, 12)
	w.tune()
	w.leave = true
	w.newApp()
	for i, n := 0, w.between(1, 2); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		s.prof.Latency = 0
		g := genOpts{noClose: true, maxBody: 80}
		n := w.between(2, 9)
		if m, _ := w.long(s); m > 0 {
			n, g.maxBody, g.noHTTP10 = m, 12, true
		}
		w.conversation(s, n, g, planOpts{streams: true, files: w.chance(1, 3), maxBody: 80})
		for _, q := range s.reqs {
			if w.chance(1, 6) {
				w.upgrade(q)
			}
		}
		if w.chance(1, 4) {
			s.add(w.genBad(), nil)
		}
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
}

// C06: bodies.
func scenC06(w *World) {
	w.tune()
	huge, big := w.chance(1, 20), w.chance(1, 60)
	if huge {
		w.cfg.Body.MaxSize = 1 << 62
	} else if big {
		w.cfg.TCP.ReadBufferSize = w.oneOf(4096, 1500, 70000, 140000)
	}
	w.newApp()
	for i, n := 0, w.between(1, 2); i < n; i++ {
		s := w.script(mainAddr)
		max := w.oneOf(30, 200, 2000, 6000)
		if big {
			max = w.oneOf(66000, 130000)
			w.r.Probe("big-bodies")
		} else {
			w.network(s)
		}
		for j, m := 0, w.between(1, 5); j < m; j++ {
			if big && j+i > 1 {
				break
			}
			g := genOpts{maxBody: max, noClose: w.chance(3, 4)}
			g.json = w.chance(1, 8)
			q := w.genReq(g)
			for k := 0; k < 3 && len(q.Body) == 0; k++ {
				q = w.genReq(g)
			}
			w.readMode(q)
			if g.json {
				q.ReadMode = w.oneOf(readJSON, readBytes, readAll)
			}
			if big && q.ReadArg < 64 {
				q.ReadArg = 64
			}
			if q.Chunked && len(q.Body) > 0 && w.chance(1, 6) {
				w.spoil(q)
			}
			s.add(q, nil)
		}
		if huge {
			w.huge(s)
		} else if w.chance(1, 3) {
			w.cut(s)
		} else if w.chance(1, 3) {
			s.pipeline = 0
			for _, q := range s.reqs {
				w.gates(q)
			}
		}
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
}

// huge lets the client announce much more than it ever sends.
func (w *World) huge(s *Script) {
	q := w.genReq(genOpts{noBody: true, noClose: true})
	q.Body = w.content(w.between(2, 200))
	sent := w.between(1, len(q.Body)-1)
	q.CL = w.oneOf(1<<16, 1<<31, 1<<32, 1<<33, 1<<40, 1<<60, 1<<8) + w.oneOf(0, sent, w.draw(sent+1))
	if q.CL <= sent {
		q.CL += 1 << 32
	}
	q.build(w, false)
	w.readMode(q)
	q.ReadMode = w.oneOf(readReader, readRetrieve, readCallback, readDiscard)
	s.add(q, nil)
	s.cutAt = s.total() - len(q.Wire) + sent
	s.cutKind = w.draw(4)
	w.r.Probe("huge-announced")
}

// gates makes the client wait for the handler in the middle of the body.
func (w *World) gates(q *Req) {
	if len(q.Body) == 0 || q.BodyErr {
		return
	}
	q.ReadMode = w.oneOf(readReader, readRetrieve, readCallback)
	h := len(q.Head)
	if w.chance(1, 3) {
		q.gates = append(q.gates, gate{h, 0})
	}
	if !q.Chunked {
		for at := 0; at < len(q.Body); {
			at += w.between(1, len(q.Body)-at)
			if w.chance(2, 3) && len(q.gates) < 6 {
				q.gates = append(q.gates, gate{h + at, at})
			}
		}
		return
	}
	for at, got := 0, 0; got < len(q.Body); {
		n, line := 0, bytes.IndexByte(q.Wire[at:], '\n')
		fmt.Sscanf(string(q.Wire[at:at+line]), "%x", &n)
		got += n
		at += line + 1 + n + 2
		if w.chance(2, 3) && len(q.gates) < 6 {
			q.gates = append(q.gates, gate{h + at, got})
		}
	}
}

// spoil makes the chunked coding of a request malformed somewhere.
func (w *World) spoil(q *Req) {
	cut := w.draw(len(q.Body)) // so much is sent correctly
	var b []byte
	for off := 0; off < cut; {
		n := w.between(1, cut-off)
		b = append(b, fmt.Sprintf("%x\r\n", n)...)
		b = append(b, q.Body[off:off+n]...)
		b = append(b, "\r\n"...)
		off += n
	}
	rest := q.Body[cut:]
	switch w.draw(4) {
	case 0: // not a number
		b = append(b, w.oneStr("zz\r\n", "g1\r\n", "-1\r\n", "*\r\n")...)
	case 1: // no line break after the data
		b = append(b, fmt.Sprintf("%x\r\n", len(rest))...)
		b = append(b, rest...)
		b = append(b, w.oneStr("xx", "0\r\n\r\n", "\rx")...)
	case 2: // too large
		b = append(b, "ffffffffffffffffff\r\n"...)
	default: // CR without LF
		b = append(b, fmt.Sprintf("%x\rz", len(rest))...)
	}
	q.Wire = append(b, "\r\nabc\r\n0\r\n\r\n"...)
	q.BodyErr = true
}

// upgrade makes a request ask for another protocol.
func (w *World) upgrade(q *Req) {
	if q.Upgrade != proto.Unknown {
		return
	}
	tok := ""
	other := w.oneStr("websocket", "IRC/6.9", "TLS/1.0", "http/3", "HTTP/1.2", "xhttp/1.1", "http/1.1x")
	switch w.pick(3, 3, 1, 2) {
	case 0:
		tok, q.Upgrade = w.oneStr("HTTP/1.1", "http/1.1"), proto.HTTP11
	case 1:
		tok, q.Upgrade = w.oneStr("HTTP/1.0", "http/1.0"), proto.HTTP10
	case 2:
		tok, q.Upgrade = w.oneStr("h2c", "H2C"), proto.HTTP2
	default:
		tok = other
	}
	switch {
	case q.Upgrade == proto.Unknown || q.Upgrade == proto.HTTP2:
	default:
		if w.chance(1, 3) {
			tok = other + w.oneStr(",", ", ", " , ") + tok
		}
		if w.chance(1, 4) {
			// an earlier one is preferred
			tok += ", " + w.oneStr("HTTP/1.1", "HTTP/1.0", "h2c", other)
		}
		q.Interim = true
		q.FinalProt = strings.TrimSpace(q.Upgrade.String())
	}
	if q.Conn == "" && w.chance(1, 2) {
		q.Conn = w.oneStr("upgrade", "Upgrade")
		q.Headers = append(q.Headers, KV{w.mixCase("connection"), q.Conn})
	}
	if at := strings.IndexByte(tok, ','); at >= 0 && w.chance(1, 3) {
		// several lines are the same as a single one
		q.Headers = append(q.Headers, KV{w.mixCase("upgrade"), strings.TrimSpace(tok[:at])}, KV{w.mixCase("upgrade"), strings.TrimSpace(tok[at+1:])})
	} else {
		q.Headers = append(q.Headers, KV{w.mixCase("upgrade"), tok})
	}
	q.build(w, false)
	closes := hasTok(q.Conn, "close")
	if q.Interim {
		q.Closes = closes
	} else {
		q.Closes = closes || q.Proto == "HTTP/1.0" && !hasTok(q.Conn, "keep-alive")
	}
	q.endless()
	q.cached = nil
}

// C19: protocol upgrades.
func scenC19(w *World) {
	w.tune()
	w.newApp()
	for i, n := 0, w.between(1, 2); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		for j, m := 0, w.between(1, 6); j < m; j++ {
			q := w.genReq(genOpts{maxBody: 40})
			w.readMode(q)
			if w.chance(2, 3) {
				w.upgrade(q)
			}
			s.add(q, w.genPlan(planOpts{streams: w.chance(1, 4), maxBody: 60}))
		}
		if w.chance(1, 4) {
			w.cut(s)
		}
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
}

// C20: streams.
func scenC20(w *World) {
	w.tune()
	w.newApp()
	var srcs []*source
	for i, n := 0, w.between(1, 2); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		for j, m := 0, w.between(1, 4); j < m; j++ {
			q := w.genReq(genOpts{maxBody: 30})
			w.readMode(q)
			max := w.oneOf(50, 500, 5000)
			if s.prof.Window == 0 && w.chance(1, 8) {
				max = w.oneOf(10000, 10000, 140000)
			}
			p := w.genPlan(planOpts{streams: true, files: true, failing: w.chance(1, 3), maxBody: max})
			for k := 0; k < 3 && p.Kind < bodySized; k++ {
				p = w.genPlan(planOpts{streams: true, files: true, failing: w.chance(1, 3), maxBody: 300})
			}
			s.add(q, p)
			if p.Src != nil {
				srcs = append(srcs, p.Src)
			}
		}
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
	for _, src := range srcs {
		if src.late {
			w.violate("stream", "a stream is read after it has been closed")
		}
	}
}
