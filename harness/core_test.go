package verifsim

import (
	"fmt"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http/encryption"
	"verif.local/sim/simtls"
)

// network draws how the bytes of a client travel.
func (w *World) network(s *Script) {
	r := w.r
	s.segMode = r.Pick("net", 2, 4, 1)
	s.pipeline = r.Pick("net", 3, 2, 2)
	s.prof.ReadCut = r.Pick("net", 3, 3, 1)
	if r.Chance("net", 1, 4) {
		s.prof.MaxRead = 1 + r.Draw("net", 40)
	}
	s.prof.EOFWithData = r.Chance("net", 1, 3)
	if r.Chance("net", 1, 4) {
		s.prof.Latency = time.Duration(r.Draw("net", 900)) * time.Millisecond
	}
	if r.Chance("net", 1, 4) {
		s.prof.Window = 1 + r.Draw("net", 200)
		s.slowRead = r.Chance("net", 1, 2)
		if r.Chance("net", 1, 2) {
			s.recvMax = 1 + r.Draw("net", 50)
		}
	}
	s.end = r.Pick("net", 4, 2, 1, 1)
	if r.Chance("net", 1, 3) {
		s.startDelay = time.Duration(r.Draw("net", 3000)) * time.Millisecond
	}
	if r.Chance("net", 1, 3) {
		s.delayBetw = time.Duration(1+r.Draw("net", 5000)) * time.Millisecond
	}
}

// add gives a request to a client.
func (s *Script) add(q *Req, p *Plan) *Req {
	q.script = s
	q.defaults = s.w.cfg.Headers.Default
	if p != nil {
		q.Plan = p
	} else if q.Plan == nil {
		q.Plan = s.w.genPlan(planOpts{simple: true})
	}
	if q.Plan.Src != nil {
		q.Plan.Src.q = q
	}
	q.endless()
	q.Enc = s.w.encOf(s.addr)
	s.reqs = append(s.reqs, q)
	return q
}

// endless notes that only the end of the connection can end the response.
func (q *Req) endless() {
	if q.Plan != nil && q.Exps == nil && q.Plan.unsized() && q.FinalProt == "HTTP/1.0" && q.Method != "HEAD" {
		q.Closes = true
	}
}

func (w *World) encOf(addr string) encryption.Token {
	if e, ok := w.enc[addr]; ok {
		return e
	}
	return encryption.Plain
}

// isJSON tells whether a content type is the one of JSON.
func isJSON(ctype string) bool {
	return strings.EqualFold(strings.TrimSpace(strings.Split(ctype, ";")[0]), "application/json")
}

// readMode draws how the handler treats the body.
func (w *World) readMode(q *Req) {
	q.ReadMode = w.draw(readModes)
	q.ReadArg = w.oneOf(64, 1, 2, 5, 17, 4096)
	if q.ReadMode == readJSON && (q.CType == "" || isJSON(q.CType)) {
		// only bodies made for it can be read so
		q.ReadMode = readBytes
	}
}

// conversation fills a client with n requests.
func (w *World) conversation(s *Script, n int, g genOpts, p planOpts) {
	for i := 0; i < n; i++ {
		g := g
		g.json = !g.noBody && !g.json && w.chance(1, 12)
		q := w.genReq(g)
		w.readMode(q)
		if g.json && w.chance(2, 3) {
			q.ReadMode = readJSON
		}
		s.add(q, w.genPlan(p))
	}
}

// long tells whether a client should talk for very long this time, and how many requests it
// makes then.
func (w *World) long(s *Script) (int, genOpts) {
	if !w.chance(1, 120) {
		return 0, genOpts{}
	}
	w.r.Probe("long-conversation")
	s.segMode = w.oneOf(0, 0, 1)
	s.prof.MaxRead, s.prof.Window, s.recvMax, s.slowRead = 0, 0, 0, false
	if s.prof.ReadCut > 1 {
		s.prof.ReadCut = 1
	}
	s.maxGap = 50 * time.Millisecond
	top := w.oneOf(110, 140, 290)
	if n := w.cfg.TCP.ReadBufferSize; n > 0 && n < 16 {
		top = 110
	}
	if n := w.cfg.TCP.ReadBufferSize; w.prop == "C02" && (n == 0 || n >= 300) && w.chance(1, 10) {
		w.r.Probe("very-long-conversation")
		s.segMode, s.prof.ReadCut = 0, 0
		top = 1200
	}
	if w.chance(1, 3) {
		// hours, all in all
		s.delayBetw = time.Minute
	}
	return w.between(top/2, top), genOpts{noClose: true, noHTTP10: true, maxBody: 12}
}

func initKeys() {
	for _, k := range rsaKeys {
		simtls.Keys = append(simtls.Keys, simtls.ParseKey(k))
	}
}

var _ = fmt.Sprint
