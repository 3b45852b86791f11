package verifsim

import (
	"fmt"
	"strings"
)

func init() {
	scenarios["C21"] = scenC21
}

// genBad makes a malformed request.
func (w *World) genBad() *Req {
	q := w.genReq(genOpts{noBody: true, noClose: true})
	q.Bad = true
	lines := strings.Split(string(q.Head), "\r\n")
	if len(lines) < 3 {
		lines = strings.Split(string(q.Head), "\n")
	}
	lines = lines[:len(lines)-2] // the request line and headers
	hdr := func(l ...string) {
		at := 1 + w.draw(len(lines))
		lines = append(lines[:at:at], append(append([]string(nil), l...), lines[at:]...)...)
	}
	q.BadCodes = []int{400}
	target := q.Target
	end := "\r\n\r\n"
	switch w.pick(4, 2, 2, 4, 4, 4, 4, 2, 2, 2, 2, 3, 3, 2) {
	case 0: // method
		m := w.oneStr("FOO", "get", "GETT", "GE", "POS", "Head", "G", "PATCHY", "TRACE\x00", "CONNECTION", "OPTIONSS", "DELETED", "PUTT", "xGET", "HEAT", "POSE", "PUN", "GOT", "PATCI", "TRACY", "DELETI", "CONNECS", "OPTION", "\r\nGET", "GET\t")
		if w.chance(1, 4) {
			m = w.token(1, 12)
			for _, k := range methods {
				if k == m {
					m += "x"
				}
			}
		}
		if w.chance(1, 6) {
			// one byte of a method changed
			b := []byte(methods[w.draw(len(methods))])
			i := w.draw(len(b))
			b[i] ^= byte(1 << uint(w.draw(7)))
			if b[i] == ' ' || b[i] == '\n' {
				b[i] = '!'
			}
			m = string(b)
		}
		lines[0] = fmt.Sprintf("%s %s %s", m, target, q.Proto)
		q.BadCodes = []int{501, 400}
		q.BadMethod = true
	case 1: // no protocol
		lines[0] = fmt.Sprintf("%s %s", q.Method, target)
		q.BadCodes = []int{400, 505}
	case 2: // no target
		lines[0] = fmt.Sprintf("%s  %s", q.Method, q.Proto)
	case 3: // protocol
		p := w.oneStr("HTTP/1.2", "HTTP/2.0", "HTTP/3.0", "HTTP/0.9", "HTTP/11", "http/1.1", "HTTP/1x1", "HTTP/1.1x", "", "HTTP", "HTTP/1.", "HTTP/1.a", "HTTP/a.1", "ICY/1.1x", "HTTQ/1.1", "XTTP/1.0", "HTTP-1.1", "HTTP/1.11", "HTTP/01.1", "HTTP/2.1", "HTTP/1/1", "HTTP/9.9")
		lines[0] = fmt.Sprintf("%s %s %s", q.Method, target, p)
		q.BadCodes = []int{505, 400}
	case 4: // escape
		path := "/" + w.token(0, 5)
		bad := w.oneStr("%", "%a", "%zz", "%g1", "%1g", "%%20", "% 2", "%-1", "%2", "%x0", "%0x", "%/0", "%:0", "%@0", "%`0", "%G0", "%0/", "%0:", "%0@", "%0`", "%0G", "%\x800")
		if strings.Contains(bad, " ") {
			bad = "%!2"
		}
		path += bad
		if len(bad) < 2 {
			// nothing may follow which completes it
			path += w.oneStr("", "z", "/", "zz")
		} else if len(bad) == 2 {
			path += w.oneStr("", "z", "/")
		} else {
			path += w.token(0, 4)
		}
		if w.chance(1, 3) {
			path += "?a=b"
		}
		lines[0] = fmt.Sprintf("%s %s %s", q.Method, path, q.Proto)
	case 5: // header line
		hdr(w.oneStr("NoColon", "Foo Bar", "Foo : bar", " Folded: value", "\tFolded: value", ": empty", "A B: c", "Content-Length : 3", "\x00A: b", "No\rColon: x", "a", "X-A: b\rc", "X-A: b\x00c", "X-A: \r\rb", "X-A: \x00", "X-A: b\rX-B: c", "Connection: close\r\r"))
	case 6: // content length
		hdr("Content-Length: " + w.oneStr("abc", "-1", "+1", "1 2", "", " ", "0x10", "1,2", "1.5", "1f5", "9999999999999999999999", "18446744073709551617", "9223372036854775808", "4294967296000000000000", "1\x002", "a1", "1a", "\v1", "5\rX: y", "0\r\r", "0\r0"))
		q.BadCodes = []int{400, 413}
	case 7: // contradicting lengths
		a := w.draw(50)
		hdr(fmt.Sprintf("Content-Length: %d", a))
		hdr(fmt.Sprintf("content-length: %d", a+1+w.draw(3)))
		q.CL = -1
		for i, l := range lines {
			// only those two
			if i > 0 && strings.HasPrefix(strings.ToLower(l), "content-length: 0") && a != 0 {
				_ = l
			}
		}
	case 8: // line ends
		hdr("X-A: b\n\rX-B: c")
	case 9: // not a request at all
		lines = []string{w.oneStr("hello", "GET", "\x16\x03\x01\x02", "{}", "", "\r", "GET\t/\tHTTP/1.1", "GET\x00/\x00HTTP/1.1")}
		q.BadCodes = []int{400, 501}
		q.BadMethod = true
	case 10: // too many encodings
		hdr("Transfer-Encoding: " + strings.Repeat("gzip, ", 40) + "chunked")
		q.BadCodes = []int{415, 400, 431, 501}
		if w.chance(1, 3) {
			lines[len(lines)-1] = strings.Replace(lines[len(lines)-1], "Transfer-Encoding", "Content-Encoding", 1)
		}
	case 12: // the end of the body can't be told
		te := w.oneStr("gzip", "identity", "chunked, gzip", "x-chunked", "chunkedx", "chunke", "chunked;a=b", "xhunked", "CHUNKED,GZIP", "chunked,identity", "br", "\"chunked\"")
		if at := strings.IndexByte(te, ','); at >= 0 && w.chance(1, 3) {
			hdr("Transfer-Encoding: "+te[:at], "transfer-encoding:"+te[at+1:])
		} else {
			hdr("Transfer-Encoding: " + te)
		}
		if q.CL < 0 && w.chance(1, 2) {
			hdr(fmt.Sprintf("Content-Length: %d", w.draw(5)))
		}
		q.BadCodes = []int{400, 501, 415}
		w.r.Probe("bad-transfer-encoding")
	case 13: // the end of the head
		end = "\r\n\r" + w.oneStr("\r", "\r\n", "\r\n\r\n", "X: y\r\n\r\n", " \r\n\r\n", "\x00\n", "\t\n\n") + "\r\n\r\n"
	default: // a space instead of the end of the line
		lines[0] = fmt.Sprintf("%s %s %s ", q.Method, target, q.Proto)
		q.BadCodes = []int{505, 400}
	}
	q.Head = []byte(strings.Join(lines, "\r\n") + end)
	if q.Method == "" {
		q.BadMethod = true
	}
	return q
}

// C21: malformed requests.
func scenC21(w *World) {
	w.tune()
	w.newApp()
	for i, n := 0, w.between(1, 2); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		w.conversation(s, w.draw(4), genOpts{noClose: true, maxBody: 50}, planOpts{maxBody: 60})
		for _, q := range s.reqs {
			if q.Plan.unsized() && q.FinalProt == "HTTP/1.0" && q.Method != "HEAD" {
				q.Plan = w.genPlan(planOpts{simple: true})
				q.Closes = false
			}
		}
		s.add(w.genBad(), nil)
		if w.chance(1, 2) {
			w.conversation(s, w.between(1, 2), genOpts{maxBody: 50}, planOpts{simple: true})
			s.pipeline = 1
		}
		if w.chance(1, 8) {
			w.cut(s)
		}
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
}
