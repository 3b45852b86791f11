package verifsim

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/proto"
)

// KV is a name and a value.
type KV struct{ K, V string }

// Req is a request as the client means it.
type Req struct {
	Method   string
	Target   string // as on the wire
	Path     string // decoded
	RawQuery string
	Query    []KV
	Proto    string
	Headers  []KV // in order, without Content-Length
	CL       int  // -1: none
	Chunked  bool
	Trailer  bool
	TE, CE   []string
	CType    string
	Conn     string
	Upgrade  proto.Proto
	Cookies  []KV
	badJSON  bool // the body is to be read as JSON, but is none (or of another shape)
	Body     []byte

	Head []byte // request line and headers on the wire
	Wire []byte // body on the wire

	Plan *Plan

	Bad       bool // malformed: must be refused
	BadCodes  []int
	ReadMode  int
	ReadArg   int
	Broken    bool // the body will not arrive completely
	BodyErr   bool // body is over a limit or malformed: reading must fail
	Closes    bool // the connection is closed after the response
	Enc       encryption.Token
	NoCompare bool
	Hijack    bool
	Interim   bool
	FinalProt string

	Exps  func() []*Exp // the expected responses, if not the planned ones
	Route string        // the route it has to be dispatched to
	wild  bool
	trail []string
	want  []string

	BodyCodes  []int
	BadMethod  bool // the method itself is malformed
	Custom     func(s *Script, request *http.Request) *http.Response
	anyErrBody bool
	defaults   map[string]string
	script     *Script
	cached     []*Exp
	gotCode    int
	leaf       string // the handler it reached
	routed     string // the path after routing
	aliasFrom  string
	wantCtx    string
	params     []KV
	extra      []KV // headers added by middlewares
	marker     string
	gates      []gate
	seen       int // bytes of the body the handler has got so far
	queryErr   bool
	Unfinished bool // a part of it never comes
	anyCL      bool // what the length says does not matter
	cookieErr  bool
	kept       func() string // compares what the handler has kept with what was sent

	// observed
	called  int
	done    bool
	given   bool // the handler has answered
	bodyGot []byte
	bodyErr error
	bodyEnd bool
}

// gate is a place in a request where the client waits until the handler has got everything
// sent so far.
type gate struct{ wire, body int }

func (q *Req) raw() []byte { return append(append([]byte(nil), q.Head...), q.Wire...) }

// genOpts limits what genReq makes.
type genOpts struct {
	noBody, noClose, noHTTP10, noUpgrade, noChunked, noLF bool
	path                                                  string // fixed decoded path
	method                                                string
	maxBody                                               int
	headers                                               []KV
	simplePath                                            bool
	json                                                  bool
}

var methods = []string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"}

const tokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"

func (w *World) token(lo, hi int) string {
	n := w.between(lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = tokenChars[w.draw(len(tokenChars))]
	}
	return string(b)
}

// hname makes a header name which means nothing to the server.
func (w *World) hname() string {
	switch w.pick(6, 3, 1, 2, 1) {
	case 4:
		// one character of a name with a meaning changed
		b := []byte(w.oneStr("content-length", "content-type", "content-encoding", "transfer-encoding", "upgrade", "trailer", "connection", "cookie"))
		i := w.draw(len(b))
		b[i] ^= byte(1 << uint(w.draw(5)))
		if s := string(b); !special(s) && strings.IndexAny(s, ":\x7f") < 0 {
			return w.mixCase(s)
		}
		return "X-Near"
	case 0:
		return "X-" + w.token(1, 8)
	case 1:
		return w.mixCase(w.oneStr("accept", "user-agent", "accept-language", "referer", "origin", "authorization", "if-none-match", "range"))
	case 2:
		return "X-" + w.token(20, 60)
	default:
		// same length and prefix as headers with a meaning
		return w.mixCase(w.oneStr("content-lengts", "content-typo", "content-encodinh", "transfer-encodink", "upgrado", "trailes", "connectiom", "xookie", "content-md5x"))
	}
}

// special tells whether a header has a meaning to the server.
func special(k string) bool {
	switch strings.ToLower(k) {
	case "content-length", "content-type", "content-encoding", "transfer-encoding", "upgrade", "trailer", "connection", "cookie", "host":
		return true
	}
	return false
}

func (w *World) mixCase(s string) string {
	switch w.draw(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.Title(s) //nolint
	}
	b := []byte(s)
	for i := range b {
		if w.draw(2) == 1 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

const valueChars = "abcdefghijklmnopqrstuvwxyz0123456789 !\"#$%&'()*+,-./:;<=>?@[]^_`{|}~ABCXYZ"

// hvalue makes a header value without spaces at its ends.
func (w *World) hvalue() string {
	var n int
	switch w.pick(6, 2, 1, 1) {
	case 0:
		n = w.between(1, 12)
	case 1:
		n = w.between(0, 3)
	case 2:
		n = w.between(30, 120)
	default:
		return w.oneStr("chunked", "close", "keep-alive", "0", "1", "text/html", "a,b;q=0.5", "\x80\xff\xc3\xa9", "\t")[0:]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = valueChars[w.draw(len(valueChars))]
	}
	return strings.Trim(string(b), " ")
}

// more is n, or very many of them.
func (w *World) more(n, top int) int {
	if w.lots && w.chance(1, 3) {
		return w.between(n, top)
	}
	return n
}

const pathChars = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.~!$&'()*+,;=:@"

// pathSeg makes a path segment: how it looks on the wire and what it means.
func (w *World) pathSeg(lo, hi int) (wire, plain string) {
	n := w.between(lo, hi)
	for i := 0; i < n; i++ {
		c := pathChars[w.draw(len(pathChars))]
		if w.chance(1, 6) {
			c = byte(w.draw(256))
			if w.chance(1, 10) {
				// what looks like an escape, but only after decoding
				more := w.oneStr("41", "2F", "2f", "00", "25", "61", "20")
				wire += w.escape('%') + more
				plain += "%" + more
				continue
			}
			wire += w.escape(c)
			plain += string([]byte{c})
			continue
		}
		wire += string([]byte{c})
		plain += string([]byte{c})
	}
	return
}

func (w *World) escape(c byte) string {
	const up, lo = "0123456789ABCDEF", "0123456789abcdef"
	a, b := up, up
	if w.draw(2) == 1 {
		a = lo
	}
	if w.draw(2) == 1 {
		b = lo
	}
	return string([]byte{'%', a[c>>4], b[c&15]})
}

const queryChars = "abcdefghijklmnopqrstuvwxyz0123456789-_.~!*'(),:@/?;$"

func (w *World) queryPart(lo, hi int) (wire, plain string) {
	n := w.between(lo, hi)
	for i := 0; i < n; i++ {
		switch w.pick(8, 1, 1) {
		case 0:
			c := queryChars[w.draw(len(queryChars))]
			wire += string([]byte{c})
			plain += string([]byte{c})
		case 1:
			wire += "+"
			plain += " "
		default:
			c := byte(w.draw(256))
			if w.draw(2) == 1 {
				c = "&=+%# ?"[w.draw(7)]
			}
			wire += w.escape(c)
			plain += string([]byte{c})
			if c == '%' && w.draw(2) == 1 {
				// looks like an escape, but only after decoding
				more := w.oneStr("41", "2F", "26", "3d", "25", "20")
				wire, plain = wire+more, plain+more
			}
		}
	}
	return
}

// genReq makes a well-formed request together with what the application has to see.
func (w *World) genReq(o genOpts) *Req {
	q := &Req{Proto: "HTTP/1.1", CL: -1, FinalProt: "HTTP/1.1"}
	q.Method = o.method
	if q.Method == "" {
		if w.draw(2) == 0 {
			q.Method = methods[w.draw(2)]
		} else {
			q.Method = methods[w.draw(len(methods))]
		}
	}
	// target
	if o.path != "" {
		for i := 0; i < len(o.path); i++ {
			c := o.path[i]
			if strings.IndexByte(pathChars+"/", c) < 0 || c != '/' && w.chance(1, 20) {
				q.Target += w.escape(c)
			} else {
				q.Target += string([]byte{c})
			}
		}
		q.Path = o.path
	} else {
		for i, n := 0, w.more(w.between(1, 3), 30); i < n; i++ {
			wire, plain := w.pathSeg(0, 8)
			if o.simplePath {
				wire = w.token(1, 6)
				plain = wire
			}
			q.Target += "/" + wire
			q.Path += "/" + plain
		}
	}
	if w.chance(1, 3) {
		var parts []string
		for i, n := 0, w.more(w.between(1, 4), 40); i < n; i++ {
			wire, plain := w.queryPart(1, 6)
			if w.chance(1, 6) {
				// a flag
				parts = append(parts, wire)
				q.Query = append(q.Query, KV{plain, "1"})
				continue
			}
			vw, vp := w.queryPart(0, 8)
			parts = append(parts, wire+"="+vw)
			q.Query = append(q.Query, KV{plain, vp})
			switch w.draw(16) {
			case 0: // once more
				parts = append(parts, wire+"="+vw)
				q.Query = append(q.Query, KV{plain, vp})
			case 1: // another value
				parts = append(parts, wire+"=other")
				q.Query = append(q.Query, KV{plain, "other"})
			}
		}
		if w.chance(1, 16) {
			q.queryErr, q.Query = true, nil
			at := w.draw(len(parts) + 1)
			bad := w.oneStr("=v", "%", "a=%4", "a%=b", "%zz=1", "a=%g0", "=", "a=b%0")
			parts = append(parts[:at:at], append([]string{bad}, parts[at:]...)...)
		}
		q.RawQuery = strings.Join(parts, "&")
		q.Target += "?" + q.RawQuery
	}
	if !o.noHTTP10 && w.chance(1, 6) {
		q.Proto = "HTTP/1.0"
		q.FinalProt = "HTTP/1.0"
	}
	// headers
	var lines []KV
	split := false // the order of lines matters
	add := func(k, v string) { lines = append(lines, KV{k, v}) }
	if w.chance(3, 4) {
		add(w.mixCase("host"), w.oneStr("localhost", "example.com", "a.b:8080"))
	}
	for i, n := 0, w.more(w.pick(3, 3, 2, 1, 1, 1), 24); i < n; i++ {
		k := w.hname()
		if len(lines) > 0 && w.chance(1, 5) {
			k = w.mixCase(strings.ToLower(lines[w.draw(len(lines))].K))
			if strings.EqualFold(k, "host") {
				k = "X-A"
			}
		}
		v := w.hvalue()
		if v == "\t" {
			v = "t"
		}
		add(k, v)
		if w.chance(1, 16) {
			add(k, v)
		}
	}
	if o.json {
		if w.chance(2, 3) {
			q.CType = w.oneStr("application/json", "application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8", "Application/JSON", "application/json ; v=1")
			add(w.mixCase("content-type"), q.CType)
		}
	} else if w.chance(1, 5) {
		q.CType = w.oneStr("application/json", "text/plain", "multipart/form-data; boundary=x", "application/json5", "application/xml; of=application/json", "application/jso", "text/json")
		add(w.mixCase("content-type"), q.CType)
	}
	if w.chance(1, 5) {
		var cs []string
		for i, n := 0, w.more(w.between(1, 4), 30); i < n; i++ {
			c := KV{w.token(1, 6), w.token(0, 8)}
			q.Cookies = append(q.Cookies, c)
			cs = append(cs, c.K+"="+c.V)
			if w.chance(1, 12) {
				if w.chance(1, 2) {
					c.V = "other"
				}
				q.Cookies = append(q.Cookies, c)
				cs = append(cs, c.K+"="+c.V)
			}
		}
		if w.chance(1, 16) {
			q.cookieErr, q.Cookies = true, nil
			at := w.draw(len(cs) + 1)
			bad := w.oneStr("=v", "=")
			if at == len(cs) && w.chance(1, 2) {
				bad = "alone"
			}
			cs = append(cs[:at:at], append([]string{bad}, cs[at:]...)...)
		}
		cut := len(cs)
		if w.chance(1, 4) {
			cut = w.between(1, len(cs))
		}
		join := func(cs []string) string {
			v := strings.Join(cs, w.oneStr("; ", "; ", "; ", ";"))
			if !q.cookieErr && w.chance(1, 8) {
				v += ";"
			}
			return v
		}
		add(w.mixCase("cookie"), join(cs[:cut]))
		if cut < len(cs) {
			add(w.mixCase("cookie"), join(cs[cut:]))
		}
	}
	if w.chance(1, 6) {
		q.CE = []string{w.oneStr("gzip", "br", "identity")}
		if w.chance(1, 3) {
			q.CE = append(q.CE, "zstd")
		}
		split = w.list(add, "content-encoding", q.CE)
	}
	// persistence
	switch q.Proto {
	case "HTTP/1.1":
		switch {
		case !o.noClose && w.chance(1, 10):
			q.Conn = w.oneStr("close", "Close", "CLOSE", "close, TE", "TE,close", "keep-alive , Close", "x-close,close", "close,", ", close")
			q.Closes = true
		case w.chance(1, 6):
			q.Conn = w.oneStr("keep-alive", "Keep-Alive", "x-close", "closed", "TE, close-notify", "clos", "Keep-Alive,TE")
		}
	default:
		if o.noClose || w.chance(3, 4) {
			q.Conn = w.oneStr("keep-alive", "Keep-Alive", "KEEP-ALIVE", "TE, keep-alive", "keep-alive ,x-close")
		} else {
			q.Closes = true
			if w.chance(1, 3) {
				q.Conn = w.oneStr("close", "keep-alive, close", "keep-alives", "x-keep-alive, TE", "keep")
			}
		}
	}
	if q.Conn != "" {
		if at := strings.IndexByte(q.Conn, ','); at >= 0 && w.chance(1, 2) {
			// several lines are the same as a single one
			split = true
			add(w.mixCase("connection"), strings.TrimSpace(q.Conn[:at]))
			add(w.mixCase("connection"), strings.TrimSpace(q.Conn[at+1:]))
		} else {
			add(w.mixCase("connection"), q.Conn)
		}
	}
	for _, h := range o.headers {
		add(h.K, h.V)
	}
	// body
	hasBody := !o.noBody && w.chance(2, 5) || o.json
	if hasBody {
		max := o.maxBody
		if max == 0 {
			max = 300
		}
		n := w.oneOf(w.between(1, 20), 0, w.between(1, max), max)
		q.Body = w.content(n)
		if o.json {
			q.Body = []byte(fmt.Sprintf(`{"a":%d,"b":%q}`, w.draw(100000), w.token(0, 30)))
			if w.chance(1, 8) {
				q.badJSON = true
				q.Body = [][]byte{q.Body[:1+w.draw(len(q.Body)-1)], []byte(`{"a":"1"}`), []byte(`[1,2]`), []byte(`{"b":1}`), []byte("{]")}[w.draw(5)]
			}
			n = len(q.Body)
		}
		if !o.noChunked && w.chance(1, 2) && q.Proto == "HTTP/1.1" {
			q.Chunked = true
			q.TE = []string{"chunked"}
			if w.chance(1, 5) {
				q.TE = []string{"gzip", "chunked"}
			}
			if w.chance(1, 4) {
				for i := range q.TE {
					q.TE[i] = strings.ToUpper(q.TE[i])
				}
			}
			split = w.list(add, "transfer-encoding", q.TE) || split
			if w.chance(1, 12) {
				// the chunked encoding overrides the length
				q.CL, q.anyCL = w.oneOf(0, n, w.draw(1000)), true
				w.r.Probe("chunked-with-length")
			}
			if w.chance(1, 4) {
				q.Trailer = true
				add(w.mixCase("trailer"), "X-Check")
			}
		} else {
			q.CL = n
		}
	} else if w.chance(1, 10) {
		q.CL = 0
	}
	// shuffle a little: framing headers may come anywhere
	if len(lines) > 1 && !split && w.chance(1, 2) {
		i := w.draw(len(lines))
		j := w.draw(len(lines))
		if !strings.EqualFold(lines[i].K, lines[j].K) {
			// the order of values of one name must stay known
			lines[i], lines[j] = lines[j], lines[i]
			q.Cookies = nil
			for _, l := range lines {
				if strings.EqualFold(l.K, "cookie") && !q.cookieErr {
					for _, c := range strings.Split(l.V, ";") {
						c = strings.TrimPrefix(c, " ")
						if c == "" {
							continue
						}
						e := strings.IndexByte(c, '=')
						q.Cookies = append(q.Cookies, KV{c[:e], c[e+1:]})
					}
				}
			}
			for _, l := range lines {
				if strings.EqualFold(l.K, "content-type") {
					q.CType = l.V
				}
			}
		}
	}
	q.Headers = lines
	q.build(w, !o.noLF && w.chance(1, 12))
	return q
}

// tokens are the non-empty elements of a list.
func tokens(list string) (out []string) {
	for _, t := range strings.Split(list, ",") {
		if t = strings.Trim(t, " \t"); t != "" {
			out = append(out, t)
		}
	}
	return out
}

// hasTok tells whether an element is in a list.
func hasTok(list, tok string) bool {
	for _, t := range tokens(list) {
		if strings.EqualFold(t, tok) {
			return true
		}
	}
	return false
}

// list adds a header holding a list of values, maybe over several lines.
func (w *World) list(add func(k, v string), name string, vals []string) (split bool) {
	var v string
	for i, t := range vals {
		if i > 0 && w.chance(1, 4) {
			add(w.mixCase(name), v)
			v, split = "", true
		}
		if v != "" {
			v += w.oneStr(", ", ",", " , ", ",,", ", ,")
		}
		v += t
	}
	add(w.mixCase(name), v)
	return split
}

// content makes body bytes which tell the place they come from.
func (w *World) content(n int) []byte {
	b := make([]byte, n)
	kind := w.draw(3)
	base := w.draw(26)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte('a' + (base+i)%26)
		case 1:
			b[i] = byte(base*7 + i*13 + i>>8)
		default:
			// looks like protocol
			const s = "\r\n\r\nGET /smuggled HTTP/1.1\r\nHost: evil\r\n\r\n0\r\n\r\n5\r\n"
			b[i] = s[(base+i)%len(s)]
		}
	}
	return b
}

// build renders the request.
func (q *Req) build(w *World, bareLF bool) {
	nl := "\r\n"
	if bareLF {
		nl = "\n"
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s %s%s", q.Method, q.Target, q.Proto, nl)
	at := -1
	if q.CL >= 0 {
		at = w.draw(len(q.Headers) + 1)
	}
	for i := 0; i <= len(q.Headers); i++ {
		if i == at {
			sep, end, zeros := ": ", "", ""
			if w.chance(1, 10) {
				sep, end = w.oneStr(":", ": ", ":   ", ":\t"), w.oneStr("", " ", "\t", " \t ")
			}
			if w.chance(1, 20) {
				zeros = w.oneStr("0", "00", "000000000000000000000000000000")
			}
			fmt.Fprintf(&b, "%s%s%s%d%s%s", w.mixCase("content-length"), sep, zeros, q.CL, end, nl)
		}
		if i < len(q.Headers) {
			sep, end := ": ", ""
			if w.chance(1, 10) {
				// spaces around a value aren't part of it
				sep, end = w.oneStr(":", ": ", ":   ", ":\t", ": \t "), w.oneStr("", " ", "   ", "\t", " \t ")
			}
			fmt.Fprintf(&b, "%s%s%s%s%s", q.Headers[i].K, sep, q.Headers[i].V, end, nl)
		}
	}
	b.WriteString(nl)
	q.Head = b.Bytes()
	q.Wire = q.Body
	if q.Chunked {
		q.Wire = w.chunk(q.Body, q.Trailer)
	}
}

// chunk applies the chunked coding.
func (w *World) chunk(body []byte, trailer bool) []byte {
	var b bytes.Buffer
	for len(body) > 0 {
		n := w.between(1, len(body))
		if w.chance(1, 2) && n > 10 {
			n = w.between(1, 10)
		}
		f := "%x"
		if w.draw(2) == 1 {
			f = "%X"
		}
		fmt.Fprintf(&b, f, n)
		if w.chance(1, 12) {
			b.WriteString(";ext=1")
		}
		b.WriteString("\r\n")
		b.Write(body[:n])
		b.WriteString("\r\n")
		body = body[n:]
	}
	b.WriteString("0\r\n")
	if trailer && w.chance(2, 3) {
		b.WriteString("X-Check: abc\r\n")
	}
	b.WriteString("\r\n")
	return b.Bytes()
}
