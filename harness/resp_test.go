package verifsim

import (
	"bytes"
	"errors"
	"fmt"
	stdhttp "net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http/cookie"
)

// Resp is a response as the client understands it.
type Resp struct {
	Proto   string
	Code    int
	Text    string
	Headers []KV
	Body    []byte
	HasCL   bool
	CL      int
	Chunked bool
}

func (r *Resp) values(k string) (vs []string) {
	for _, h := range r.Headers {
		if strings.EqualFold(h.K, k) {
			vs = append(vs, h.V)
		}
	}
	return vs
}

var errShort = errors.New("incomplete")

func isTokenByte(c byte) bool {
	return c > ' ' && c < 0x7f && strings.IndexByte("()<>@,;:\\\"/[]?={}", c) < 0
}

// parseResp parses one response strictly. errShort: it is a correct beginning.
func parseResp(b []byte, head bool, until int) (r *Resp, n int, err error) {
	line, rest, ok := cutLine(b)
	if !ok {
		// the beginning must look like a status line nevertheless
		const p = "HTTP/1."
		for i := 0; i < len(b) && i < len(p); i++ {
			if b[i] != p[i] {
				return nil, 0, fmt.Errorf("not a status line: %s", hexs(b))
			}
		}
		return nil, 0, errShort
	}
	r = &Resp{}
	if len(line) < 13 || line[8] != ' ' || line[12] != ' ' {
		return nil, 0, fmt.Errorf("bad status line %q", line)
	}
	r.Proto = line[:8]
	if r.Proto != "HTTP/1.0" && r.Proto != "HTTP/1.1" {
		return nil, 0, fmt.Errorf("bad protocol in status line %q", line)
	}
	if r.Code, err = strconv.Atoi(line[9:12]); err != nil || r.Code < 100 {
		return nil, 0, fmt.Errorf("bad code in status line %q", line)
	}
	r.Text = line[13:]
	for {
		line, rest2, ok := cutLine(rest)
		if !ok {
			return r, 0, errShort
		}
		rest = rest2
		if line == "" {
			break
		}
		c := strings.IndexByte(line, ':')
		if c <= 0 {
			return nil, 0, fmt.Errorf("bad header line %q", line)
		}
		for i := 0; i < c; i++ {
			if !isTokenByte(line[i]) {
				return nil, 0, fmt.Errorf("bad header name %q", line)
			}
		}
		if strings.ContainsAny(line, "\r\n") {
			return nil, 0, fmt.Errorf("bare CR in header %q", line)
		}
		r.Headers = append(r.Headers, KV{line[:c], strings.Trim(line[c+1:], " \t")})
	}
	cl, te := r.values("content-length"), r.values("transfer-encoding")
	if len(cl) > 1 || len(te) > 1 {
		return nil, 0, fmt.Errorf("repeated framing headers %v %v", cl, te)
	}
	if len(cl) > 0 && len(te) > 0 {
		return nil, 0, fmt.Errorf("both Content-Length and Transfer-Encoding: %v %v", cl, te)
	}
	if len(cl) == 1 {
		if r.CL, err = strconv.Atoi(cl[0]); err != nil || r.CL < 0 {
			return nil, 0, fmt.Errorf("bad Content-Length %q", cl[0])
		}
		r.HasCL = true
	}
	if len(te) == 1 {
		if !strings.EqualFold(te[0], "chunked") {
			return nil, 0, fmt.Errorf("unknown framing %q", te[0])
		}
		r.Chunked = true
	}
	if head || r.Code < 200 || r.Code == 204 || r.Code == 304 {
		return r, len(b) - len(rest), nil
	}
	switch {
	case r.Chunked:
		for {
			line, rest2, ok := cutLine(rest)
			if !ok {
				return r, 0, errShort
			}
			size, e := strconv.ParseUint(strings.TrimRight(line, " "), 16, 31)
			if e != nil {
				return nil, 0, fmt.Errorf("bad chunk size %q", line)
			}
			rest = rest2
			if size == 0 {
				line, rest, ok = cutLine(rest)
				if !ok {
					return r, 0, errShort
				}
				if line != "" {
					return nil, 0, fmt.Errorf("bad end of chunked body %q", line)
				}
				return r, len(b) - len(rest), nil
			}
			if len(rest) < int(size)+2 {
				m := len(rest)
				if m > int(size) {
					m = int(size)
				}
				r.Body = append(r.Body, rest[:m]...)
				return r, 0, errShort
			}
			r.Body = append(r.Body, rest[:size]...)
			if rest[size] != '\r' || rest[size+1] != '\n' {
				return nil, 0, fmt.Errorf("bad end of chunk %s", hexs(rest[size:]))
			}
			rest = rest[size+2:]
		}
	case r.HasCL:
		if len(rest) < r.CL {
			r.Body = append(r.Body, rest...)
			return r, 0, errShort
		}
		r.Body = append(r.Body, rest[:r.CL]...)
		return r, len(b) - len(rest) + r.CL, nil
	}
	switch until {
	case 1:
		r.Body = append(r.Body, rest...)
		return r, 0, errShort
	case 2:
		r.Body = append(r.Body, rest...)
		return r, len(b), nil
	}
	return nil, 0, fmt.Errorf("response %d has no framing: %v", r.Code, r.Headers)
}

func cutLine(b []byte) (string, []byte, bool) {
	i := bytes.Index(b, []byte("\r\n"))
	if i < 0 {
		return "", b, false
	}
	return string(b[:i]), b[i+2:], true
}

// Exp is the response a client has to get.
type Exp struct {
	Proto    string
	Codes    []int // one of
	Text     string
	Headers  []KV // without the ones below
	CType    string
	Cookies  []cookie.Cookie
	Body     []byte
	Size     int  // length of the body a HEAD response announces; -1: chunked; -2: any
	AnyHdr   bool // headers are not specified
	AnyBody  bool
	Head     bool
	Defaults map[string]string
	Short    bool // the message must not look complete
	// the end of the connection is the end of the body
	UntilClose bool
	Either     bool // complete or visibly short
	Extra      func(r *Resp) string
	Alt        *Exp // what may come instead
}

// check compares a complete response with the expectation.
func (e *Exp) check(r *Resp) string {
	d := e.check1(r)
	if d != "" && e.Alt != nil && e.Alt.check1(r) == "" {
		return ""
	}
	return d
}

func (e *Exp) check1(r *Resp) string {
	if e.Proto != "" && r.Proto != e.Proto {
		return fmt.Sprintf("protocol is %s, want %s", r.Proto, e.Proto)
	}
	ok := false
	for _, c := range e.Codes {
		ok = ok || c == r.Code
	}
	if !ok {
		return fmt.Sprintf("status is %d, want %v", r.Code, e.Codes)
	}
	if e.Text != "" && r.Text != e.Text {
		return fmt.Sprintf("status text is %q, want %q", r.Text, e.Text)
	}
	std := stdhttp.StatusText(r.Code)
	if std == "" && r.Code != 439 {
		std = "Unknown Status Code"
	}
	if e.Text == "" && std != "" && !strings.EqualFold(std, r.Text) {
		return fmt.Sprintf("status text of %d is %q, want %q", r.Code, r.Text, std)
	}
	if !e.AnyHdr {
		if d := e.headers(r); d != "" {
			return d
		}
	}
	if e.Head {
		if !e.AnyBody {
			switch {
			case e.Size >= 0 && (!r.HasCL || r.CL != e.Size):
				return fmt.Sprintf("HEAD announces %v, want Content-Length %d", r.Headers, e.Size)
			case e.Size == -1 && !r.Chunked:
				return fmt.Sprintf("HEAD announces %v, want chunked", r.Headers)
			}
		}
	} else if !e.AnyBody && !bytes.Equal(r.Body, e.Body) {
		return fmt.Sprintf("body is %s, want %s", hexs(r.Body), hexs(e.Body))
	}
	if e.Extra != nil {
		return e.Extra(r)
	}
	return ""
}

func (e *Exp) headers(r *Resp) string {
	want := map[string][]string{}
	for _, h := range e.Headers {
		k := strings.ToLower(h.K)
		want[k] = append(want[k], h.V)
	}
	for k, v := range e.Defaults {
		k = strings.ToLower(k)
		over := false
		for _, h := range e.Headers {
			over = over || strings.ToLower(h.K) == k
		}
		if !over {
			want[k] = append(want[k], v)
		}
	}
	if e.CType != "" {
		want["content-type"] = []string{e.CType}
	}
	got := map[string][]string{}
	for _, h := range r.Headers {
		k := strings.ToLower(h.K)
		switch k {
		case "content-length", "transfer-encoding", "set-cookie":
			continue
		}
		got[k] = append(got[k], h.V)
	}
	keys := map[string]bool{}
	for k := range want {
		keys[k] = true
	}
	for k := range got {
		keys[k] = true
	}
	var names []string
	for k := range keys {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if k == "content-type" && e.CType == "*" && len(got[k]) == 1 {
			continue
		}
		if len(want[k]) != len(got[k]) {
			return fmt.Sprintf("header %s is %q, want %q", k, got[k], want[k])
		}
		for i := range want[k] {
			if want[k][i] != got[k][i] {
				return fmt.Sprintf("header %s is %q, want %q", k, got[k], want[k])
			}
		}
	}
	sc := r.values("set-cookie")
	if len(sc) != len(e.Cookies) {
		return fmt.Sprintf("cookies are %q, want %v", sc, e.Cookies)
	}
	for i, c := range e.Cookies {
		if d := checkCookie(sc[i], c); d != "" {
			return d
		}
	}
	return ""
}

func checkCookie(got string, c cookie.Cookie) string {
	parts := strings.Split(got, "; ")
	if parts[0] != c.Name+"="+c.Value {
		return fmt.Sprintf("cookie is %q, want %v", got, c)
	}
	want := map[string]string{}
	if c.Path != "" {
		want["path"] = c.Path
	}
	if c.Domain != "" {
		want["domain"] = c.Domain
	}
	if !c.Expires.IsZero() {
		want["expires"] = c.Expires.UTC().Format("Mon, 02 Jan 2006 15:04:05") + " GMT"
	}
	if c.MaxAge > 0 {
		want["maxage"] = strconv.Itoa(c.MaxAge)
	} else if c.MaxAge < 0 {
		want["maxage"] = "0"
	}
	if c.SameSite != "" {
		want["samesite"] = c.SameSite
	}
	if c.Secure {
		want["secure"] = ""
	}
	if c.HttpOnly {
		want["httponly"] = ""
	}
	for _, p := range parts[1:] {
		k, v := p, ""
		if i := strings.IndexByte(p, '='); i >= 0 {
			k, v = p[:i], p[i+1:]
		}
		k = strings.ToLower(strings.Replace(k, "-", "", -1))
		if wv, ok := want[k]; !ok || wv != v {
			return fmt.Sprintf("cookie is %q, want %v: attribute %s", got, c, k)
		}
		delete(want, k)
	}
	if len(want) > 0 {
		return fmt.Sprintf("cookie is %q, want %v: lacks %v", got, c, want)
	}
	return ""
}

var _ = time.Second
