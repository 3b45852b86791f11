package verifsim

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	nethttp "net/http"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"golang.org/x/crypto/acme"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/router/simple"
	sim "verif.local/sim"
	"verif.local/sim/simtls"
)

func init() {
	scenarios["C26"] = scenC26
	nethttp.DefaultTransport = theNet{} // nobody reaches the real network
}

// theNet is what the certificate authority is reached by.
type theNet struct{}

var theCA *authority

func (theNet) RoundTrip(q *nethttp.Request) (*nethttp.Response, error) {
	if theCA == nil {
		return nil, errors.New("no network")
	}
	return theCA.serve(q)
}

// authority is a certificate authority which speaks ACME (RFC 8555) and validates by
// tls-alpn-01 (RFC 8737).
type authority struct {
	w      *World
	roots  *x509.CertPool
	root   *x509.Certificate
	nonce  int
	accts  map[string]crypto.PublicKey // by thumbprint
	orders []*acmeOrder

	down     bool // cannot be reached
	troubles int  // requests answered with a problem
	slow     int
	refuse   bool                             // validations fail
	allowed  func(name string) bool           // whom an order may be made for
	dial     func(name string) (string, bool) // where the name leads to
	faulty   func(kind string)
	wrong    bool // some answer has gone wrong
}

type acmeOrder struct {
	id    int
	name  string
	key   string // thumbprint of the account
	token string
	state string // of the authorization
	cert  []byte
	rsa   bool
	by    *sim.Task
}

const caURL = "https://acme-v02.api.letsencrypt.org"

var theRoot *x509.Certificate // the clock starts at the same moment in each run

func makeRoot() *x509.Certificate {
	key := simtls.Keys[0]
	t := &x509.Certificate{
		SerialNumber: big.NewInt(77), Subject: pkix.Name{CommonName: "Simulated CA"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(10 * 365 * 24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign,
	}
	der, err := x509.CreateCertificate(nil, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	root, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return root
}

func newAuthority(w *World) *authority {
	if theRoot == nil {
		theRoot = makeRoot()
	}
	root := theRoot
	ca := &authority{w: w, root: root, roots: x509.NewCertPool(), accts: map[string]crypto.PublicKey{}}
	ca.roots.AddCert(root)
	return ca
}

func b64(s string) []byte {
	b, _ := base64.RawURLEncoding.DecodeString(s)
	return b
}

func (ca *authority) answer(q *nethttp.Request, code int, location string, v interface{}) *nethttp.Response {
	ca.nonce++
	h := nethttp.Header{}
	h.Set("Replay-Nonce", fmt.Sprintf("nonce-%d", ca.nonce))
	if location != "" {
		h.Set("Location", location)
	}
	var b []byte
	switch x := v.(type) {
	case nil:
	case []byte:
		b = x
		h.Set("Content-Type", "application/pem-certificate-chain")
	default:
		b, _ = json.Marshal(v)
		h.Set("Content-Type", "application/json")
	}
	return &nethttp.Response{
		StatusCode: code, Status: fmt.Sprintf("%d x", code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: q,
	}
}

type dict map[string]interface{}

func (ca *authority) problem(q *nethttp.Request, code int, kind string) *nethttp.Response {
	return ca.answer(q, code, "", dict{"type": "urn:ietf:params:acme:error:" + kind, "detail": "simulated", "status": code})
}

// serve answers a request of the client.
func (ca *authority) serve(q *nethttp.Request) (*nethttp.Response, error) {
	w := ca.w
	w.r.Event("CA: %s %s", q.Method, q.URL.Path)
	if ca.slow > 0 {
		w.r.Sleep(time.Duration(w.draw(ca.slow)) * time.Millisecond)
	}
	if ca.down {
		ca.faulty("ca-unreachable")
		return nil, errors.New("dial tcp: connection refused")
	}
	if ca.troubles > 0 && w.chance(1, 3) {
		ca.troubles--
		switch w.draw(5) {
		case 0:
			ca.faulty("ca-500")
			return ca.problem(q, 500, "serverInternal"), nil
		case 1:
			ca.faulty("ca-429")
			return ca.problem(q, 429, "rateLimited"), nil
		case 2:
			if q.Method == "POST" {
				ca.faulty("ca-bad-nonce")
				return ca.problem(q, 400, "badNonce"), nil
			}
		case 3:
			ca.faulty("ca-connection-lost")
			return nil, io.ErrUnexpectedEOF
		case 4:
			ca.faulty("ca-garbage")
			r := ca.answer(q, 200, "", nil)
			r.Body = io.NopCloser(strings.NewReader("<html>"))
			return r, nil
		}
	}
	if q.URL.Scheme+"://"+q.URL.Host != caURL {
		return nil, fmt.Errorf("no such host: %s", q.URL.Host)
	}
	var body struct{ Protected, Payload string }
	if q.Body != nil {
		b, err := io.ReadAll(q.Body)
		if err != nil {
			return nil, err
		}
		_ = json.Unmarshal(b, &body)
	}
	var head struct {
		Kid string
		Jwk *struct{ Kty, Crv, X, Y string }
	}
	_ = json.Unmarshal(b64(body.Protected), &head)
	payload := b64(body.Payload)
	u := func(format string, args ...interface{}) string { return caURL + fmt.Sprintf(format, args...) }
	var id int
	p := q.URL.Path
	switch {
	case p == "/directory":
		return ca.answer(q, 200, "", dict{"newNonce": u("/nonce"), "newAccount": u("/account"), "newOrder": u("/order"), "revokeCert": u("/revoke"),
			"meta": dict{"termsOfService": u("/terms")}}), nil
	case p == "/nonce":
		return ca.answer(q, 200, "", nil), nil
	case p == "/account":
		if head.Jwk == nil {
			return ca.problem(q, 400, "malformed"), nil
		}
		pub := &ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(b64(head.Jwk.X)), Y: new(big.Int).SetBytes(b64(head.Jwk.Y))}
		th, err := acme.JWKThumbprint(pub)
		if err != nil {
			return ca.problem(q, 400, "badPublicKey"), nil
		}
		if ca.accts[th] != nil {
			return ca.answer(q, 200, u("/acct/%s", th), dict{"status": "valid"}), nil
		}
		var acct struct{ TermsOfServiceAgreed, OnlyReturnExisting bool }
		_ = json.Unmarshal(payload, &acct)
		if acct.OnlyReturnExisting {
			return ca.problem(q, 400, "accountDoesNotExist"), nil
		}
		if !acct.TermsOfServiceAgreed {
			w.violate("acme", "the terms of the service are not agreed with: no certificate can be got")
			return ca.problem(q, 403, "userActionRequired"), nil
		}
		ca.accts[th] = pub
		w.r.Probe("acme-account")
		return ca.answer(q, 201, u("/acct/%s", th), dict{"status": "valid"}), nil
	case p == "/order":
		th := path.Base(head.Kid)
		if ca.accts[th] == nil {
			return ca.problem(q, 401, "unauthorized"), nil
		}
		var order struct {
			Identifiers []struct{ Type, Value string }
		}
		_ = json.Unmarshal(payload, &order)
		if len(order.Identifiers) != 1 {
			w.violate("acme", "an order for %v", order.Identifiers)
			return ca.problem(q, 400, "malformed"), nil
		}
		name := order.Identifiers[0].Value
		if !ca.allowed(name) {
			w.violate("acme", "a certificate for %q is asked for, which is not among the domains", name)
		}
		o := &acmeOrder{id: len(ca.orders), name: name, key: th, state: "pending", by: sim.Self()}
		o.token = fmt.Sprintf("token-%d", o.id)
		ca.orders = append(ca.orders, o)
		w.r.Event("CA: order %d for %s", o.id, name)
		return ca.answer(q, 201, u("/order/%d", o.id), ca.view(o)), nil
	case scan(p, "/order/%d", &id), scan(p, "/authz/%d", &id), scan(p, "/chall/%d", &id), scan(p, "/final/%d", &id), scan(p, "/cert/%d", &id):
		if id < 0 || id >= len(ca.orders) || path.Base(head.Kid) != ca.orders[id].key {
			return ca.problem(q, 404, "malformed"), nil
		}
	default:
		return ca.problem(q, 404, "malformed"), nil
	}
	o := ca.orders[id]
	switch {
	case strings.HasPrefix(p, "/order/"):
		return ca.answer(q, 200, u("/order/%d", o.id), ca.view(o)), nil
	case strings.HasPrefix(p, "/authz/"):
		if bytes.Contains(payload, []byte("deactivated")) {
			o.state = "deactivated"
		}
		ch := func(kind string) dict {
			return dict{"type": kind, "url": u("/chall/%d", o.id), "token": o.token, "status": o.state}
		}
		return ca.answer(q, 200, "", dict{"identifier": dict{"type": "dns", "value": o.name}, "status": o.state,
			"challenges": []dict{{"type": "http-01", "url": u("/none"), "token": "x", "status": o.state}, ch("tls-alpn-01"), {"type": "dns-01", "url": u("/none"), "token": "x", "status": o.state}}}), nil
	case strings.HasPrefix(p, "/chall/"):
		if o.state == "pending" {
			o.state = "processing"
			w.r.Spawn("validation", func() {
				if ca.slow > 0 {
					w.r.Sleep(time.Duration(w.draw(ca.slow)) * time.Millisecond)
				}
				err := ca.validate(o)
				w.r.Event("CA: validation of %s: %v", o.name, err)
				o.state = "valid"
				if err != nil {
					o.state = "invalid"
				}
			})
		}
		return ca.answer(q, 200, "", dict{"type": "tls-alpn-01", "url": u("/chall/%d", o.id), "token": o.token, "status": "processing"}), nil
	case strings.HasPrefix(p, "/final/"):
		if o.state != "valid" {
			return ca.problem(q, 403, "orderNotReady"), nil
		}
		var fin struct{ CSR string }
		_ = json.Unmarshal(payload, &fin)
		csr, err := x509.ParseCertificateRequest(b64(fin.CSR))
		if err != nil || len(csr.DNSNames) != 1 || csr.DNSNames[0] != o.name {
			return ca.problem(q, 400, "badCSR"), nil
		}
		t := &x509.Certificate{
			SerialNumber: big.NewInt(int64(1000 + o.id)), Subject: pkix.Name{CommonName: o.name}, DNSNames: csr.DNSNames,
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(90 * 24 * time.Hour), BasicConstraintsValid: true,
			KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		}
		der, err := x509.CreateCertificate(nil, t, ca.root, csr.PublicKey, simtls.Keys[0])
		if err != nil {
			return ca.problem(q, 500, "serverInternal"), nil
		}
		_, ec := csr.PublicKey.(*ecdsa.PublicKey)
		o.rsa = !ec
		o.cert = der
		w.r.Event("CA: certificate %d for %s", o.id, o.name)
		w.r.Probe("acme-certificate")
		return ca.answer(q, 200, u("/order/%d", o.id), ca.view(o)), nil
	default:
		if o.cert == nil {
			return ca.problem(q, 404, "malformed"), nil
		}
		var b bytes.Buffer
		_ = pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: o.cert})
		_ = pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: ca.root.Raw})
		return ca.answer(q, 200, "", b.Bytes()), nil
	}
}

func scan(s, format string, v *int) bool {
	n, err := fmt.Sscanf(s, format, v)
	return n == 1 && err == nil
}

func (ca *authority) view(o *acmeOrder) dict {
	d := dict{"identifiers": []dict{{"type": "dns", "value": o.name}}, "authorizations": []string{fmt.Sprintf("%s/authz/%d", caURL, o.id)},
		"finalize": fmt.Sprintf("%s/final/%d", caURL, o.id)}
	switch {
	case o.cert != nil:
		d["status"], d["certificate"] = "valid", fmt.Sprintf("%s/cert/%d", caURL, o.id)
	case o.state == "valid":
		d["status"] = "ready"
	case o.state == "pending", o.state == "processing":
		d["status"] = "pending"
	default:
		d["status"] = "invalid"
	}
	return d
}

// validate connects to the server as RFC 8737 demands.
func (ca *authority) validate(o *acmeOrder) error {
	if ca.refuse {
		ca.faulty("ca-refuses")
		return errors.New("cannot connect")
	}
	addr, ok := ca.dial(o.name)
	if !ok {
		return errors.New("no address")
	}
	cert, proto, err := handshake(addr, &tls.ClientHelloInfo{ServerName: o.name, SupportedProtos: []string{acme.ALPNProto}, CipherSuites: modernSuites})
	if err != nil {
		return err
	}
	if proto != acme.ALPNProto {
		return errors.New("acme-tls/1 is not negotiated")
	}
	leaf, err := x509.ParseCertificate(cert.Certificate[0])
	if err != nil {
		return err
	}
	if len(leaf.DNSNames) != 1 || leaf.DNSNames[0] != o.name {
		return fmt.Errorf("names %v", leaf.DNSNames)
	}
	sum := sha256.Sum256([]byte(o.token + "." + o.key))
	want, _ := asn1.Marshal(sum[:])
	for _, e := range leaf.Extensions {
		if e.Id.Equal(asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 31}) {
			if e.Critical && bytes.Equal(e.Value, want) {
				return nil
			}
			return errors.New("another key authorization")
		}
	}
	return errors.New("no key authorization")
}

var modernSuites = []uint16{tls.TLS_AES_128_GCM_SHA256, tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}
var rsaSuites = []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}

// handshake is the part of the TLS handshake which the configuration of the server decides.
func handshake(addr string, hello *tls.ClientHelloInfo) (cert *tls.Certificate, proto string, err error) {
	cfg := simtls.Listeners[addr]
	if cfg == nil {
		return nil, "", errors.New("does not use TLS")
	}
	if cfg.GetConfigForClient != nil {
		c, err := cfg.GetConfigForClient(hello)
		if err != nil {
			return nil, "", err
		}
		if c != nil {
			cfg = c
		}
	}
	if len(hello.SupportedProtos) > 0 && len(cfg.NextProtos) > 0 {
		fallback := false
		for _, s := range cfg.NextProtos {
			for _, c := range hello.SupportedProtos {
				if s == c && proto == "" {
					proto = s
				}
				if s == "h2" && c == "http/1.1" {
					fallback = true
				}
			}
		}
		if proto == "" && !fallback {
			return nil, "", errors.New("tls: client requested unsupported application protocols")
		}
	}
	switch {
	case cfg.GetCertificate != nil && (len(cfg.Certificates) == 0 || hello.ServerName != ""):
		// autocert has a race of its own between clients asking for the same name at once
		t := sim.Self()
		t.Whole = true
		cert, err = cfg.GetCertificate(hello)
		t.Whole = false
	case len(cfg.Certificates) > 0:
		cert = &cfg.Certificates[0]
	}
	if err == nil && (cert == nil || len(cert.Certificate) == 0) {
		err = errors.New("tls: no certificates configured")
	}
	return cert, proto, err
}

// autoSite is a listener with automatic HTTPS for public names.
type autoSite struct {
	spec    string
	domains []string
}

func (a *autoSite) lists(name string) bool {
	for _, d := range a.domains {
		if strings.EqualFold(d, name) {
			return true
		}
	}
	return len(a.domains) == 0
}

// C26: automatic HTTPS for public names.
func scenC26(w *World) {
	fs := w.r.FS
	fs.Mkdir("/home")
	fs.Env["HOME"] = "/home/u"
	dir := "/home/u/.cache/golang-autocert"
	if w.chance(1, 4) {
		fs.Env["XDG_CACHE_HOME"] = "/var/cache/u"
		dir = "/var/cache/u/golang-autocert"
	}
	ca := newAuthority(w)
	theCA = ca
	defer func() { theCA = nil }()
	noCache := false
	if w.chance(1, 6) {
		fs.Put(w.oneStr(dir, path.Dir(dir)), []byte("in the way"))
		noCache = true
		w.r.Fault("cache-directory-unusable")
	}
	names := []string{"example.com", "www.example.com", "shop.example.org", "xn--e1afmkfd.org"}
	others := []string{"evil.org", "example.com.evil.org", "ample.com", "sub.www.example.com", "example.co"}
	// validations of one name at the same time get in each other's way in autocert, so all the
	// clients use one kind of keys, and each name belongs to one listener
	rsa := w.chance(1, 4)
	var sites []*autoSite
	pool := names
	n := 1 + w.pick(3, 1)
	if noCache {
		n = 1 // listeners know of each other's validations through the cache only
	}
	for i := 0; i < n; i++ {
		if n == 2 {
			pool = names[2*i : 2*i+2]
		}
		s := &autoSite{spec: []string{"example.com:443", "www.example.com:8443"}[i]}
		if n == 2 || !w.chance(1, 5) {
			for k, m := 0, w.between(1, 3); k < m; k++ {
				d := pool[w.draw(len(pool))]
				if w.chance(1, 5) {
					d = strings.ToUpper(d[:1]) + d[1:]
				}
				s.domains = append(s.domains, d)
			}
		}
		sites = append(sites, s)
	}
	ca.allowed = func(name string) bool {
		for _, s := range sites {
			if s.lists(name) {
				return true
			}
		}
		return false
	}
	// all the names lead to a listener which lists them
	ca.dial = func(name string) (string, bool) {
		var at []string
		for _, s := range sites {
			if s.lists(name) {
				at = append(at, s.spec)
			}
		}
		if len(at) == 0 {
			return "", false
		}
		return at[w.draw(len(at))], true
	}
	known := map[string]string{} // certificates by name and kind of key, got in any life
	diskFault := false
	lives := w.between(1, 3)
	for life := 0; life < lives && !w.r.Failed(); life++ {
		simtls.Listeners = map[string]*tls.Config{}
		var out bytes.Buffer
		log.SetOutput(&out)
		ca.slow = w.oneOf(0, 0, 10, 3000)
		ca.down, ca.refuse, ca.troubles = false, false, 0
		healthy := true
		ca.faulty = func(kind string) { healthy = false; w.r.Fault(kind) }
		diskNow := false
		if !noCache && len(sites) == 1 && w.chance(1, 4) {
			from, to, ops := w.draw(40), 0, 0
			to = from + w.oneOf(1, 2, 5, 100)
			err := []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[w.draw(3)]
			fs.On = func(op, name string) error {
				ops++
				if ops > from && ops <= to {
					diskNow, diskFault, healthy = true, true, false
					w.r.Fault("disk-" + op)
					return err
				}
				return nil
			}
		}
		switch w.pick(5, 1, 2, 1) {
		case 1:
			ca.down = true
		case 2:
			ca.troubles = w.between(1, 6)
		case 3:
			ca.refuse = true
		}
		for _, s := range sites {
			w.r.Event("%s for %q", s.spec, s.domains)
		}
		w.app = indigo.New(":8080").Tune(config.Default())
		for _, s := range sites {
			w.app.AutoHTTPS(s.spec, s.domains...)
		}
		w.started, w.returned, w.stopAsked = false, false, false
		w.startCnt, w.stopCnt = 0, 0
		served := 0
		w.serve(simple.New(func(r *http.Request) *http.Response {
			served++
			want := encryption.TLS
			if r.Path == "/plain" {
				want = encryption.Plain
			}
			if r.Env.Encryption != want {
				w.violate("encryption", "%s reports encryption %d", r.Path, r.Env.Encryption)
			}
			return http.String(r, "ok")
		}, http.Respond))
		if w.r.Failed() {
			return
		}
		if noCache && out.Len() == 0 {
			w.violate("acme", "the certificates are not kept, and it is not reported")
		}
		mine := map[string]bool{}
		got := func(s *autoSite, name string, mustWork bool) {
			hello := &tls.ClientHelloInfo{ServerName: name, CipherSuites: modernSuites, SupportedProtos: [][]string{nil, {"h2", "http/1.1"}, {"http/1.1"}}[w.draw(3)]}
			if rsa {
				hello.CipherSuites = rsaSuites
			}
			if w.chance(1, 4) {
				hello.ServerName = strings.ToUpper(name)
			}
			id := fmt.Sprintf("%s rsa=%v", name, rsa)
			before := len(ca.orders)
			had := known[id]
			hadMine := mine[s.spec+id]
			w.r.Event("%s is asked for %s", s.spec, hello.ServerName)
			cert, proto, err := handshake(s.spec, hello)
			w.r.Event("handshake with %s as %s (rsa %v): %s, %v", s.spec, hello.ServerName, rsa, proto, err)
			if proto != "" && proto != "http/1.1" {
				w.violate("acme", "%s negotiates %q, which is not served", s.spec, proto)
			}
			listed := s.lists(name)
			for _, o := range ca.orders[before:] {
				if o.by == sim.Self() && !s.lists(o.name) {
					w.violate("acme", "%s orders a certificate for %q, which is not among %q", s.spec, o.name, s.domains)
				}
			}
			if err != nil {
				if !listed {
					w.r.Probe("acme-refused")
					return
				}
				switch {
				case hadMine:
					w.violate("acme", "%s: no certificate for %s although it was there before: %v", s.spec, id, err)
				case had != "" && !noCache && !diskFault:
					w.violate("acme", "%s: no certificate for %s although it has been stored: %v", s.spec, id, err)
				case mustWork || healthy:
					w.violate("acme", "%s: no certificate for %s although nothing fails: %v", s.spec, id, err)
				}
				w.r.Probe("acme-failed")
				return
			}
			if d := usable(cert); d != "" {
				w.violate("acme", "%s: unusable certificate for %s: %s", s.spec, id, d)
				return
			}
			leaf, _ := x509.ParseCertificate(cert.Certificate[0])
			if _, err = leaf.Verify(x509.VerifyOptions{Roots: ca.roots, DNSName: name, CurrentTime: time.Now()}); err != nil {
				w.violate("acme", "%s: the certificate for %s is not trusted: %v", s.spec, id, err)
				return
			}
			if had != "" && !noCache && !diskFault && before == len(ca.orders) && known[id] == had && leaf.SerialNumber.String() != had && len(sites) == 1 {
				w.violate("acme", "%s: another certificate for %s than before", s.spec, id)
			}
			known[id] = leaf.SerialNumber.String()
			mine[s.spec+id] = true
			w.r.Probe("acme-handshake")
			if !listed {
				w.r.Probe("acme-from-cache") // the list restricts what is ordered
			}
		}
		first := len(ca.orders)
		stored := map[string]bool{}
		if !noCache && !diskFault {
			for id := range known {
				stored[strings.Fields(id)[0]] = true
			}
		}
		n := w.between(1, 4)
		left := n
		for i := 0; i < n; i++ {
			s := sites[w.draw(len(sites))]
			var todo []string
			for k, m := 0, w.between(1, 3); k < m; k++ {
				name := names[w.draw(len(names))]
				switch {
				case len(s.domains) > 0 && w.chance(1, 2):
					name = strings.ToLower(s.domains[w.draw(len(s.domains))])
				case w.chance(1, 3):
					name = others[w.draw(len(others))]
				}
				todo = append(todo, name)
			}
			gap := time.Duration(w.oneOf(0, w.draw(3000), w.draw(200000))) * time.Millisecond
			w.r.Spawn("browser", func() {
				for _, name := range todo {
					w.r.Sleep(gap)
					got(s, name, false)
				}
				left--
			})
		}
		w.r.Park("browsers", func() bool { return left == 0 }, nil)
		if w.r.Failed() {
			return
		}
		// once the trouble is over, certificates are got
		if !healthy || ca.down || ca.refuse {
			ca.down, ca.refuse, ca.troubles = false, false, 0
			fs.On = nil
			w.r.Sleep(6 * time.Minute)
			for _, s := range sites {
				name := names[0]
				if len(s.domains) > 0 {
					name = strings.ToLower(s.domains[w.draw(len(s.domains))])
				}
				got(s, name, true)
			}
			w.r.Probe("acme-recovered")
		}
		fs.On = nil
		_ = diskNow
		for _, o := range ca.orders[first:] {
			if stored[o.name] {
				w.violate("acme", "life %d: a certificate for %s is ordered again although it has been stored", life, o.name)
			}
		}
		for _, a := range append([]string{"0.0.0.0:8080"}, specsOf(sites)...) {
			w.oneRequest(a)
		}
		w.r.Sleep(10 * time.Second) // clean-ups
		w.stop()
	}
	log.SetOutput(io.Discard)
}

func specsOf(sites []*autoSite) (out []string) {
	for _, s := range sites {
		out = append(out, s.spec)
	}
	sort.Strings(out)
	return out
}

// oneRequest makes a request to an address.
func (w *World) oneRequest(addr string) {
	p, err := w.r.Net.Dial(addr, sim.DefaultProfile())
	if err != nil {
		w.violate("acme", "cannot connect to %s: %v", addr, err)
		return
	}
	name := "/tls"
	if addr == "0.0.0.0:8080" {
		name = "/plain"
	}
	p.Send([]byte("GET "+name+" HTTP/1.1\r\nConnection: close\r\n\r\n"), 0)
	for p.Recv(100e9, 0) {
	}
	if !bytes.HasPrefix(p.Got, []byte("HTTP/1.1 200 ")) || !bytes.HasSuffix(p.Got, []byte("ok")) {
		w.violate("acme", "%s answers %s", addr, hexs(p.Got))
	}
}
