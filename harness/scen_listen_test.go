package verifsim

import (
	"bytes"
	"crypto/tls"
	"encoding/pem"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/router"
	sim "verif.local/sim"
	"verif.local/sim/simtls"
)

func init() {
	scenarios["C13"] = scenC13
}

// endpoint is a listener the application has been given.
type endpoint struct {
	spec, addr string
	kind       int
	cert       []byte // DER of the certificate it has to use
	listens    int    // calls of its own Listen
	handled    int    // calls of its own Handler
	selfSigned bool
	auto       bool
	broken     bool // its certificate cannot be loaded
}

const (
	epPlain = iota
	epHTTPS
	epLocal   // automatic HTTPS with a certificate of its own
	epAuto    // automatic HTTPS
	epListen  // Listen of its own
	epHandler // Handler of its own
	epBoth
)

func derOf(p []byte) []byte {
	b, _ := pem.Decode(p)
	if b == nil {
		return nil
	}
	return b.Bytes
}

// certOf returns the certificate a TLS listener uses.
func certOf(addr string) (*tls.Certificate, error) {
	cfg := simtls.Listeners[addr]
	if cfg == nil {
		return nil, errors.New("does not use TLS")
	}
	if len(cfg.Certificates) > 0 {
		return &cfg.Certificates[0], nil
	}
	if cfg.GetCertificate != nil {
		return cfg.GetCertificate(&tls.ClientHelloInfo{ServerName: "localhost"})
	}
	return nil, errors.New("has no certificate")
}

// C13: listeners.
func scenC13(w *World) {
	simtls.Listeners = map[string]*tls.Config{}
	simtls.Reset()
	w.tune()
	w.cfg.TCP.ReadTimeout = time.Duration(w.between(30, 90)) * time.Second
	w.r.FS.Env["HOME"] = "/home/u"
	w.r.FS.Mkdir("/home/u")
	specs := []string{":8080", "127.0.0.1:9000", "localhost:7000", "[::1]:9001", "example.com:80", ":443", "10.0.0.7:8443", "[::]:444", "localhost:443", ":0080"}
	n := w.between(1, 5)
	if w.chance(1, 12) {
		n = w.between(6, 20)
		for i := 0; i < n; i++ {
			specs = append(specs, fmt.Sprintf("10.0.0.%d:%d", i+10, 1000+i))
		}
	}
	var eps []*endpoint
	tuned := w.chance(1, 2)
	tuneAt := w.draw(n + 1)
	for i := 0; i < n; i++ {
		spec := specs[w.draw(len(specs))]
		if k := w.draw(len(specs)); !w.chance(1, 25) {
			spec = specs[k]
			specs = append(append([]string(nil), specs[:k]...), specs[k+1:]...)
		}
		if i == 0 && w.chance(1, 2) {
			spec = ":8080"
		}
		e := &endpoint{spec: spec, addr: spec}
		if strings.HasPrefix(spec, ":") {
			e.addr = "0.0.0.0" + spec
		}
		eps = append(eps, e)
		if i == 0 {
			w.app = indigo.New(spec)
			w.enc[e.addr] = encryption.Plain
			if !tuned || tuneAt == 0 {
				w.app.Tune(w.cfg)
			}
			continue
		}
		w.addEndpoint(i, e)
		if tuned && tuneAt == i {
			w.app.Tune(w.cfg)
		}
	}
	if tuned && tuneAt == n {
		w.app.Tune(w.cfg)
	}
	// which binding fails, if any
	faults := 0
	if w.chance(1, 4) {
		at := eps[w.draw(n)].addr
		err := error(&net.OpError{Op: "listen", Net: "tcp", Err: fmt.Errorf("%s is not available", at)})
		w.r.Net.BindFault = func(a string) error {
			if a == at {
				w.r.Fault("bind-failure")
				faults++
				return err
			}
			return nil
		}
	}
	bad := w.firstBad(eps)
	if bad < 0 {
		for i, k := 0, w.between(1, 4); i < k; i++ {
			e := eps[w.draw(n)]
			s := w.script(e.addr)
			w.network(s)
			w.conversation(s, w.between(1, 4), genOpts{maxBody: 30}, planOpts{simple: w.chance(1, 2), maxBody: 40})
			if w.chance(1, 6) {
				s.add(w.genBad(), nil)
			}
			if e.kind == epAuto || e.kind == epHTTPS || e.kind == epLocal {
				w.r.Probe("tls-conversation")
			}
		}
	}
	w.expectReturn = true
	w.hook()
	w.app.OnBind(func(a string) {
		w.r.Event("OnBind %s", a)
		w.binds = append(w.binds, a)
		if w.started {
			w.violate("lifecycle", "bind callback for %s after the start callback", a)
		}
		if l := w.r.Net.Lookup(a); l == nil || l.Closed {
			w.violate("bind", "%s is announced, but is not bound", a)
		}
	})
	w.r.Net.OnClose = func(l *sim.Listener) {
		if bad < 0 && !w.stopAsked {
			w.violate("bind", "listener %s is closed although nobody asked to stop", l.AddrS)
		}
	}
	early := bad < 0 && w.chance(1, 2)
	left := 0
	if early {
		// clients come as soon as the addresses are bound
		for _, s := range w.all {
			s := s
			left++
			w.r.Spawn("client", func() {
				w.r.Park("bound", func() bool { return w.r.Net.Lookup(s.addr) != nil }, nil)
				s.run()
				left--
			})
		}
	}
	w.serveRaw(w.simple())
	if bad >= 0 {
		w.failedBind(eps, bad)
		return
	}
	if w.returned {
		w.violate("bind", "Serve returned %v although everything can be bound", w.serveErr)
		return
	}
	w.boundAll(eps)
	if early {
		w.r.Park("clients", func() bool { return left == 0 }, nil)
	} else {
		w.runAll()
	}
	for i, e := range eps {
		if e.kind == epListen || e.kind == epBoth {
			if e.listens != 1 {
				w.violate("bind", "listener %d (%s): its own Listen is called %d times", i, e.addr, e.listens)
			}
		}
		if e.kind == epHandler || e.kind == epBoth {
			if l := w.r.Net.Lookup(e.addr); l != nil && l.Accepted != e.handled {
				w.violate("handler", "listener %d (%s): %d connections are accepted, its own handler has got %d", i, e.addr, l.Accepted, e.handled)
			}
		}
	}
	w.stop()
}

// addEndpoint gives the application one more listener.
func (w *World) addEndpoint(i int, e *endpoint) {
	e.kind = w.pick(4, 3, 2, 1, 2, 2, 3)
	host := e.addr[:strings.LastIndexByte(e.addr, ':')]
	if name := host == "example.com"; name != (e.kind == epAuto) && (e.kind == epAuto || e.kind == epLocal) {
		e.kind = epPlain
	}
	w.enc[e.addr] = encryption.Plain
	token := encryption.Token(w.oneOf(int(encryption.Extend)+i, int(encryption.Extend)+2*i, int(encryption.TLS), int(encryption.Plain)))
	listen := func(network, addr string) (net.Listener, error) {
		e.listens++
		if network != "tcp" || addr != e.addr {
			w.violate("bind", "Listen is called with %q, %q, want \"tcp\", %q", network, addr, e.addr)
		}
		return sim.NetListen(network, addr)
	}
	handler := func(conn net.Conn, r router.Router) {
		e.handled++
		if a := conn.LocalAddr().String(); a != e.addr {
			w.violate("handler", "the handler of %s is given a connection to %s", e.addr, a)
		}
		serve.HTTP1(w.cfg, conn, token, r)
	}
	switch e.kind {
	case epPlain:
		if w.chance(1, 2) {
			w.app.Listen(e.spec)
		} else {
			w.app.Listen(e.spec, indigo.Listener{})
		}
	case epHTTPS:
		k := w.draw(len(certPairs))
		crt, key := fmt.Sprintf("/etc/tls/%d.crt", i), fmt.Sprintf("/etc/tls/%d.key", i)
		w.r.FS.Put(crt, []byte(certPairs[k][0]))
		w.r.FS.Put(key, []byte(certPairs[k][1]))
		e.cert = derOf([]byte(certPairs[k][0]))
		w.enc[e.addr] = encryption.TLS
		switch w.pick(8, 1, 1) {
		case 1:
			crt, e.broken = "/etc/tls/missing.crt", true
		case 2:
			w.r.FS.Put(key, []byte(certPairs[(k+1)%len(certPairs)][1]))
			e.broken = true
		}
		w.app.HTTPS(e.spec, crt, key)
	case epLocal:
		e.selfSigned = true
		w.enc[e.addr] = encryption.TLS
		w.app.AutoHTTPS(e.spec)
	case epAuto:
		e.auto = true
		w.enc[e.addr] = encryption.TLS
		w.app.AutoHTTPS(e.spec, "example.com")
	case epListen:
		w.app.Listen(e.spec, indigo.Listener{Listen: listen})
	case epHandler:
		w.enc[e.addr] = token
		w.app.Listen(e.spec, indigo.Listener{Handler: handler})
	case epBoth:
		w.enc[e.addr] = token
		w.app.Listen(e.spec, indigo.Listener{Listen: listen, Handler: handler})
	}
}

// firstBad tells which listener cannot be bound.
func (w *World) firstBad(eps []*endpoint) int {
	seen := map[string]bool{}
	for i, e := range eps {
		if e.broken || seen[e.addr] || w.r.Net.BindFault != nil && w.r.Net.BindFault(e.addr) != nil {
			return i
		}
		seen[e.addr] = true
	}
	return -1
}

func (w *World) failedBind(eps []*endpoint, bad int) {
	w.awaitReturn()
	if w.serveErr == nil {
		w.violate("bind", "Serve returned nil although %s could not be bound", eps[bad].addr)
	}
	if f := w.r.Net.BindFault; f != nil {
		if err := f(eps[bad].addr); err != nil && !eps[bad].broken && err != w.serveErr {
			w.violate("bind", "Serve returned %v, want the error of binding: %v", w.serveErr, err)
		}
	}
	if w.startCnt != 0 || w.stopCnt != 0 {
		w.violate("lifecycle", "start callback %d, stop callback %d times although nothing has been started", w.startCnt, w.stopCnt)
	}
	for _, l := range w.r.Net.All {
		if !l.Closed {
			w.violate("bind", "listener %s stays bound although Serve failed", l.AddrS)
		}
		if l.Accepted > 0 {
			w.violate("bind", "listener %s has accepted connections although Serve failed", l.AddrS)
		}
	}
	w.r.Probe("bind-failed")
}

func (w *World) boundAll(eps []*endpoint) {
	var want []string
	for i, e := range eps {
		want = append(want, e.addr)
		l := w.r.Net.Lookup(e.addr)
		if l == nil || l.Closed && !w.stopAsked {
			w.violate("bind", "listener %d (%s) is not bound at the start", i, e.addr)
			return
		}
		switch {
		case e.cert != nil || e.selfSigned:
			c, err := certOf(e.addr)
			if err != nil {
				w.violate("tls", "listener %d (%s): %v", i, e.addr, err)
				return
			}
			der := e.cert
			if e.selfSigned {
				if n := w.r.FS.Nodes["/home/u/.cache/golang-autocert/localhost.crt"]; n != nil {
					der = derOf(n.Data)
				}
			}
			if len(c.Certificate) == 0 || !bytes.Equal(c.Certificate[0], der) {
				w.violate("tls", "listener %d (%s) uses another certificate than its own", i, e.addr)
			}
		case e.auto:
			if cfg := simtls.Listeners[e.addr]; cfg == nil || cfg.GetCertificate == nil && len(cfg.Certificates) == 0 {
				w.violate("tls", "listener %d (%s) does not use TLS", i, e.addr)
			}
		default:
			if simtls.Listeners[e.addr] != nil {
				w.violate("tls", "listener %d (%s) uses TLS", i, e.addr)
			}
		}
	}
	got := append([]string(nil), w.binds...)
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		w.violate("bind", "the bind callback has got %q by the start, want %q", got, want)
	}
}
