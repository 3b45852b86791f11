package verifsim

import (
	"bytes"
	"crypto"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"log"
	"path"
	"runtime"
	"strings"
	"syscall"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/router/simple"
	sim "verif.local/sim"
	"verif.local/sim/simtls"
)

func init() {
	scenarios["C15"] = scenC15
}

// start is one life of a process which uses automatic HTTPS.
type start struct {
	w        *World
	n        int
	addrs    []string // TLS addresses
	crashAt  int      // operation of the disk at which the process dies; -1: never
	torn     int      // bytes of a write which still succeed then
	faultAt  int      // first operation which fails; -1: none
	faultFor int
	faultErr error
	ops      int
	faulted  bool
	readOnly bool // only failures of writing
	crashed  bool
	returned bool
	started  bool
	err      error
	log      bytes.Buffer
	served   int
	intact   bool
	before   [2][]byte
	broken   bool // the disk cannot work
	rival    bool // another process runs at the same time
}

type certDir struct{ dir, crt, key string }

func (w *World) pairOf(d certDir) (pair [2][]byte, ok bool) {
	for i, name := range []string{d.crt, d.key} {
		n := w.r.FS.Nodes[path.Clean(name)]
		if n == nil || n.Dir {
			return pair, false
		}
		pair[i] = append([]byte(nil), n.Data...)
	}
	_, err := tls.X509KeyPair(pair[0], pair[1])
	return pair, err == nil
}

// C15: the cache of the self-signed certificate.
func scenC15(w *World) {
	fs := w.r.FS
	d := certDir{dir: "/home/u/.cache/golang-autocert"}
	fs.Mkdir("/home")
	switch w.pick(6, 2, 1) {
	case 0:
		fs.Env["HOME"] = "/home/u"
		if w.chance(1, 2) {
			fs.Mkdir("/home/u")
		}
	case 1:
		fs.Env["HOME"] = "/home/u"
		fs.Env["XDG_CACHE_HOME"] = "/var/cache/u"
		d.dir = "/var/cache/u/golang-autocert"
	default:
		d.dir = "/.cache/golang-autocert"
	}
	d.crt, d.key = d.dir+"/localhost.crt", d.dir+"/localhost.key"
	broken := false
	// what earlier times have left
	pairs := func(i, j int) {
		fs.Put(d.crt, []byte(certPairs[i][0]))
		fs.Put(d.key, []byte(certPairs[j][1]))
	}
	switch w.pick(6, 2, 1, 1, 1, 1, 1) {
	case 1:
		pairs(0, 0)
	case 2:
		pairs(0, 1)
	case 3:
		pairs(0, 0)
		fs.Put(w.oneStr(d.crt, d.key), w.content(w.draw(40)))
	case 4:
		pairs(0, 0)
		delete(fs.Nodes, w.oneStr(d.crt, d.key))
	case 5:
		// something else is in the way
		fs.Put(w.oneStr(d.dir, path.Dir(d.dir)), []byte("a file"))
		broken = true
	case 6:
		fs.Mkdir(w.oneStr(d.crt, d.key))
		broken = true
	}
	n := w.between(1, 5)
	for i := 0; i < n && !w.r.Failed(); i++ {
		last := i == n-1
		st := w.genStart(i, last)
		simtls.Listeners = map[string]*tls.Config{}
		st.broken = broken
		if !last && w.chance(1, 6) {
			other := w.genStart(i, false)
			st.crashAt, other.crashAt = -1, -1
			st.faultAt, other.faultAt = -1, -1
			st.rival, other.rival = true, true
			st.broken, other.broken = broken, broken
			st.addrs, other.addrs = []string{"localhost:443"}, []string{"127.0.0.1:8443"}
			w.r.Fault("rival-start")
			done := 0
			for _, x := range []*start{st, other} {
				x := x
				w.r.Spawn("process", func() { x.run(d); done++ })
			}
			w.r.Park("processes", func() bool { return done == 2 }, nil)
			continue
		}
		st.run(d)
		if st.crashed {
			power := w.chance(1, 2)
			if power {
				w.r.Fault("power-loss")
			} else {
				w.r.Fault("process-crash")
			}
			fs.Revive(power)
		} else if w.chance(1, 8) {
			// the machine goes down between the starts
			w.r.Fault("power-loss")
			fs.Revive(true)
		}
	}
	fs.On, fs.OnWrite, fs.OnRead = nil, nil, nil
	log.SetOutput(io.Discard)
}

func (w *World) genStart(i int, last bool) *start {
	st := &start{w: w, n: i, crashAt: -1, faultAt: -1}
	locals := []string{"localhost:443", "127.0.0.1:8443", "[::1]:444", "LocalHost:445", ":446"}
	for k, n := 0, w.pick(4, 1)+1; k < n; k++ {
		j := w.draw(len(locals))
		st.addrs = append(st.addrs, locals[j])
		locals = append(append([]string(nil), locals[:j]...), locals[j+1:]...)
	}
	if last {
		return st
	}
	switch w.pick(4, 4, 2) {
	case 0:
		st.crashAt = w.draw(30)
		st.torn = w.oneOf(0, 0, w.draw(64), w.draw(2000))
	case 1:
		st.faultAt = w.draw(30)
		st.faultFor = w.oneOf(1, 1, 2, 5, 1000)
		st.faultErr = []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EMFILE}[w.draw(5)]
		st.readOnly = st.faultErr == syscall.ENOSPC || st.faultErr == syscall.EROFS
		st.torn = w.oneOf(0, 0, w.draw(64), w.draw(2000))
	}
	return st
}

// arm makes the disk behave as planned for this start.
func (st *start) arm() {
	w := st.w
	fs := w.r.FS
	st.ops = 0
	die := func() {
		fs.AfterWrite = nil
		st.crashed = true
		w.r.Event("the process dies")
		fs.Kill()
		runtime.Goexit()
	}
	fs.On = func(op, name string) error {
		n := st.ops
		st.ops++
		if n == st.crashAt && op != "write" {
			die()
		}
		if st.faultAt >= 0 && n >= st.faultAt && n < st.faultAt+st.faultFor && op != "write" {
			if st.readOnly && (op == "read" || op == "stat" || op == "fstat" || op == "open" || op == "close") {
				return nil
			}
			st.faulted = true
			w.r.Fault("disk-" + op)
			return st.faultErr
		}
		return nil
	}
	fs.OnWrite = func(name string, n int) (int, error) {
		at := st.ops - 1 // counted by On
		part := st.torn
		if part > n {
			part = n
		}
		if at == st.crashAt {
			w.r.Fault("torn-write")
			fs.AfterWrite = die
			return part, syscall.EIO
		}
		if st.faultAt >= 0 && at >= st.faultAt && at < st.faultAt+st.faultFor {
			st.faulted = true
			w.r.Fault("disk-write")
			if part == n {
				part = n - 1
			}
			if part < 0 {
				part = 0
			}
			return part, st.faultErr
		}
		return n, nil
	}
	fs.OnRead = func(name string, off, n int) (int, error) {
		if w.r.Chance("disk", 1, 4) {
			w.r.Fault("disk-short-read")
			return 1 + w.r.Draw("disk", n), nil
		}
		return n, nil
	}
	if st.rival {
		fs.On, fs.OnWrite = nil, nil
	}
}

// run is the life of the process.
func (st *start) run(d certDir) {
	w := st.w
	st.before, st.intact = w.pairOf(d)
	st.arm()
	log.SetOutput(&st.log)
	var app *indigo.App
	over := false
	w.r.Event("start %d", st.n)
	plain := fmt.Sprintf("0.0.0.0:%d", 8080+2*st.n)
	if st.rival && st.addrs[0] != "localhost:443" {
		plain = fmt.Sprintf("0.0.0.0:%d", 8081+2*st.n)
	}
	w.r.Spawn("process", func() {
		defer func() { over = true }()
		app = indigo.New(plain).Tune(config.Default())
		for _, a := range st.addrs {
			app.AutoHTTPS(a)
		}
		app.OnStart(func() { st.started = true })
		st.err = app.Serve(simple.New(func(r *http.Request) *http.Response {
			st.served++
			want := encryption.TLS
			if r.Path == "/plain" {
				want = encryption.Plain
			}
			if r.Env.Encryption != want {
				w.violate("encryption", "%s reports encryption %d", r.Path, r.Env.Encryption)
			}
			return http.String(r, "ok")
		}, http.Respond))
		st.returned = true
	})
	w.r.Park("process", func() bool { return over || st.started }, nil)
	w.r.Event("start %d: crashed %v, started %v, returned %v, %v", st.n, st.crashed, st.started, st.returned, st.err)
	if st.crashed {
		// the kernel closes everything
		for _, l := range w.r.Net.All {
			if !l.Closed {
				_ = l.Close()
			}
		}
		return
	}
	fs := w.r.FS
	if !st.rival {
		fs.On, fs.OnWrite, fs.OnRead = nil, nil, nil
	}
	st.judge(d, plain)
	if st.started && !st.returned {
		app.Stop()
		w.r.Park("process", func() bool { return over }, nil)
	}
	if fs.Handles != 0 && !st.rival && !w.r.Failed() {
		w.violate("leak-file", "%d descriptors are open after start %d", fs.Handles, st.n)
	}
}

// judge decides whether the outcome of a start is acceptable.
func (st *start) judge(d certDir, plain string) {
	w := st.w
	if w.r.Failed() {
		return
	}
	excused := st.faulted || st.broken || st.rival
	if st.started {
		if st.err != nil || st.returned {
			w.violate("cert", "start %d: Serve has started and returned %v", st.n, st.err)
			return
		}
		tlsCnt := 0
		for _, a := range st.addrs {
			if strings.HasPrefix(a, ":") {
				a = "0.0.0.0" + a
			}
			l := w.r.Net.Lookup(a)
			if l == nil || l.Closed {
				continue
			}
			tlsCnt++
			c, err := certOf(a)
			if err != nil {
				w.violate("cert", "start %d: %s listens without a certificate: %v", st.n, a, err)
				return
			}
			if d := usable(c); d != "" {
				w.violate("cert", "start %d: %s listens with an unusable certificate: %s", st.n, a, d)
				return
			}
			if pair, ok := w.pairOf(d); !st.rival && (!ok || !bytes.Equal(derOf(pair[0]), c.Certificate[0])) {
				w.violate("cert", "start %d: %s listens with another certificate than the cached one", st.n, a)
				return
			}
			st.talk(a)
		}
		st.talk(plain)
		warns := strings.Count(st.log.String(), "\n")
		if missing := len(st.addrs) - tlsCnt; missing > 0 {
			if !excused {
				w.violate("cert", "start %d: TLS is off for %d of %v although the disk works: %s", st.n, missing, st.addrs, st.log.String())
				return
			}
			if warns < missing && !st.rival {
				w.violate("cert", "start %d: TLS is off for %d of %v, and it is not reported", st.n, missing, st.addrs)
				return
			}
			w.r.Probe("tls-left-off")
		} else {
			w.r.Probe("tls-on")
		}
	} else {
		if st.err == nil {
			w.violate("cert", "start %d: Serve neither starts nor fails", st.n)
			return
		}
		if !excused {
			w.violate("cert", "start %d: Serve fails although the disk works: %v", st.n, st.err)
			return
		}
		if !st.rival {
			for _, l := range w.r.Net.All {
				if !l.Closed {
					w.violate("cert", "start %d: Serve has failed, but %s is bound", st.n, l.AddrS)
					return
				}
			}
		}
		w.r.Probe("serve-failed")
	}
	pair, ok := w.pairOf(d)
	if !excused {
		if !ok {
			w.violate("cert", "start %d: no usable certificate and key are cached", st.n)
			return
		}
	}
	if st.intact && !st.broken && (!st.faulted || st.readOnly) && !st.rival {
		w.r.Probe("pair-reused")
		if !bytes.Equal(pair[0], st.before[0]) || !bytes.Equal(pair[1], st.before[1]) {
			w.violate("cert", "start %d: an intact certificate and key have been replaced", st.n)
		}
	}
}

// usable tells what is wrong with a certificate.
func usable(c *tls.Certificate) string {
	if c == nil || len(c.Certificate) == 0 || c.PrivateKey == nil {
		return "there is none"
	}
	leaf, err := x509.ParseCertificate(c.Certificate[0])
	if err != nil {
		return err.Error()
	}
	signer, ok := c.PrivateKey.(crypto.Signer)
	if !ok {
		return "the key cannot sign"
	}
	if pub, ok := signer.Public().(interface {
		Equal(x crypto.PublicKey) bool
	}); !ok || !pub.Equal(leaf.PublicKey) {
		return "the key does not match"
	}
	return ""
}

// talk makes a request to an address.
func (st *start) talk(addr string) {
	w := st.w
	p, err := w.r.Net.Dial(addr, sim.DefaultProfile())
	if err != nil {
		w.violate("cert", "start %d: cannot connect to %s: %v", st.n, addr, err)
		return
	}
	name := "/tls"
	if strings.HasSuffix(addr, fmt.Sprint(8080+2*st.n)) || strings.HasSuffix(addr, fmt.Sprint(8081+2*st.n)) {
		name = "/plain"
	}
	p.Send([]byte("GET "+name+" HTTP/1.1\r\nConnection: close\r\n\r\n"), 0)
	for p.Recv(100e9, 0) {
	}
	if !bytes.HasPrefix(p.Got, []byte("HTTP/1.1 200 ")) || !bytes.HasSuffix(p.Got, []byte("ok")) {
		w.violate("cert", "start %d: %s answers %s", st.n, addr, hexs(p.Got))
	}
}
