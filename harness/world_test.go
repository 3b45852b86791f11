package verifsim

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/simple"
	sim "verif.local/sim"
)

const mainAddr = "0.0.0.0:8080"

// World is everything a run consists of.
type World struct {
	patient bool // everything takes hours
	lots    bool // very many headers, parameters and the like
	r       *sim.Run
	prop    string
	cfg     config.Config
	app     *indigo.App

	scripts map[string]*Script
	all     []*Script

	binds                       []string
	bindCnt, startCnt, stopCnt  int
	startSeq, stopSeq, retSeq   int
	started, returned, finished bool
	serveErr                    error
	stopAsked                   bool
	onStop                      func()
	serving                     map[string]int // handler calls in progress per connection
	enc                         map[string]encryption.Token
	errCalls                    int
	allowErrs                   bool
	expectReturn                bool
	closing                     func()
	noLeakCheck                 bool
	errHandler                  func(*http.Request) *http.Response
	disconnects                 int
	routed                      bool // a router is in front of the handler
	leave                       bool // handlers leave traces in the request
	stopTime                    time.Duration
	reasons                     []*reason
	diskFaults                  bool
	tableDynamic                bool
	mwCnt                       int
	errTrail                    func(s *Script, err error, path string) []string
	unseen                      bool      // requests are handled by nobody
	shared                      []byte    // a part of responses which is the same for all the clients
	release                     bool      // streams and files must be released before the next request
	closeSeq                    int       // when a listener was closed last
	listeners                   int       // the number of those of earlier servings
	farewell                    []*source // given by the error handler after the end of a connection
}

func newWorld(r *sim.Run, prop string) *World {
	return &World{
		r: r, prop: prop, cfg: config.Default(), scripts: map[string]*Script{},
		serving: map[string]int{}, enc: map[string]encryption.Token{}, stopTime: -1,
		shared: append(make([]byte, 0, 64), "shared-by-all"...),
	}
}

func (w *World) draw(n int) int            { return w.r.Draw("gen", n) }
func (w *World) chance(num, den int) bool  { return w.r.Chance("gen", num, den) }
func (w *World) between(lo, hi int) int    { return w.r.Between("gen", lo, hi) }
func (w *World) pick(weights ...int) int   { return w.r.Pick("gen", weights...) }
func (w *World) oneOf(v ...int) int        { return v[w.draw(len(v))] }
func (w *World) oneStr(v ...string) string { return v[w.draw(len(v))] }
func (w *World) violate(class, f string, a ...interface{}) {
	w.r.Violate(class, f, a...)
}

// tune draws sizes of the server's buffers. None of them may matter.
func (w *World) tune() {
	c := &w.cfg
	if w.chance(2, 3) {
		c.TCP.ReadBufferSize = w.oneOf(4096, 1, 2, 3, 5, 16, 64, 300, 1024)
	}
	if w.chance(1, 2) {
		c.URL.BufferSize.Default = w.oneOf(2048, 1, 8, 33, 100)
		c.Headers.KeySpace.Default = w.oneOf(1024, 1, 16, 50)
		c.Headers.ValueSpace.Default = w.oneOf(1024, 1, 16, 50)
		c.Headers.Number.Default = w.oneOf(10, 1, 3)
		c.URL.Query.PreAlloc = w.oneOf(10, 1)
		c.Headers.CookiesPreAllocate = w.oneOf(5, 1)
	}
	if w.chance(1, 2) {
		c.HTTP.ResponseBuffSize = w.oneOf(1024, 1, 16, 17, 40, 200)
		c.HTTP.FileBuffSize = w.oneOf(64*1024, 16, 17, 40, 200, 1000, 4200)
	}
	if w.chance(1, 3) {
		c.Headers.Default = map[string]string{}
		for i, n := 0, w.between(0, 3); i < n; i++ {
			c.Headers.Default[w.oneStr("Server", "X-Powered-By", "Accept-Encodings", "X-Frame-Options", "cache-control", "connection")] = w.oneStr("indigo", "no", "identity", "a b; c")
		}
		if w.lots {
			for i, n := 0, w.oneOf(10, 17, 40, 70); i < n; i++ {
				c.Headers.Default[fmt.Sprintf("X-Default-%d", i)] = w.oneStr("indigo", "no", "identity", "a b; c")
			}
		}
		if len(c.Headers.Default) == 0 {
			c.Headers.Default["Server"] = "s"
		}
	}
}

func (w *World) newApp() *indigo.App {
	w.app = indigo.New(mainAddr)
	def := config.Default()
	if w.chance(1, 8) && reflect.DeepEqual(w.cfg, def) {
		return w.app
	}
	cfg := w.cfg
	if w.chance(1, 3) {
		w.holes(reflect.ValueOf(&cfg).Elem(), reflect.ValueOf(def))
	}
	w.app.Tune(cfg)
	return w.app
}

// holes leaves out settings which have the default value anyway.
func (w *World) holes(c, def reflect.Value) {
	if c.Kind() == reflect.Struct {
		for i := 0; i < c.NumField(); i++ {
			w.holes(c.Field(i), def.Field(i))
		}
		return
	}
	if reflect.DeepEqual(c.Interface(), def.Interface()) && w.chance(3, 4) {
		c.Set(reflect.Zero(c.Type()))
	}
}

// hook installs life-cycle callbacks.
func (w *World) hook() {
	w.app.OnBind(func(a string) {
		w.r.Event("OnBind %s", a)
		w.bindCnt++
		w.binds = append(w.binds, a)
		if w.started {
			w.violate("lifecycle", "bind callback for %s after the start callback", a)
		}
	})
	w.app.OnStart(func() {
		w.r.Event("OnStart")
		w.startCnt++
		w.startSeq = w.r.Seq()
		w.started = true
		if w.startCnt > 1 {
			w.violate("lifecycle", "start callback called again")
		}
	})
	w.app.OnStop(func() {
		w.r.Event("OnStop")
		w.stopCnt++
		w.stopSeq = w.r.Seq()
		if w.stopCnt > 1 {
			w.violate("lifecycle", "stop callback called again")
		}
		if w.returned {
			w.violate("lifecycle", "stop callback after Serve has returned")
		}
		if w.onStop != nil {
			w.onStop()
		}
	})
}

// serve runs the application and waits for it to start.
func (w *World) serve(f router.Fabric) {
	w.hook()
	w.serveRaw(f)
}

func (w *World) serveRaw(f router.Fabric) {
	w.r.Spawn("serve", func() {
		err := w.app.Serve(f)
		w.serveErr = err
		w.retSeq = w.r.Seq()
		w.returned = true
		w.r.Event("Serve returned: %v", err)
	})
	w.r.Park("await start", func() bool { return w.started || w.returned }, nil)
	if w.returned && !w.expectReturn && len(w.reasons) == 0 {
		w.violate("serve", "Serve returned at once: %v", w.serveErr)
	}
}

// simple serves the shared handler without a router in between.
func (w *World) simple() router.Fabric { return simple.New(w.handle, w.onError) }

func (w *World) script(addr string) *Script {
	s := &Script{w: w, ID: len(w.all), addr: addr, prof: sim.DefaultProfile(), tolerateAfter: -1, cutAt: -1, maxGap: 2 * time.Second}
	w.all = append(w.all, s)
	return s
}

func (w *World) register(s *Script) { w.scripts[s.peer.C.Remote()] = s }

// runAll lets the clients run concurrently until they are done.
func (w *World) runAll() {
	left := len(w.all)
	for _, s := range w.all {
		s := s
		w.r.Spawn(fmt.Sprintf("client%d", s.ID), func() {
			if s.startDelay > 0 {
				w.r.Sleep(s.startDelay)
			}
			s.run()
			left--
		})
	}
	w.r.Park("clients", func() bool { return left == 0 }, nil)
}

// stop ends the application and waits for it.
func (w *World) stop() {
	w.stopAsked = true
	w.app.Stop()
	w.awaitReturn()
}

// stopping tells whether a connection made at that moment may be too late.
func (w *World) stopping(at time.Duration) bool { return w.stopTime >= 0 && at >= w.stopTime }

func (w *World) awaitReturn() {
	w.r.Park("await return", func() bool { return w.returned }, nil)
}

// atEnd runs when nothing can happen anymore.
func (w *World) atEnd() {
	if w == nil || !w.finished {
		w.violate("stuck", "the run cannot proceed; unfinished: %s", strings.Join(w.r.AliveAll(), "; "))
		return
	}
	w.released()
}

// released checks that nothing remains once the application and its clients are gone.
func (w *World) released() {
	if w.noLeakCheck {
		return
	}
	if a := w.r.Alive(); len(a) > 0 {
		sort.Strings(a)
		w.violate("leak-goroutine", "goroutines remain: %s", strings.Join(a, "; "))
	}
	for _, c := range w.r.Net.Conns {
		if c.Accepted && !c.Closed {
			w.violate("leak-conn", "accepted connection %s has never been closed", c.Remote())
		}
	}
	for _, l := range w.r.Net.All {
		if !l.Closed {
			w.violate("leak-listener", "listener %s has never been closed", l.AddrS)
		}
	}
	if n := w.r.FS.Handles; n != 0 {
		w.violate("leak-file", "%d file descriptors remain open", n)
	}
}

func (w *World) scriptOf(request *http.Request) *Script {
	if request.Remote == nil {
		w.violate("request", "no remote address")
		return nil
	}
	s := w.scripts[request.Remote.String()]
	if s == nil {
		w.violate("request", "remote address %q is not of any client", request.Remote)
	}
	return s
}

// onError is the error handler of the simple router.
func (w *World) onError(request *http.Request) *http.Response {
	s := w.scriptOf(request)
	if s == nil {
		return http.Respond(request)
	}
	return s.onError(request, request.Env.Error)
}

func codeOf(err error) int {
	if e, ok := err.(status.HTTPError); ok {
		return int(e.Code)
	}
	return -1
}
