package verifsim

import (
	"errors"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http/status"
	sim "verif.local/sim"
)

func init() {
	scenarios["C09"] = scenC09
	scenarios["C10"] = scenC10
	scenarios["C11"] = scenC11
	scenarios["C12"] = scenC12
}

// gap draws a pause shorter than top.
func (w *World) gap(top time.Duration) time.Duration {
	switch w.r.Pick("net", 3, 2, 1) {
	case 1:
		return top - 1
	case 2:
		return top / 2
	}
	if top <= time.Millisecond {
		return time.Duration(w.r.Draw("net", int(top)))
	}
	return time.Duration(w.r.Draw("net", int(top/time.Millisecond))) * time.Millisecond
}

// C09: read timeouts.
func scenC09(w *World) {
	w.tune()
	top := []time.Duration{time.Second, time.Millisecond, 17 * time.Millisecond, 250 * time.Millisecond, 90 * time.Second, 10 * time.Minute, time.Nanosecond * 1500, time.Hour}[w.draw(8)]
	w.cfg.TCP.ReadTimeout = top
	w.newApp()
	for i, n := 0, w.between(1, 3); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		s.prof.Latency, s.prof.Window, s.slowRead = 0, 0, false
		s.delayBetw = 0
		s.gapTop = top
		s.end = w.oneOf(endIdle, endFIN, endIdle, endClose)
		w.conversation(s, w.draw(5), genOpts{maxBody: 40}, planOpts{simple: true})
		for _, q := range s.reqs {
			if w.chance(1, 4) {
				q.Plan.Delay = time.Duration(w.between(1, 30)) * top / 10
			}
		}
		if w.chance(1, 2) && s.total() > 0 {
			w.cut(s)
			s.cutKind = w.oneOf(cutSilent, cutSilent, cutFIN)
			s.settle()
			for _, q := range s.reqs {
				if q.Broken {
					q.Plan.Delay = 0
				}
			}
		}
		if s.cutAt < 0 && w.chance(1, 4) && len(s.reqs) > 0 {
			s.add(w.genBad(), nil)
		}
		if s.cutAt < 0 && s.end != endIdle && w.chance(1, 2) {
			// sending takes longer than that
			s.stubborn, s.prof.Window = true, w.between(1, 60)
			s.end = w.oneOf(endFIN, endClose)
		}
		s.afterTalk = func() { w.checkTimeout(s, top) }
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
}

// checkTimeout checks when a silent client was dropped.
func (w *World) checkTimeout(s *Script, top time.Duration) {
	if w.r.Failed() || s.disturbed() {
		return
	}
	cut := s.cutAt >= 0 && s.cutAt < s.total()
	silent := cut && s.cutKind == cutSilent || !cut && s.end == endIdle
	_, _, closes, bad := s.model()
	if !silent || closes || bad {
		return
	}
	at := s.peer.LastArrival()
	if at < s.dialAt {
		at = s.dialAt
	}
	broken := false
	for _, q := range s.reqs {
		broken = broken || q.Broken && q.called > 0
		if q.Broken && q.Closes {
			return // may be over before its body
		}
	}
	want := at + top
	if s.busyAt > at && !broken {
		want = s.busyAt + top
	} else if broken && s.enterAt > at {
		want = s.enterAt + top
	}
	c := s.peer.C
	if !c.Closed {
		s.violate("timeout", "a silent client is not dropped")
		return
	}
	w.r.Probe("silent-client-dropped")
	if c.ClosedAt != want {
		s.violate("timeout", "dropped at %s, want %s (timeout %s, last byte at %s)", c.ClosedAt, want, top, at)
	}
}

// reason is a request to stop or a failure.
type reason struct {
	err        error
	begin, end int
	graceful   bool
}

// ask records a reason to stop around the call which gives it.
func (w *World) ask(err error, call func()) {
	r := &reason{err: err, begin: w.r.Seq(), end: 1 << 60, graceful: err == status.ErrGracefulShutdown}
	w.reasons = append(w.reasons, r)
	if w.stopTime < 0 {
		w.stopTime = w.r.Now()
	}
	at := w.r.Now()
	w.r.Event("stop asked: %v", err)
	call()
	if d := w.r.Now() - at; d != 0 && !w.r.Stalls {
		w.violate("stop-blocks", "the request to stop blocks its caller for %s", d)
	}
	if _, fails := err.(*net.OpError); !fails && err != errListener {
		r.end = w.r.Seq()
	}
}

var errListener = errors.New("the listener is broken")

func (w *World) askStop(graceful bool) {
	if graceful {
		w.ask(status.ErrGracefulShutdown, w.app.GracefulStop)
	} else {
		w.ask(status.ErrShutdown, w.app.Stop)
	}
}

// checkReason checks what Serve has returned.
func (w *World) checkReason() {
	ok := false
	for _, r := range w.reasons {
		if r.err != w.serveErr {
			continue
		}
		first := true
		for _, o := range w.reasons {
			if o != r && o.end < r.begin {
				first = false
			}
		}
		ok = ok || first
	}
	if !ok {
		w.violate("return", "Serve returned %v; reasons to stop in order: %v", w.serveErr, w.reasonList())
	}
}

func (w *World) reasonList() (list []string) {
	for _, r := range w.reasons {
		list = append(list, r.err.Error())
	}
	return list
}

// quiet checks that nobody is being served.
func (w *World) quiet(when string, late bool) {
	for _, c := range w.r.Net.Conns {
		if c.Accepted && !c.Closed && (!late || c.Reads > 0) {
			w.violate("still-served", "%s: connection %s is still open", when, c.Remote())
		}
	}
	for _, s := range w.all {
		if s.inside > 0 {
			w.violate("still-served", "%s: client %d is in a handler", when, s.ID)
		}
	}
}

// life sets up an application with several listeners, clients and checks of its life cycle.
func (w *World) life() []string {
	w.tune()
	w.cfg.TCP.ReadTimeout = time.Duration(w.between(1, 30)) * time.Second
	if w.patient = w.chance(1, 8); w.patient {
		// nobody is in a hurry
		w.cfg.TCP.ReadTimeout = time.Duration(w.between(1, 5)) * time.Hour
		w.r.Probe("patient-clients")
	}
	addrs := []string{mainAddr}
	w.newApp()
	for i, n := 0, w.pick(3, 2, 1); i < n; i++ {
		a := []string{"127.0.0.1:9000", "0.0.0.0:9001"}[i]
		addrs = append(addrs, a)
		if w.chance(1, 2) {
			w.app.Listen(a, indigo.Listener{Listen: sim.TLSListen}) // cannot be interrupted
		} else {
			w.app.Listen(a)
		}
	}
	w.lifeClients(addrs, w.between(0, 4))
	w.r.Net.OnClose = func(l *sim.Listener) {
		w.closeSeq = w.r.Seq()
		if len(w.reasons) == 0 && !w.returned {
			w.violate("listener", "listener %s is closed although nobody asked to stop", l.AddrS)
			return
		}
		if len(w.reasons) > 0 && w.onlyGraceful() {
			// a connection accepted too late may be on its way to be dropped
			w.quiet("listener "+l.AddrS+" is being closed in a graceful stop", true)
		}
	}
	w.onStop = func() {
		w.quiet("the stop callback runs", false)
		for _, l := range w.r.Net.All {
			if !l.Closed {
				w.violate("listener", "listener %s is open when the stop callback runs", l.AddrS)
			}
		}
	}
	return addrs
}

// again serves with the same application once more.
func (w *World) again(addrs []string) {
	if w.r.Failed() || !w.chance(1, 4) {
		return
	}
	for _, r := range w.reasons {
		if r.end > w.closeSeq && (r.err == status.ErrShutdown || r.err == status.ErrGracefulShutdown) {
			return // may have come too late for the first time
		}
	}
	w.r.Probe("served-again")
	w.started, w.returned, w.serveErr, w.reasons, w.stopTime, w.all = false, false, nil, nil, -1, nil
	w.bindCnt, w.startCnt, w.stopCnt, w.binds = 0, 0, 0, nil
	w.listeners = len(w.r.Net.All)
	w.lifeClients(addrs, w.between(1, 2))
	var pending *int
	begin := w.r.Now()
	for _, s := range w.all {
		s.late = begin
	}
	pending = w.stoppers(func() bool { return w.chance(1, 2) })
	w.serve(w.simple())
	w.finale(w.chance(1, 2), pending)
}

// lifeClients adds clients.
func (w *World) lifeClients(addrs []string, n int) {
	for i := 0; i < n; i++ {
		s := w.script(addrs[w.draw(len(addrs))])
		w.network(s)
		s.startDelay = time.Duration(w.draw(12000)) * time.Millisecond
		if w.chance(1, 3) {
			s.startDelay = time.Duration(w.draw(12)) * time.Second
		}
		s.slowRead = false // would be taken for silence
		s.maxGap = 900 * time.Millisecond
		s.delayBetw = 500 * time.Millisecond
		if w.patient && w.chance(1, 2) {
			s.delayBetw = w.cfg.TCP.ReadTimeout / 2
		}
		if s.prof.Latency > 400*time.Millisecond {
			s.prof.Latency = 400 * time.Millisecond
		}
		w.conversation(s, w.between(0, 4), genOpts{maxBody: 40}, planOpts{maxBody: 40, streams: w.chance(1, 4)})
		for _, q := range s.reqs {
			if w.chance(1, 3) {
				q.Plan.Delay = time.Duration(w.between(1, 8000)) * time.Millisecond
				if w.patient {
					q.Plan.Delay *= 1000
				}
			}
			if src := q.Plan.Src; src != nil && src.stall > 300*time.Millisecond {
				src.stall = 300 * time.Millisecond
			}
		}
		if w.chance(1, 5) {
			w.cut(s)
		}
	}
}

// onlyGraceful tells whether the stop is certainly a graceful one.
func (w *World) onlyGraceful() bool {
	for _, r := range w.reasons {
		if !r.graceful {
			// not if it certainly came later
			late := false
			for _, o := range w.reasons {
				late = late || o.graceful && o.end < r.begin
			}
			if !late {
				return false
			}
		}
	}
	return true
}

// settleLife waits for the end and checks it.
func (w *World) settleLife() {
	w.awaitReturn()
	w.quiet("Serve has returned", false)
	w.checkReason()
	if w.startCnt != 1 || w.stopCnt != 1 || w.stopSeq < w.startSeq || w.retSeq < w.stopSeq {
		w.violate("lifecycle", "start callback %d times, stop callback %d times", w.startCnt, w.stopCnt)
	}
	for _, l := range w.r.Net.All[w.listeners:] {
		if !l.Closed {
			w.violate("listener", "listener %s is open after Serve has returned", l.AddrS)
		} else if !w.onlyGraceful() && len(w.reasons) == 1 && l.ClosedT != w.stopTime && !w.r.Stalls {
			w.violate("listener", "listener %s is closed at %s, the stop was at %s", l.AddrS, l.ClosedT, w.stopTime)
		}
	}
}

// stoppers draws who asks to stop, and when.
func (w *World) stoppers(graceful func() bool) (pending *int) {
	left := 0
	pending = &left
	n := w.pick(5, 2, 1) + 1
	for i := 0; i < n; i++ {
		g := graceful()
		if i > 0 {
			g = w.chance(1, 2)
		}
		switch k := w.pick(6, 2, 1, 1); {
		case k == 1 && len(w.all) > 0:
			// from a handler
			s := w.all[w.draw(len(w.all))]
			if len(s.reqs) > 0 {
				s.reqs[w.draw(len(s.reqs))].Plan.Late = func() { w.askStop(g) }
			}
		case k == 2:
			// right at the start
			left++
			at := w.r.Spawn
			at("stopper", func() {
				w.r.Park("start", func() bool { return w.started }, nil)
				w.askStop(g)
				left--
			})
		case k == 3:
			// at the moment a client does something
			if len(w.all) > 0 {
				s := w.all[w.draw(len(w.all))]
				left++
				w.r.Spawn("stopper", func() {
					w.r.Park("client", func() bool {
						return s.calls > 0 || s.done || s.peer != nil && w.r.Now() >= s.late+s.startDelay+time.Millisecond
					}, func() time.Time { return w.r.Start.Add(s.late + s.startDelay + time.Millisecond) })
					w.askStop(g)
					left--
				})
			}
		default:
			d := time.Duration(w.draw(15000)) * time.Millisecond
			if w.chance(1, 2) {
				d = time.Duration(w.draw(15)) * time.Second
			}
			left++
			w.r.Spawn("stopper", func() {
				w.r.Sleep(d)
				w.askStop(g)
				left--
			})
		}
	}
	return pending
}

// finale makes sure somebody asks to stop at last.
func (w *World) finale(graceful bool, pending *int) {
	w.runAll()
	w.r.Park("stoppers", func() bool { return *pending == 0 }, nil)
	if len(w.reasons) == 0 {
		w.askStop(graceful)
	}
	w.settleLife()
}

// C10: graceful stops.
func scenC10(w *World) {
	addrs := w.life()
	pending := w.stoppers(func() bool { return true })
	w.serve(w.simple())
	w.finale(true, pending)
	w.again(addrs)
}

// C11: stops and failures of listeners.
func scenC11(w *World) {
	addrs := w.life()
	pending := w.stoppers(func() bool { return w.chance(1, 4) })
	if w.chance(1, 2) {
		*pending++
		a := addrs[w.draw(len(addrs))]
		d := time.Duration(w.draw(15)) * time.Second
		err := []error{
			errListener, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.EMFILE)},
			&net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.EINVAL)},
		}[w.draw(3)]
		w.r.Spawn("breaker", func() {
			w.r.Sleep(d)
			if l := w.r.Net.Lookup(a); l != nil && !l.Closed && w.started {
				w.r.Fault("listener-failure")
				w.ask(err, func() { l.Fail(err, 0) })
			}
			*pending--
		})
	}
	if w.chance(1, 10) {
		// before anything runs
		w.app.OnBind(nil)
		w.askStop(w.chance(1, 2))
	}
	w.serve(w.simple())
	w.finale(false, pending)
	w.again(addrs)
}

// C12: everything is released.
func scenC12(w *World) {
	w.tune()
	w.cfg.TCP.ReadTimeout = time.Duration(w.between(1, 60)) * time.Second
	w.newApp()
	w.release = true
	for i, n := 0, w.between(1, 4); i < n; i++ {
		s := w.script(mainAddr)
		w.network(s)
		s.slowRead = false
		s.maxGap, s.delayBetw = 300*time.Millisecond, 300*time.Millisecond
		if s.prof.Latency > 200*time.Millisecond {
			s.prof.Latency = 200 * time.Millisecond
		}
		if w.chance(1, 6) {
			w.endlessTalk(s)
			continue
		}
		if w.chance(1, 8) {
			w.conversation(s, w.between(0, 2), genOpts{maxBody: 50, noClose: true, noHTTP10: true}, planOpts{simple: true, maxBody: 40})
			w.hijacker(s, planOpts{streams: true, files: true, maxBody: 40})
			continue
		}
		w.conversation(s, w.between(0, 5), genOpts{maxBody: 60}, planOpts{streams: true, files: true, failing: w.chance(1, 2), maxBody: w.oneOf(40, 600)})
		if w.chance(1, 6) {
			s.add(w.genBad(), nil)
		}
		for _, q := range s.reqs {
			if src := q.Plan.Src; src != nil && src.stall > 300*time.Millisecond {
				src.stall = 300 * time.Millisecond
			}
			if q.Plan.Kind == bodyFile && len(q.Plan.Body) > 0 && w.chance(1, 4) {
				q.Plan.FailFile = true
			}
		}
		switch w.pick(4, 2, 2, 1, 2) {
		case 1:
			w.cut(s)
		case 2:
			s.prof.WriteFailAt = w.draw(800)
			w.r.Fault("write-failure-armed")
		case 3:
			s.prof.NoDeadline = true
			w.r.Fault("deadline-failure-armed")
		case 4:
			s.abortAfter = time.Duration(1+w.draw(3000)) * time.Millisecond
		}
		s.afterTalk = func() { w.releasedBy(s, true) }
	}
	files := map[string]bool{}
	for _, s := range w.all {
		for _, q := range s.reqs {
			if q.Plan != nil && q.Plan.FailFile {
				files[q.Plan.File] = true
			}
		}
	}
	failOp := w.oneStr("open", "fstat", "read", "stat")
	w.r.FS.On = func(op, name string) error {
		if files[name] && (op == failOp || op == "close" && failOp == "read") {
			w.r.Fault("disk-" + op)
			return syscall.EIO
		}
		return nil
	}
	w.serve(w.simple())
	w.runAll()
	w.stop()
	for _, s := range w.all {
		w.releasedBy(s, false)
	}
	for _, src := range w.farewell {
		if src.closed == 0 {
			w.violate("leak-stream", "the stream the error handler has given after the end of a connection has never been closed")
		}
	}
}

// releasedBy checks that whatever responses of a client were made of is closed.
func (w *World) releasedBy(s *Script, last bool) {
	if w.r.Failed() || last && (s.peer == nil || !s.peer.C.Closed) {
		return
	}
	for i, q := range s.reqs {
		if q.called > 0 && q.given {
			w.releasedOne(s, i, q)
		}
	}
}

func (w *World) releasedOne(s *Script, i int, q *Req) {
	if src := q.Plan.Src; src != nil && src.closer && src.closed == 0 && !q.Plan.Nil {
		s.violate("leak-stream", "the stream of response %d has never been closed", i)
	}
	if q.Plan.Kind == bodyFile && !q.Plan.Nil {
		for _, h := range w.r.FS.All {
			if h.Name() == q.Plan.File && !h.IsClosed() {
				s.violate("leak-file", "the file of response %d is still open", i)
			}
		}
	}
}
