package sim

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
)

// Net is the simulated network.
type Net struct {
	r         *Run
	listeners map[string]*Listener
	All       []*Listener
	Conns     []*Conn
	port      int
	// BindFault, if set, decides whether binding of an address fails.
	BindFault func(addr string) error
	// OnListen is called for every new listener.
	OnListen func(l *Listener)
	// OnClose is called when a listener is being closed.
	OnClose func(l *Listener)
}

func newNet(r *Run) *Net {
	return &Net{r: r, listeners: map[string]*Listener{}, port: 40000}
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Profile is how a connection behaves.
type Profile struct {
	EOFWithData bool          // the last data is returned together with io.EOF
	MaxRead     int           // largest piece a read returns; 0: no limit
	ReadCut     int           // 0: as much as possible; 1: random cuts; 2: byte by byte
	Window      int           // unread bytes towards the client before writes block; 0: unlimited
	WriteFailAt int           // number of written bytes after which writing fails; <0: never
	WriteStall  time.Duration // delay of every write
	Latency     time.Duration // server to client
	NoDeadline  bool          // SetReadDeadline fails
	BreakAt     int           // writes fail after the client has closed: how many still succeed
}

// DefaultProfile is a connection without faults.
func DefaultProfile() Profile { return Profile{WriteFailAt: -1} }

type segKind uint8

const (
	segData segKind = iota
	segEOF
	segReset
)

type seg struct {
	at   time.Time
	data []byte
	kind segKind
}

// Listener is a simulated listening socket.
type Listener struct {
	r        *Run
	AddrS    string
	backlog  []*Conn
	Closed   bool
	CloseCnt int
	deadline time.Time
	fail     error // pending accept error
	failFor  int   // how many accepts fail; 0: for ever
	Accepted int
	ClosedAt int // sequence number of the close
	ClosedT  time.Duration
	TLS      bool
	DeadSets int
	acceptN  int
}

// TCPListener supports deadlines, as *net.TCPListener does.
type TCPListener struct{ *Listener }

// SetDeadline interrupts Accept.
func (l TCPListener) SetDeadline(t time.Time) error {
	Y()
	if l.Closed {
		return net.ErrClosed
	}
	l.deadline = t
	l.DeadSets++
	l.r.Event("listener %s deadline", l.AddrS)
	Y()
	return nil
}

// NetListen replaces net.Listen.
func NetListen(network, address string) (net.Listener, error) {
	r := Current()
	if r == nil {
		return nil, errors.New("sim: no run")
	}
	l, err := r.Net.Listen(address)
	if err != nil {
		return nil, err
	}
	return TCPListener{l}, nil
}

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (*ListenConfig) Listen(_ context.Context, network, address string) (net.Listener, error) {
	return NetListen(network, address)
}

func (*ListenConfig) SetMultipathTCP(bool) {}

// TLSListen replaces tls.Listen: encryption itself is not simulated, but the listener cannot
// be interrupted and connections report the end of the stream together with data.
func TLSListen(network, address string) (net.Listener, error) {
	r := Current()
	if r == nil {
		return nil, errors.New("sim: no run")
	}
	l, err := r.Net.Listen(address)
	if err != nil {
		return nil, err
	}
	l.TLS = true
	return l, nil
}

// Listen binds an address.
func (n *Net) Listen(address string) (*Listener, error) {
	Y()
	if n.BindFault != nil {
		if err := n.BindFault(address); err != nil {
			n.r.Event("bind %s fails", address)
			return nil, err
		}
	}
	if l := n.listeners[address]; l != nil && !l.Closed {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{r: n.r, AddrS: address}
	n.listeners[address] = l
	n.All = append(n.All, l)
	n.r.Event("bind %s", address)
	if n.OnListen != nil {
		n.OnListen(l)
	}
	Y()
	return l, nil
}

// Lookup returns the listener of an address.
func (n *Net) Lookup(address string) *Listener { return n.listeners[address] }

func (l *Listener) Addr() net.Addr { return addr(l.AddrS) }

// Fail makes the next cnt accepts (0: all) return err.
func (l *Listener) Fail(err error, cnt int) { l.fail, l.failFor = err, cnt }

func timeoutErr(op string) error {
	return &net.OpError{Op: op, Net: "tcp", Err: os.ErrDeadlineExceeded}
}

func (l *Listener) expired() bool { return !l.deadline.IsZero() && !time.Now().Before(l.deadline) }

func (l *Listener) Accept() (net.Conn, error) {
	Y()
	l.acceptN++
	for {
		if l.Closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if l.expired() {
			return nil, timeoutErr("accept")
		}
		if l.fail != nil {
			err := l.fail
			if l.failFor > 0 {
				l.failFor--
				if l.failFor == 0 {
					l.fail = nil
				}
			}
			l.r.Event("accept on %s fails: %v", l.AddrS, err)
			return nil, err
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			l.Accepted++
			c.AcceptedSeq = l.r.Seq()
			c.Accepted = true
			l.r.Event("accept %s", c.remote)
			// the connection is taken; the caller learns about it later
			l.r.Park("accepted", nil, nil)
			return c, nil
		}
		l.r.Park("accept", func() bool {
			return l.Closed || l.expired() || l.fail != nil || len(l.backlog) > 0
		}, func() time.Time { return l.deadline })
	}
}

func (l *Listener) Close() error {
	Y()
	l.CloseCnt++
	if l.Closed {
		return net.ErrClosed
	}
	l.Closed = true
	l.ClosedAt = l.r.Seq()
	l.ClosedT = l.r.Now()
	if l.r.Net.OnClose != nil {
		l.r.Net.OnClose(l)
	}
	l.r.Event("listener %s closed", l.AddrS)
	for _, c := range l.backlog {
		c.out = append(c.out, seg{at: time.Now(), kind: segReset})
		c.Closed = true
	}
	l.backlog = nil
	Y()
	return nil
}

// Conn is the server's end of a simulated connection.
type Conn struct {
	r           *Run
	ID          int
	l           *Listener
	remote      string
	P           Profile
	in, out     []seg
	lastIn      time.Time
	rdl, wdl    time.Time
	Closed      bool
	Accepted    bool
	AcceptedSeq int
	DialedAt    time.Duration
	ClosedSeq   int
	ClosedAt    time.Duration
	CloseCnt    int
	Written     int
	ReadBytes   int
	Reads       int
	ReadAfter   int // reads issued after the connection was handed over (see Mark)
	WriteAfter  int
	marked      bool
	broken      bool // peer is gone, writes fail
	peerClosed  bool
	blocked     bool
	afterClose  int
	unread      int // bytes on the way to the client and not received
	ReadErrs    int
	sawEOF      bool
}

// Peer is the client's end.
type Peer struct {
	C *Conn
	r *Run
	// Got holds everything received so far.
	Got      []byte
	EOF      bool
	Reset    bool
	ClosedAt time.Duration
	sentFin  bool
}

// Dial connects to an address. The connection waits in the backlog.
func (n *Net) Dial(address string, p Profile) (*Peer, error) {
	Y()
	l := n.listeners[address]
	if l == nil || l.Closed {
		n.r.Event("dial %s refused", address)
		return nil, syscall.ECONNREFUSED
	}
	n.port++
	c := &Conn{r: n.r, ID: len(n.Conns), l: l, remote: fmt.Sprintf("10.0.0.1:%d", n.port), P: p, DialedAt: n.r.Now()}
	if l.TLS {
		c.P.EOFWithData = true
	}
	n.Conns = append(n.Conns, c)
	l.backlog = append(l.backlog, c)
	n.r.Event("dial %s as %s", address, c.remote)
	return &Peer{C: c, r: n.r}, nil
}

// Remote is the client's address.
func (c *Conn) Remote() string       { return c.remote }
func (c *Conn) LocalAddr() net.Addr  { return c.l.Addr() }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.remote) }
func (c *Conn) Listener() *Listener  { return c.l }
func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.Closed {
		return net.ErrClosed
	}
	if c.P.NoDeadline {
		return syscall.ENOPROTOOPT
	}
	c.rdl = t
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.Closed {
		return net.ErrClosed
	}
	c.wdl = t
	return nil
}

// Mark starts counting reads and writes by whoever still uses the connection.
func (c *Conn) Mark(on bool) { c.marked = on }

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) arrived() bool { return len(c.in) > 0 && !time.Now().Before(c.in[0].at) }

func (c *Conn) nextIn() time.Time {
	t := c.rdl
	if len(c.in) > 0 && (t.IsZero() || c.in[0].at.Before(t)) {
		t = c.in[0].at
	}
	return t
}

func (c *Conn) Read(b []byte) (int, error) {
	Y()
	c.Reads++
	if c.marked {
		c.ReadAfter++
	}
	for {
		if c.Closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		if past(c.rdl) {
			c.ReadErrs++
			c.r.Event("%s read timeout", c.remote)
			return 0, timeoutErr("read")
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.arrived() {
			return c.take(b)
		}
		c.r.Park("read", func() bool { return c.Closed || past(c.rdl) || c.arrived() }, c.nextIn)
	}
}

func (c *Conn) take(b []byte) (int, error) {
	s := c.in[0]
	switch s.kind {
	case segEOF:
		c.ReadErrs++
		c.sawEOF = true
		c.r.Event("%s read EOF", c.remote)
		return 0, io.EOF
	case segReset:
		c.ReadErrs++
		c.r.Event("%s read reset", c.remote)
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	}
	limit := len(b)
	if c.P.MaxRead > 0 && c.P.MaxRead < limit {
		limit = c.P.MaxRead
	}
	switch c.P.ReadCut {
	case 1:
		if c.r.Chance("net", 1, 2) {
			limit = 1 + c.r.Draw("net", limit)
			c.r.Fault("short-read")
		}
	case 2:
		limit = 1
	}
	n := 0
	for n < limit && c.arrived() && c.in[0].kind == segData {
		m := copy(b[n:limit], c.in[0].data)
		c.in[0].data = c.in[0].data[m:]
		n += m
		if len(c.in[0].data) == 0 {
			c.in = c.in[1:]
			if c.P.ReadCut == 1 && c.r.Chance("net", 1, 2) {
				break // segments are not coalesced
			}
		}
	}
	c.ReadBytes += n
	if c.P.EOFWithData && c.arrived() && c.in[0].kind == segEOF {
		c.sawEOF = true
		c.r.Fault("data-with-eof")
		c.r.Event("%s read %d with EOF", c.remote, n)
		return n, io.EOF
	}
	c.r.Event("%s read %d", c.remote, n)
	return n, nil
}

// Blocked tells whether a write waits for the client to read.
func (c *Conn) Blocked() bool { return c.blocked && c.unread >= c.P.Window && !c.broken && !c.Closed }

func (c *Conn) Write(b []byte) (n int, err error) {
	Y()
	if c.marked {
		c.WriteAfter++
	}
	if c.P.WriteStall > 0 {
		c.r.Fault("write-stall")
		c.r.Sleep(c.P.WriteStall)
	}
	for {
		if c.Closed {
			return n, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		}
		if past(c.wdl) {
			return n, timeoutErr("write")
		}
		if c.peerClosed && !c.broken {
			if c.afterClose >= c.P.BreakAt {
				c.broken = true
			}
			c.afterClose++
		}
		if c.broken {
			c.r.Fault("write-error")
			c.r.Event("%s write fails", c.remote)
			return n, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
		}
		if n == len(b) {
			return n, nil
		}
		m := len(b) - n
		if c.P.Window > 0 && !c.peerClosed {
			room := c.P.Window - c.unread
			if room <= 0 {
				c.r.Fault("write-blocked")
				c.blocked = true
				c.r.Park("write", func() bool {
					return c.Closed || c.broken || c.peerClosed || past(c.wdl) || c.unread < c.P.Window
				}, func() time.Time { return c.wdl })
				c.blocked = false
				continue
			}
			if m > room {
				m = room
			}
		}
		fail := false
		if c.P.WriteFailAt >= 0 && c.Written+m >= c.P.WriteFailAt {
			m = c.P.WriteFailAt - c.Written
			fail = true
		}
		if m > 0 {
			c.Written += m
			if !c.peerClosed {
				c.unread += m
				c.out = append(c.out, seg{at: time.Now().Add(c.P.Latency), data: append([]byte(nil), b[n:n+m]...)})
			}
			n += m
			c.r.Event("%s write %d", c.remote, m)
		}
		if fail {
			c.broken = true
			c.out = append(c.out, seg{at: time.Now().Add(c.P.Latency), kind: segReset})
			continue
		}
		Y()
		if n == len(b) {
			return n, nil
		}
	}
}

func (c *Conn) Close() error {
	Y()
	c.CloseCnt++
	if c.Closed {
		return net.ErrClosed
	}
	c.Closed = true
	c.ClosedSeq = c.r.Seq()
	c.ClosedAt = c.r.Now()
	c.out = append(c.out, seg{at: time.Now().Add(c.P.Latency), kind: segEOF})
	c.r.Event("%s closed by server", c.remote)
	Y()
	return nil
}

// Send puts data on the way to the server, arriving after the delay.
func (p *Peer) Send(data []byte, delay time.Duration) {
	c := p.C
	if c.peerClosed || p.sentFin || len(data) == 0 {
		return
	}
	c.push(seg{data: append([]byte(nil), data...)}, delay)
}

func (c *Conn) push(s seg, delay time.Duration) {
	at := time.Now().Add(delay)
	if at.Before(c.lastIn) {
		at = c.lastIn
	}
	c.lastIn = at
	s.at = at
	c.in = append(c.in, s)
}

// LastArrival is when the last byte on the way arrives.
func (p *Peer) LastArrival() time.Duration {
	if p.C.lastIn.IsZero() {
		return 0
	}
	return p.C.lastIn.Sub(p.r.Start)
}

// CloseWrite sends FIN after everything sent so far.
func (p *Peer) CloseWrite(delay time.Duration) {
	if p.sentFin || p.C.peerClosed {
		return
	}
	p.sentFin = true
	p.C.push(seg{kind: segEOF}, delay)
	p.r.Event("%s FIN", p.C.remote)
}

// Close closes both directions: what the server writes afterwards is lost or fails.
func (p *Peer) Close(delay time.Duration) {
	p.CloseWrite(delay)
	p.C.peerClosed = true
	p.r.Event("%s closed by client", p.C.remote)
}

// Abort resets the connection at once. Data not read by the server is lost if drop.
func (p *Peer) Abort(drop bool) {
	c := p.C
	if drop {
		c.in = nil
	}
	c.lastIn = time.Now()
	kept := c.in[:0]
	for _, s := range c.in {
		if !s.at.After(time.Now()) {
			kept = append(kept, s)
		}
	}
	c.in = append(kept, seg{at: time.Now(), kind: segReset})
	c.peerClosed = true
	c.broken = true
	p.sentFin = true
	p.r.Fault("client-reset")
	p.r.Event("%s reset by client", c.remote)
}

// Recv waits for data from the server, at most d, and appends it to Got. It returns false
// when there will be no more data or the time is over.
func (p *Peer) Recv(d time.Duration, max int) bool {
	c := p.C
	if p.EOF || p.Reset || c.peerClosed {
		return false
	}
	end := time.Now().Add(d)
	ready := func() bool {
		return c.peerClosed || len(c.out) > 0 && !time.Now().Before(c.out[0].at) || !time.Now().Before(end)
	}
	if !ready() {
		p.r.Park("client recv", ready, func() time.Time {
			if len(c.out) > 0 && c.out[0].at.Before(end) {
				return c.out[0].at
			}
			return end
		})
	}
	if c.peerClosed || len(c.out) == 0 || time.Now().Before(c.out[0].at) {
		return false
	}
	s := &c.out[0]
	switch s.kind {
	case segEOF:
		p.EOF = true
		p.ClosedAt = p.r.Now()
		p.r.Event("%s client sees close", c.remote)
		return false
	case segReset:
		p.Reset = true
		p.ClosedAt = p.r.Now()
		p.r.Event("%s client sees reset", c.remote)
		return false
	}
	m := len(s.data)
	if max > 0 && m > max {
		m = max
	}
	p.Got = append(p.Got, s.data[:m]...)
	s.data = s.data[m:]
	if len(s.data) == 0 {
		c.out = c.out[1:]
	}
	c.unread -= m
	return true
}

// Gone tells whether the client itself has closed the connection.
func (p *Peer) Gone() bool { return p.C.peerClosed }

// Over tells whether the server has ended the connection from the client's point of view.
func (p *Peer) Over() bool { return p.EOF || p.Reset }

// IsTimeout tells whether err is a timeout of the simulated network.
func IsTimeout(err error) bool { return err != nil && strings.Contains(err.Error(), "i/o timeout") }
