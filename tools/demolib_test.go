package demo

import (
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/router"
)

// conn is a connection which gives prepared pieces, one per read, and then ends.
type conn struct {
	mu     sync.Mutex
	in     [][]byte
	out    []byte
	closed int
	end    error
}

func (c *conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.in) == 0 {
		if c.end != nil {
			return 0, c.end
		}
		return 0, io.EOF
	}
	n := copy(b, c.in[0])
	if c.in[0] = c.in[0][n:]; len(c.in[0]) == 0 {
		c.in = c.in[1:]
	}
	return n, nil
}

func (c *conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed > 0 {
		return 0, os.ErrClosed
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

func (c *conn) Close() error                     { c.mu.Lock(); c.closed++; c.mu.Unlock(); return nil }
func (c *conn) LocalAddr() net.Addr              { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 80} }
func (c *conn) RemoteAddr() net.Addr             { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1234} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

// talk serves one connection which receives the pieces and returns all the output.
func talk(cfg config.Config, r router.Fabric, pieces ...string) string {
	c := &conn{}
	for _, p := range pieces {
		c.in = append(c.in, []byte(p))
	}
	serve.HTTP1(config.Fill(cfg), c, encryption.Plain, r.Initialize())
	return string(c.out)
}
