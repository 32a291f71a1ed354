package harness

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// memConn is one end of an in-memory, unbounded, full-duplex connection. All
// of its blocking operations block on channels, hence are compatible with
// synctest bubbles.
type memConn struct {
	in, out       *memPipe
	local, remote net.Addr
	once          sync.Once
	mu            sync.Mutex
	rdl           time.Time
	selfClosed    bool
}

type memPipe struct {
	mu     sync.Mutex
	buf    []byte
	closed bool          // writer closed: EOF once drained
	broken bool          // reader closed: writes fail
	wake   chan struct{} // data/close/deadline notifications for the reader
	limit  int           // >0: max buffered bytes
	space  chan struct{}
}

func newMemPipe() *memPipe {
	return &memPipe{wake: make(chan struct{}, 1), space: make(chan struct{}, 1)}
}

func poke(ch chan struct{}) {
	select {
	case ch <- struct{}{}:
	default:
	}
}

func memPair(a, b net.Addr) (*memConn, *memConn) {
	p, q := newMemPipe(), newMemPipe()
	return &memConn{in: p, out: q, local: a, remote: b}, &memConn{in: q, out: p, local: b, remote: a}
}

func (c *memConn) Read(b []byte) (int, error) {
	for {
		c.mu.Lock()
		self, dl := c.selfClosed, c.rdl
		c.mu.Unlock()
		if self {
			return 0, net.ErrClosed
		}
		p := c.in
		p.mu.Lock()
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			if len(p.buf) == 0 {
				p.buf = nil
			}
			p.mu.Unlock()
			poke(p.space)
			return n, nil
		}
		closed := p.closed
		p.mu.Unlock()
		if closed {
			return 0, io.EOF
		}
		if dl.IsZero() {
			<-p.wake
			continue
		}
		d := time.Until(dl)
		if d <= 0 {
			return 0, os.ErrDeadlineExceeded
		}
		t := time.NewTimer(d)
		select {
		case <-p.wake:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *memConn) Write(b []byte) (int, error) {
	for {
		c.mu.Lock()
		self := c.selfClosed
		c.mu.Unlock()
		if self {
			return 0, net.ErrClosed
		}
		p := c.out
		p.mu.Lock()
		if p.broken {
			p.mu.Unlock()
			return 0, io.ErrClosedPipe
		}
		if p.limit > 0 && len(p.buf) >= p.limit {
			p.mu.Unlock()
			<-p.space
			continue
		}
		p.buf = append(p.buf, b...)
		p.mu.Unlock()
		poke(p.wake)
		return len(b), nil
	}
}

func (c *memConn) Close() error {
	first := false
	c.once.Do(func() {
		first = true
		c.mu.Lock()
		c.selfClosed = true
		c.mu.Unlock()
		c.out.mu.Lock()
		c.out.closed = true
		c.out.mu.Unlock()
		c.in.mu.Lock()
		c.in.broken = true
		c.in.mu.Unlock()
		poke(c.out.wake)
		poke(c.in.wake)
		poke(c.out.space)
		poke(c.in.space)
	})
	if !first {
		return net.ErrClosed
	}
	return nil
}

func (c *memConn) LocalAddr() net.Addr  { return c.local }
func (c *memConn) RemoteAddr() net.Addr { return c.remote }

func (c *memConn) SetDeadline(t time.Time) error { c.SetReadDeadline(t); return nil }
func (c *memConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	poke(c.in.wake)
	return nil
}
func (c *memConn) SetWriteDeadline(t time.Time) error { return nil }

// memListener is an in-memory listener.
type memListener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func newMemListener() *memListener {
	return &memListener{ch: make(chan net.Conn, 1024), closed: make(chan struct{})}
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

func (l *memListener) Close() error {
	l.once.Do(func() { close(l.closed) })
	return nil
}

func (l *memListener) Addr() net.Addr { return memAddr("listener") }

type memAddr string

func (memAddr) Network() string  { return "tcp" }
func (a memAddr) String() string { return string(a) }
