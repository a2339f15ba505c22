package simrt

import (
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

// Net is the simulated network: named listeners and stream connections.
type Net struct {
	S     *Sim
	Ln    map[string]*Listener
	Conns []*Conn
	// MaxDelay bounds per-segment latency.
	MaxDelay time.Duration
	Cap      int
}

// NewNet makes an empty network.
func NewNet(s *Sim) *Net {
	return &Net{S: s, Ln: map[string]*Listener{}, Cap: 1 << 16}
}

type addr string

func (a addr) Network() string { return "sim" }
func (a addr) String() string  { return string(a) }

type segment struct {
	b   []byte
	at  time.Duration
	fin bool
}

// Conn is one end of a stream connection.
type Conn struct {
	n       *Net
	name    string
	peer    *Conn
	in      []byte // delivered, readable
	flight  []segment
	fin     bool // peer's end of stream delivered
	closed  bool
	reset   bool
	waiters []*G
	rdl     time.Duration
	wdl     time.Duration
	rdlSet  bool
	wdlSet  bool
	Sent    int64
	Stalled bool // nothing is delivered to this end while set
	lastAt  time.Duration
	WErr    error // injected: every write fails
	Written []byte
	Got     []byte // what was read from this end
}

// Pipe makes a connection.
func (n *Net) Pipe(a, b string) (*Conn, *Conn) {
	x := &Conn{n: n, name: a}
	y := &Conn{n: n, name: b}
	x.peer, y.peer = y, x
	n.Conns = append(n.Conns, x, y)
	return x, y
}

func (c *Conn) wakeAll() {
	w := c.waiters
	c.waiters = nil
	for _, g := range w {
		c.n.S.Ready(g)
	}
}

func (c *Conn) wait(why string) {
	c.waiters = append(c.waiters, c.n.S.Cur())
	c.n.S.Block(why)
}

// pump moves segments that have arrived into the readable buffer.
func (c *Conn) pump() {
	if c.Stalled {
		return
	}
	for len(c.flight) > 0 && c.flight[0].at <= c.n.S.Now {
		sg := c.flight[0]
		c.flight = c.flight[1:]
		if sg.fin {
			c.fin = true
		} else {
			c.in = append(c.in, sg.b...)
		}
	}
	c.wakeAll()
	c.peer.wakeAll()
}

// SetStall stops or resumes delivery towards this end (partition and heal).
func (c *Conn) SetStall(on bool) {
	c.Stalled = on
	c.n.S.Note("net stall %s %v", c.name, on)
	if !on {
		c.pump()
	}
}

func (c *Conn) send(sg segment) {
	d := time.Duration(0)
	if c.n.MaxDelay > 0 {
		d = time.Duration(c.n.S.Choose("net-delay", 8, 0.5)) * c.n.MaxDelay / 8
		if d > 0 {
			c.n.S.Fired["net-delay"]++
		}
	}
	at := c.n.S.Now + d
	if at < c.lastAt { // a stream never reorders
		at = c.lastAt
	}
	c.lastAt = at
	sg.at = at
	p := c.peer
	p.flight = append(p.flight, sg)
	if at <= c.n.S.Now {
		p.pump()
	} else {
		c.n.S.AddTimer(at-c.n.S.Now, func() { p.pump() })
	}
}

// Read returns whatever part of the delivered bytes the simulator chooses.
func (c *Conn) Read(b []byte) (int, error) {
	s := enter()
	s.SyncPoint("net-read")
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "sim", Err: net.ErrClosed}
		}
		if c.reset {
			return 0, &net.OpError{Op: "read", Net: "sim", Err: syscall.ECONNRESET}
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.rdlSet && s.Now >= c.rdl {
			return 0, &net.OpError{Op: "read", Net: "sim", Err: os.ErrDeadlineExceeded}
		}
		if len(c.in) > 0 {
			n := len(c.in)
			if n > len(b) {
				n = len(b)
			}
			if n > 1 {
				s.Offered["net-short-read"]++
				if k := s.Choose("net-short-read", n, s.FaultP["net-short-read"]); k > 0 {
					s.Fired["net-short-read"]++
					n = k
				}
			}
			copy(b, c.in[:n])
			c.Got = append(c.Got, c.in[:n]...)
			c.in = c.in[n:]
			c.wakeAll()
			c.peer.wakeAll()
			s.Note("net-read %s %d", c.name, n)
			return n, nil
		}
		if c.fin {
			return 0, io.EOF
		}
		c.wait("net read " + c.name)
	}
}

// Busy tells whether something is on its way.
func (n *Net) Busy() bool {
	for _, c := range n.Conns {
		if len(c.flight) > 0 && !c.Stalled {
			return true
		}
	}
	return false
}

func (c *Conn) buffered() int {
	n := len(c.in)
	for _, f := range c.flight {
		n += len(f.b)
	}
	return n
}

// Write queues bytes towards the peer, splitting them as the simulator likes.
func (c *Conn) Write(b []byte) (int, error) {
	s := enter()
	s.SyncPoint("net-write")
	total := 0
	for {
		if c.closed {
			return total, &net.OpError{Op: "write", Net: "sim", Err: net.ErrClosed}
		}
		if c.reset || c.peer.closed && c.Sent > 0 {
			return total, &net.OpError{Op: "write", Net: "sim", Err: syscall.EPIPE}
		}
		if c.WErr != nil {
			return total, c.WErr
		}
		if c.wdlSet && s.Now >= c.wdl {
			return total, &net.OpError{Op: "write", Net: "sim", Err: os.ErrDeadlineExceeded}
		}
		if len(b) == 0 {
			return total, nil
		}
		room := c.n.Cap - c.peer.buffered()
		if room <= 0 {
			s.Probe("net-backpressure")
			c.wait("net write " + c.name)
			continue
		}
		n := len(b)
		if n > room {
			n = room
		}
		if n > 1 {
			s.Offered["net-split"]++
			if k := s.Choose("net-split", n, s.FaultP["net-split"]); k > 0 {
				s.Fired["net-split"]++
				n = k
			}
		}
		c.Sent += int64(n)
		c.Written = append(c.Written, b[:n]...)
		if !c.peer.closed {
			c.send(segment{b: append([]byte{}, b[:n]...)})
		}
		total += n
		b = b[n:]
		s.Note("net-write %s %d", c.name, n)
		if len(b) == 0 {
			return total, nil
		}
		s.SyncPoint("net-write")
	}
}

// Close closes this end; the peer reads what was sent and then end of stream.
func (c *Conn) Close() error {
	s := enter()
	s.SyncPoint("net-close")
	if c.closed {
		return &net.OpError{Op: "close", Net: "sim", Err: net.ErrClosed}
	}
	c.closed = true
	s.Note("net-close %s", c.name)
	if !c.reset {
		c.send(segment{fin: true})
	}
	c.wakeAll()
	c.peer.wakeAll()
	return nil
}

// Reset breaks the connection: both ends fail, bytes in flight are lost.
func (c *Conn) Reset() {
	c.n.S.Note("net-reset %s", c.name)
	for _, x := range []*Conn{c, c.peer} {
		x.reset = true
		x.flight = nil
		x.in = nil
		x.wakeAll()
	}
}

// Kill is what the kernel does to a dead process's connection.
func (c *Conn) Kill() {
	if !c.closed {
		c.closed = true
		if !c.reset {
			c.send(segment{fin: true})
		}
		c.wakeAll()
		c.peer.wakeAll()
	}
}

// Closed reports whether this end was closed.
func (c *Conn) Closed() bool { return c.closed }

// Drained reports whether everything sent to this end was read.
func (c *Conn) Drained() bool { return len(c.in) == 0 && len(c.flight) == 0 }

func (c *Conn) LocalAddr() net.Addr  { return addr(c.name) }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.peer.name) }

func (c *Conn) deadline(t time.Time) (time.Duration, bool) {
	if t.IsZero() {
		return 0, false
	}
	d := t.Sub(c.n.S.Epoch)
	c.n.S.AddTimer(d-c.n.S.Now, func() { c.wakeAll() })
	return d, true
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.rdl, c.rdlSet = c.deadline(t)
	c.wdl, c.wdlSet = c.rdl, c.rdlSet
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rdl, c.rdlSet = c.deadline(t)
	c.wakeAll()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.wdl, c.wdlSet = c.deadline(t)
	c.wakeAll()
	return nil
}

// Listener accepts simulated connections.
type Listener struct {
	n       *Net
	a       string
	q       []*Conn
	closed  bool
	waiters []*G
}

// Listen registers a listener.
func (n *Net) Listen(a string) (*Listener, error) {
	s := enter()
	s.SyncPoint("listen")
	if n.Ln[a] != nil {
		return nil, &net.OpError{Op: "listen", Net: "sim", Err: syscall.EADDRINUSE}
	}
	l := &Listener{n: n, a: a}
	n.Ln[a] = l
	return l, nil
}

// Dial connects to a listener.
func (n *Net) Dial(a string) (net.Conn, error) {
	s := enter()
	s.SyncPoint("dial")
	l := n.Ln[a]
	if l == nil || l.closed {
		return nil, &net.OpError{Op: "dial", Net: "sim", Err: syscall.ECONNREFUSED}
	}
	x, y := n.Pipe("cli", "svr")
	l.q = append(l.q, y)
	l.wake()
	return x, nil
}

func (l *Listener) wake() {
	w := l.waiters
	l.waiters = nil
	for _, g := range w {
		l.n.S.Ready(g)
	}
}

// Accept waits for a connection.
func (l *Listener) Accept() (net.Conn, error) {
	s := enter()
	s.SyncPoint("accept")
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "sim", Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		l.waiters = append(l.waiters, s.Cur())
		s.Block("accept")
	}
}

// Close stops listening.
func (l *Listener) Close() error {
	s := enter()
	s.SyncPoint("ln-close")
	if l.closed {
		return errors.New("use of closed network connection")
	}
	l.closed = true
	delete(l.n.Ln, l.a)
	l.wake()
	return nil
}

// Addr is the listening address.
func (l *Listener) Addr() net.Addr { return addr(l.a) }
