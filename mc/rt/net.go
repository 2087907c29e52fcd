package rt

import (
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

type netState struct {
	listeners []*Listener
	nextPort  int
	conns     int
	all       []*Conn
}

func newNet() *netState { return &netState{nextPort: 40000} }

// Listener is the in-memory listener.
type Listener struct {
	port    int
	addr    string
	network string
	queue   []*Conn
	closed  bool
	errs    []error
}

func portOf(address string) int {
	i := strings.LastIndexByte(address, ':')
	if i < 0 {
		return -1
	}
	p, err := strconv.Atoi(address[i+1:])
	if err != nil {
		return -1
	}
	return p
}

func tcpAddr(port int) net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port} }

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

// Listen opens an in-memory listener; a port in use is refused as by the system.
func Listen(network, address string) (net.Listener, error) {
	if w == nil {
		return net.Listen(network, address)
	}
	Point("listen", nil)
	if !strings.HasPrefix(network, "tcp") {
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	port := portOf(address)
	if port < 0 || port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: address}}
	}
	ns := w.net
	if port == 0 {
		ns.nextPort++
		port = ns.nextPort
	}
	for _, l := range ns.listeners {
		if !l.closed && l.port == port {
			return nil, &net.OpError{Op: "listen", Net: network, Addr: tcpAddr(port), Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	l := &Listener{port: port, addr: address, network: network}
	ns.listeners = append(ns.listeners, l)
	return l, nil
}

func (l *Listener) Addr() net.Addr { return tcpAddr(l.port) }

func (l *Listener) Accept() (net.Conn, error) {
	Point("accept", func() bool { return l.closed || len(l.queue) > 0 || len(l.errs) > 0 })
	if l.closed {
		return nil, opErr("accept", net.ErrClosed)
	}
	if len(l.errs) > 0 {
		e := l.errs[0]
		l.errs = l.errs[1:]
		return nil, opErr("accept", e)
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	c.Accepted = true
	return c, nil
}

func (l *Listener) Close() error {
	if Dying() {
		return nil
	}
	Point("listener close", nil)
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.closed = true
	for _, c := range l.queue {
		c.reset = true
	}
	l.queue = nil
	return nil
}

// SetDeadline exists so that a *net.TCPListener-like interface is satisfied.
func (l *Listener) SetDeadline(t time.Time) error { return nil }

type tempErr struct{}

func (tempErr) Error() string   { return "too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

// Conn is the server side of an in-memory connection; the methods in capitals below
// "peer side" are the terminal's.
type Conn struct {
	No       int
	port     int
	in       [][]byte // chunks not yet read
	peerFin  bool
	reset    bool
	closed   bool
	Accepted bool
	Writes   [][]byte // one entry per Write call
	Partial  bool
	stall    bool
	failAt   int // fail the write with this index (-1: never)
	short    int // bytes written by a failing write
	rdl, wdl int64
	Closes   int
	onWrite  func([]byte)
}

// WriteHook, if set, tells whether what the server writes is lost.
var WriteHook func() bool

var errReset = syscall.ECONNRESET

func (c *Conn) Read(p []byte) (int, error) {
	Point("read", func() bool {
		return c.closed || len(c.in) > 0 || c.peerFin || c.reset || len(p) == 0 || (c.rdl != 0 && now() >= c.rdl)
	})
	if c.closed {
		return 0, opErr("read", net.ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.rdl != 0 && now() >= c.rdl {
		return 0, opErr("read", os.ErrDeadlineExceeded)
	}
	if len(c.in) > 0 {
		n := copy(p, c.in[0])
		writeRange(unsafe.Pointer(&p[0]), n)
		if n == len(c.in[0]) {
			c.in = c.in[1:]
		} else {
			c.in[0] = c.in[0][n:]
		}
		return n, nil
	}
	if c.reset {
		return 0, opErr("read", errReset)
	}
	return 0, io.EOF
}

func (c *Conn) Write(p []byte) (int, error) {
	Point("write", func() bool {
		return c.closed || !c.stall || c.reset || c.peerFin || (c.wdl != 0 && now() >= c.wdl)
	})
	if len(p) > 0 {
		readRange(unsafe.Pointer(&p[0]), len(p))
	}
	if c.closed {
		return 0, opErr("write", net.ErrClosed)
	}
	if c.wdl != 0 && now() >= c.wdl {
		return 0, opErr("write", os.ErrDeadlineExceeded)
	}
	if c.reset || c.peerFin {
		return 0, opErr("write", syscall.EPIPE)
	}
	if WriteHook != nil && WriteHook() {
		return len(p), nil
	}
	q := make([]byte, len(p))
	copy(q, p)
	if c.failAt >= 0 && len(c.Writes) >= c.failAt {
		n := c.short
		if n > len(q) {
			n = len(q)
		}
		if n > 0 {
			c.Writes = append(c.Writes, q[:n])
			c.Partial = true
		}
		c.reset = true
		return n, opErr("write", errReset)
	}
	c.Writes = append(c.Writes, q)
	if c.onWrite != nil {
		c.onWrite(q)
	}
	return len(p), nil
}

func (c *Conn) Close() error {
	if Dying() {
		return nil
	}
	Point("conn close", nil)
	c.Closes++
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return tcpAddr(c.port) }
func (c *Conn) RemoteAddr() net.Addr { return tcpAddr(50000 + c.No) }

func ns(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	deadline(t.UnixNano())
	return t.UnixNano()
}

func (c *Conn) SetDeadline(t time.Time) error      { c.rdl = ns(t); c.wdl = c.rdl; return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl = ns(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = ns(t); return nil }

// TCP-specific setters, so that an implementation may assert for them.
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) CloseRead() error                       { return nil }
func (c *Conn) CloseWrite() error                      { return nil }

// ---- peer side (no scheduling points: the terminal acts within the harness step) ----

// Dial connects a terminal; nil if nobody listens.
func Dial(port int) *Conn {
	for _, l := range w.net.listeners {
		if !l.closed && l.port == port {
			c := &Conn{No: w.net.conns, port: port, failAt: -1}
			w.net.conns++
			w.net.all = append(w.net.all, c)
			l.queue = append(l.queue, c)
			return c
		}
	}
	return nil
}

// Listening tells whether a listener is open on port.
func Listening(port int) bool {
	for _, l := range w.net.listeners {
		if !l.closed && l.port == port {
			return true
		}
	}
	return false
}

// AcceptError makes the next Accept on port fail with a temporary error.
func AcceptError(port int) {
	for _, l := range w.net.listeners {
		if !l.closed && l.port == port {
			l.errs = append(l.errs, tempErr{})
		}
	}
}

// AcceptFatal makes the next Accept on port fail for good.
func AcceptFatal(port int) {
	for _, l := range w.net.listeners {
		if !l.closed && l.port == port {
			l.errs = append(l.errs, errors.New("listener broke"))
		}
	}
}

// PeerSend delivers one chunk (the server reads at most up to its end per read).
func (c *Conn) PeerSend(b []byte) {
	if len(b) == 0 || c.peerFin || c.reset {
		return
	}
	q := make([]byte, len(b))
	copy(q, b)
	c.in = append(c.in, q)
}

func (c *Conn) PeerClose()               { c.peerFin = true }
func (c *Conn) PeerReset()               { c.reset = true; c.in = nil }
func (c *Conn) PeerStall(on bool)        { c.stall = on }
func (c *Conn) PeerFailWrite(i, sh int)  { c.failAt = i; c.short = sh }
func (c *Conn) PeerOnWrite(f func([]byte)) { c.onWrite = f }

// ServerClosed tells whether the server closed the connection.
func (c *Conn) ServerClosed() bool { return c.closed }

// Unread is the number of chunks the server has not read.
func (c *Conn) Unread() int { return len(c.in) }

// Bytes is everything written so far.
func (c *Conn) Bytes() []byte {
	var out []byte
	for _, q := range c.Writes {
		out = append(out, q...)
	}
	return out
}
