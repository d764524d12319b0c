package net

import (
	"errors"
	rt "net"
	"syscall"
	"time"
)

// DialHook is the simulated network behind Dial, DialTimeout and Dialer.
var DialHook func(network, address string, timeout time.Duration) (rt.Conn, error)

// SockOpts is implemented by the simulated connections.
type SockOpts interface {
	// SockOpt is told about every socket option; its error is that of the system call.
	SockOpt(name string, value int64) error
}

var errNoNet = errors.New("simulated net: no network")

// Dial is net.Dial.
func Dial(network, address string) (rt.Conn, error) { return DialTimeout(network, address, 0) }

// DialTimeout is net.DialTimeout.
func DialTimeout(network, address string, timeout time.Duration) (rt.Conn, error) {
	if DialHook == nil {
		return nil, &rt.OpError{Op: "dial", Net: network, Err: errNoNet}
	}
	c, err := DialHook(network, address, timeout)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// TCPConn is net.TCPConn: a simulated connection with socket options.
type TCPConn struct{ rt.Conn }

// NewTCPConn makes a TCPConn of a simulated connection.
func NewTCPConn(c rt.Conn) *TCPConn { return &TCPConn{c} }

func (c *TCPConn) opt(name string, v int64) error {
	if o, ok := c.Conn.(SockOpts); ok {
		return o.SockOpt(name, v)
	}
	return nil
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (c *TCPConn) SetKeepAlive(on bool) error { return c.opt("keepalive", b2i(on)) }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error {
	return c.opt("keepalive_period", int64(d))
}

// SetKeepAliveConfig sets both at once.
func (c *TCPConn) SetKeepAliveConfig(k rt.KeepAliveConfig) error {
	if err := c.opt("keepalive", b2i(k.Enable)); err != nil || !k.Enable {
		return err
	}
	if k.Interval > 0 {
		return c.opt("keepalive_period", int64(k.Interval))
	}
	if k.Idle > 0 {
		return c.opt("keepalive_period", int64(k.Idle))
	}
	return nil
}

func (c *TCPConn) SetNoDelay(on bool) error    { return c.opt("nodelay", b2i(on)) }
func (c *TCPConn) SetLinger(sec int) error     { return c.opt("linger", int64(sec)) }
func (c *TCPConn) SetReadBuffer(n int) error   { return c.opt("rcvbuf", int64(n)) }
func (c *TCPConn) SetWriteBuffer(n int) error  { return c.opt("sndbuf", int64(n)) }
func (c *TCPConn) MultipathTCP() (bool, error) { return false, nil }
func (c *TCPConn) SyscallConn() (syscall.RawConn, error) {
	return nil, errors.New("simulated net: no system calls")
}

// Context is the part of context.Context that Dialer uses.
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() <-chan struct{}
	Err() error
	Value(key any) any
}

// Now is the simulated clock.
var Now func() time.Time

// Dialer is net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       rt.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig rt.KeepAliveConfig
	Resolver        *rt.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
}

func (d *Dialer) limit(t time.Duration, at time.Time) time.Duration {
	if at.IsZero() {
		return t
	}
	l := at.Sub(Now())
	if l <= 0 {
		l = 1
	}
	if t == 0 || l < t {
		return l
	}
	return t
}

// Dial is net.Dialer.Dial.
func (d *Dialer) Dial(network, address string) (rt.Conn, error) {
	return d.dial(d.limit(d.Timeout, d.Deadline), network, address)
}

func (d *Dialer) dial(t time.Duration, network, address string) (rt.Conn, error) {
	c, err := DialTimeout(network, address, t)
	if err != nil {
		return nil, err
	}
	if tc, ok := c.(*TCPConn); ok {
		switch k := d.KeepAliveConfig; {
		case k.Enable:
			_ = tc.SetKeepAliveConfig(k)
		case d.KeepAlive >= 0:
			p := d.KeepAlive
			if p == 0 {
				p = 15 * time.Second
			}
			_ = tc.SetKeepAlive(true)
			_ = tc.SetKeepAlivePeriod(p)
		}
	}
	return c, nil
}

// DialContext is net.Dialer.DialContext; the context ends a dial only by its deadline.
func (d *Dialer) DialContext(ctx Context, network, address string) (rt.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, &rt.OpError{Op: "dial", Net: network, Err: err}
	}
	t := d.limit(d.Timeout, d.Deadline)
	if at, ok := ctx.Deadline(); ok {
		t = d.limit(t, at)
	}
	return d.dial(t, network, address)
}

// DialTCP is net.DialTCP.
func DialTCP(network string, laddr, raddr *rt.TCPAddr) (*TCPConn, error) {
	c, err := DialTimeout(network, raddr.String(), 0)
	if err != nil {
		return nil, err
	}
	if tc, ok := c.(*TCPConn); ok {
		return tc, nil
	}
	return NewTCPConn(c), nil
}
