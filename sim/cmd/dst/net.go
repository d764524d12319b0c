package main

import (
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
	"unsafe"

	simnet "verifsim/shim/net"
	simtime "verifsim/shim/time"
	"verifsim/simrt"
)

// Conn is a simulated TCP connection; it implements net.Conn for the client.
type Conn struct {
	w  *World
	id int // ordinal of the successful dial

	// client to server
	sent      int64 // bytes accepted from the client
	srvAvail  int64 // bytes arrived at the server
	consumed  int64 // bytes the server has read
	lastArr   int64
	pbuf      []byte // not yet parsed
	pstart    int64  // stream offset of pbuf[0]
	pseq      uint64 // sequence number of the first byte in pbuf
	cmds      []*Cmd
	parseBad  bool
	malformed bool   // statistics: an answer on it was malformed
	raw       []byte // first bytes of the stream (for the handshake check)
	nextCmd   int    // next command the server executes
	stallTil  int64  // server does not process before this time
	procEv    bool
	authed    bool

	// server to client
	out     int64 // response bytes produced
	rx      []byte
	rxRead  int64 // response bytes returned by Read
	rxErr   error
	lastDel int64
	rxHist  []byte // bytes handed to the client (bounded)
	repEnds []int64
	repRead int // replies completely read

	blackhole bool
	srvClosed bool // the server has closed or reset
	srvGone   bool
	finRecv   bool // the client's FIN has arrived

	rdl, wdl int64 // deadlines, 0 none
	rdq, wrq simrt.Waitq

	closed    bool // by the client
	closeSeq  uint64
	closeT    int64
	dialT     int64
	errSeenT  int64 // first error returned to the client by Read or Write
	errSeen   error
	errSent   int64 // bytes sent at that time
	errRead   int64 // bytes read at that time
	tainted   bool  // the server sent bytes nobody asked for
	faulted   bool  // a fault was injected on it
	faultT    int64
	nWrite    int64
	nRead     int64
	nCmd      int64
	ndl       int64
	raceVar   int64
	maxOut    int // unanswered commands, maximum
	stats     *statsConn
	lastUseT  int64
	wroteLast int64
	authState int // 0 not needed, 1 waiting, 2 accepted, 3 refused
	authDone  int64
	authHang  bool
	bytes     bool // the server sends arbitrary bytes on it
	dialG     int
	initial   bool // dialed by New

	tcp      bool  // handed out as a *net.TCPConn
	handed   bool  // the dial has returned it
	kaOn     bool  // keep-alive
	kaPeriod int64 //
	nOpt     int64
	optErr   bool // setting a socket option has failed
	reading  int64
	writing  int64
	used     bool // read or written by the library after the dial
	outer    *outerRec
}

// use is called when the library reads from or writes to the connection.
func (c *Conn) use() {
	if c.used || !c.handed {
		return
	}
	c.used = true
	w := c.w
	if c.optErr {
		// not a failed dial then: the client goes on without keep-alive
		if o := c.outer; o != nil && o.err != nil {
			o.err = nil
			w.failedDials--
		}
		return
	}
	if c.tcp {
		w.probe("keepalive_checked")
		if want := w.plan.Cfg.keepAlive(); !c.kaOn || c.kaPeriod != want {
			w.violate("C20", "keepalive", simrt.Sprintf("conn%d is used with keep-alive %v, period %d ms; configured: %d ms", c.id, c.kaOn, c.kaPeriod/ms, want/ms))
		}
	}
}

// SockOpt implements shim/net.SockOpts.
func (c *Conn) SockOpt(name string, v int64) error {
	simrt.Yield()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	w := c.w
	c.nOpt++
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if f.used || f.On != "sockopt" || (f.Conn >= 0 && f.Conn != c.id) || c.nOpt != f.N {
			continue
		}
		w.fire(f, c)
		err := opErr("set", syscall.EINVAL)
		w.optFailed(c, err)
		return err
	}
	switch name {
	case "keepalive":
		c.kaOn = v != 0
	case "keepalive_period":
		c.kaPeriod = v
	}
	return nil
}

// optFailed: the connection is no use to the client, which either counts the dial as
// failed and closes the connection, or uses it all the same.
func (w *World) optFailed(c *Conn, err error) {
	c.optErr = true
	o := c.outer
	if o == nil || o.err != nil {
		return
	}
	o.err, o.end = err, simrt.Now()
	w.failedDials++
	w.dialFailed(o)
	d := sec
	for _, s := range w.plan.Sched.Stalls {
		d += s.Dur
	}
	var check func()
	check = func() {
		if c.closed || c.used || w.settling || w.over {
			return
		}
		if simrt.Busy() {
			simrt.After(10*ms, check)
			return
		}
		msg := simrt.Sprintf("conn%d is neither used nor closed after its keep-alive option could not be set", c.id)
		w.violate("C18", "leak", msg)
		w.violate("C20", "leak", msg)
	}
	simrt.After(d, check)
}

// timely is called when a Read or Write that began at t0 has had to wait; it checks
// the configured timeout.
func (c *Conn) timely(what string, t0, timeout int64, expired bool) {
	w := c.w
	if !c.handed || !w.on("C20") || !w.timed() {
		return
	}
	w.probe("timeout_checked")
	took := simrt.Now() - t0
	if expired && took < timeout-100*ms {
		w.violate("C20", "early-timeout", simrt.Sprintf("conn%d: a %s failed with a timeout after %d ms; configured: %d ms", c.id, what, took/ms, timeout/ms))
	}
	if took > timeout+100*ms {
		w.violate("C20", "late-timeout", simrt.Sprintf("conn%d: a %s waited for %d ms; the configured timeout is %d ms", c.id, what, took/ms, timeout/ms))
	}
}

// watch reports a Read or Write that goes on far beyond its timeout.
func (c *Conn) watch(what string, t0, timeout int64, on *int64) {
	w := c.w
	if !c.handed || !w.on("C20") || !w.timed() {
		return
	}
	n := *on
	simrt.After(timeout+200*ms, func() {
		if *on == n && !c.closed {
			c.timely(what, t0, timeout, false)
		}
	})
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr  { return simAddr("client") }
func (c *Conn) RemoteAddr() net.Addr { return simAddr("server") }

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func (c *Conn) block(q *simrt.Waitq, deadline int64, why string) {
	e := q.Enqueue()
	var tm *simrt.SimTimer
	if deadline > 0 {
		tm = simrt.After(deadline-simrt.Now(), func() { q.WakeAll() })
	}
	e.Wait(why)
	tm.Stop()
}

func (c *Conn) sawErr(err error) {
	if errors.Is(err, os.ErrDeadlineExceeded) {
		c.w.sawTimeout = true
	}
	if c.errSeen == nil {
		c.errSeen = err
		c.errSeenT = simrt.Now()
		c.errSent = c.sent
		c.errRead = c.rxRead
	}
}

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	simrt.Yield()
	w := c.w
	c.nRead++
	w.lastNet = simrt.Now()
	if c.closed {
		return 0, opErr("read", net.ErrClosed)
	}
	c.use()
	t0, waited := simrt.Now(), false
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if f.used || f.On != "read" || (f.Conn >= 0 && f.Conn != c.id) || c.nRead != f.N {
			continue
		}
		switch f.Do {
		case "rerr":
			w.fire(f, c)
			err := opErr("read", syscall.EIO)
			c.sawErr(err)
			return 0, err
		default:
			w.connFault(f, c)
		}
	}
	for {
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		now := simrt.Now()
		if c.rdl > 0 && now >= c.rdl {
			err := opErr("read", os.ErrDeadlineExceeded)
			c.sawErr(err)
			w.tr("conn%d read: timeout", c.id)
			c.timely("read", t0, w.plan.Cfg.rto(), true)
			return 0, err
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.rx) > 0 {
			n := len(c.rx)
			if n > len(p) {
				n = len(p)
			}
			if n > 1 {
				if k := simrt.Choose(simrt.StreamNet, n, w.plan.Net.ReadPM); k > 0 {
					n = k
					w.probe("short_read")
				}
			}
			raceWriteRange(p[:n])
			copy(p, c.rx[:n])
			simrt.Acquire(unsafe.Pointer(&c.raceVar))
			c.rx = c.rx[n:]
			c.rxRead += int64(n)
			simrt.Note(uint64(c.id)+1, uint64(n))
			for c.repRead < len(c.repEnds) && c.repEnds[c.repRead] <= c.rxRead {
				c.repRead++
			}
			w.tr("conn%d read: %d bytes", c.id, n)
			w.srvPump(c)
			return n, nil
		}
		if c.rxErr != nil {
			c.sawErr(c.rxErr)
			simrt.Note(uint64(c.id)+2001, uint64(c.rxRead))
			w.tr("conn%d read: %v", c.id, c.rxErr)
			if c.rxErr == io.EOF {
				return 0, io.EOF
			}
			return 0, opErr("read", c.rxErr)
		}
		if !waited {
			waited = true
			c.reading++
			c.watch("read", t0, w.plan.Cfg.rto(), &c.reading)
			defer func() { c.reading++ }()
		}
		c.block(&c.rdq, c.rdl, "conn read")
	}
}

// Write implements net.Conn.
func (c *Conn) Write(p []byte) (int, error) {
	simrt.Yield()
	w := c.w
	c.nWrite++
	w.lastNet = simrt.Now()
	c.wroteLast = simrt.Now()
	limit := -1
	var lerr error
	if c.closed {
		return 0, opErr("write", net.ErrClosed)
	}
	c.use()
	t0, waited := simrt.Now(), false
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if f.used || f.On != "write" || (f.Conn >= 0 && f.Conn != c.id) || c.nWrite != f.N {
			continue
		}
		switch f.Do {
		case "werr": // nothing or a prefix is written, then an error
			w.fire(f, c)
			limit = int(f.Arg)
			if limit > len(p) {
				limit = len(p)
			}
			lerr = syscall.EPIPE
		default:
			w.connFault(f, c)
		}
	}
	done := 0
	for {
		if c.closed {
			return done, opErr("write", net.ErrClosed)
		}
		now := simrt.Now()
		if c.wdl > 0 && now >= c.wdl {
			err := opErr("write", os.ErrDeadlineExceeded)
			c.sawErr(err)
			w.probe("write_timeout")
			c.timely("write", t0, w.plan.Cfg.wto(), true)
			return done, err
		}
		if c.srvGone {
			err := opErr("write", syscall.EPIPE)
			c.sawErr(err)
			return done, err
		}
		rest := p[done:]
		if limit >= 0 {
			if limit-done <= 0 {
				err := opErr("write", lerr)
				c.sawErr(err)
				return done, err
			}
			rest = rest[:limit-done]
		}
		room := int64(w.plan.Net.Win) - (c.sent - c.consumed)
		if w.plan.Net.Win == 0 {
			room = 1 << 30
		}
		if room > 0 && len(rest) > 0 {
			n := int64(len(rest))
			if n > room {
				n = room
				w.probe("window_full")
			}
			raceReadRange(rest[:n])
			simrt.ReleaseMerge(unsafe.Pointer(&c.raceVar))
			c.accept(rest[:n])
			done += int(n)
			simrt.Note(uint64(c.id)+1001, uint64(n))
		}
		if done == len(p) {
			return done, nil
		}
		if limit >= 0 && done >= limit {
			continue
		}
		if !waited {
			waited = true
			c.writing++
			c.watch("write", t0, w.plan.Cfg.wto(), &c.writing)
			defer func() { c.writing++ }()
		}
		c.block(&c.wrq, c.wdl, "conn write")
	}
}

// accept takes bytes from the client into the network.
func (c *Conn) accept(p []byte) {
	w := c.w
	if w.closedRet {
		w.violate("C08", "sent-after-close", simrt.Sprintf("%d bytes were sent on conn%d after Close had returned", len(p), c.id))
	}
	if c.pseq == 0 || len(c.pbuf) == 0 {
		c.pseq = simrt.Seq()
	}
	c.sent += int64(len(p))
	if len(c.raw) < 4096 {
		c.raw = append(c.raw, p...)
	}
	c.pbuf = append(c.pbuf, p...)
	w.parseWire(c)
	if c.blackhole {
		return
	}
	end := c.sent
	at := simrt.Now() + w.latency()
	if at < c.lastArr {
		at = c.lastArr
	}
	c.lastArr = at
	simrt.After(at-simrt.Now(), func() {
		if c.blackhole {
			return
		}
		c.srvAvail = end
		if c.srvClosed {
			// data for a closed socket is answered by a reset
			if !c.closed {
				simrt.After(w.latency(), func() { w.deliverErr(c, syscall.ECONNRESET, true) })
			}
			return
		}
		w.srvPump(c)
	})
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	simrt.Yield()
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.closeSeq = simrt.Seq()
	c.closeT = simrt.Now()
	w := c.w
	w.open--
	w.tr("conn%d closed by the client", c.id)
	if !w.closing && !c.faulted && c.errSeen == nil {
		w.spontaneous++
	}
	c.rdq.WakeAll()
	c.wrq.WakeAll()
	if !c.blackhole && !c.srvClosed {
		at := simrt.Now() + w.latency()
		if at < c.lastArr {
			at = c.lastArr
		}
		c.lastArr = at
		simrt.After(at-simrt.Now(), func() { c.finRecv = true; w.srvPump(c) })
	}
	if e := w.plan.Net.CloseEr; e == 1 || e == 2 && c.errSeen != nil { // as TLS connections do
		w.probe("close_returned_error")
		return opErr("close", syscall.EPIPE)
	}
	return nil
}

func (c *Conn) setDL(rd, wr bool, t time.Time) error {
	simrt.Yield()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.ndl++
	for i := range c.w.plan.Faults {
		f := &c.w.plan.Faults[i]
		if f.used || f.On != "deadline" || (f.Conn >= 0 && f.Conn != c.id) || c.ndl != f.N {
			continue
		}
		c.w.fire(f, c)
		err := opErr("set", syscall.EBADF)
		c.sawErr(err)
		return err
	}
	var v int64
	if !t.IsZero() {
		v = simtime.SimNanos(t)
		if v <= 0 {
			v = 1
		}
	}
	if rd {
		c.rdl = v
		c.rdq.WakeAll()
	}
	if wr {
		c.wdl = v
		c.wrq.WakeAll()
	}
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error      { return c.setDL(true, true, t) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.setDL(true, false, t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setDL(false, true, t) }

// ---- the network ----

func (w *World) latency() int64 {
	n := &w.plan.Net
	l := n.Lat
	if n.Jit > 0 {
		l += int64(simrt.Choose(simrt.StreamNet, 16, n.JitPM)) * n.Jit / 16
	}
	return l
}

// deliver sends response bytes to the client, cut into segments.
func (w *World) deliver(c *Conn, b []byte) {
	c.out += int64(len(b))
	if c.blackhole || c.closed && len(b) > 1<<16 {
		return
	}
	n := &w.plan.Net
	parts := 0
	for len(b) > 0 {
		k := len(b)
		if k > 1 && parts < 40 && n.SplitPM > 0 {
			sz := n.SplitSz
			if sz < 1 {
				sz = 1
			}
			lim := k
			if sz*2 < lim {
				lim = sz * 2
			}
			if v := simrt.Choose(simrt.StreamNet, lim, n.SplitPM); v > 0 {
				k = v
				w.probe("segment_split")
			}
		}
		parts++
		seg := append([]byte(nil), b[:k]...)
		b = b[k:]
		at := simrt.Now() + w.latency()
		if at < c.lastDel {
			at = c.lastDel
		}
		c.lastDel = at
		simrt.After(at-simrt.Now(), func() {
			if c.blackhole || c.rxErr != nil || c.closed {
				return
			}
			c.rx = append(c.rx, seg...)
			c.rdq.WakeAll()
		})
	}
}

func (w *World) deliverErr(c *Conn, err error, drop bool) {
	if c.blackhole {
		return
	}
	if c.rxErr == nil || err != io.EOF {
		c.rxErr = err
		if err != io.EOF {
			c.srvGone = true
			if drop {
				c.rx = nil
			}
		}
	}
	c.rdq.WakeAll()
	c.wrq.WakeAll()
}

// reset breaks the connection: the client sees ECONNRESET.
func (w *World) reset(c *Conn, drop bool) {
	if c.srvClosed && c.srvGone {
		return
	}
	c.srvClosed = true
	simrt.After(w.latency(), func() { w.deliverErr(c, syscall.ECONNRESET, drop) })
}

// fin closes the connection from the server's side after everything sent so far.
func (w *World) fin(c *Conn) {
	if c.srvClosed {
		return
	}
	c.srvClosed = true
	at := simrt.Now() + w.latency()
	if at < c.lastDel {
		at = c.lastDel
	}
	c.lastDel = at
	simrt.After(at-simrt.Now(), func() { w.deliverErr(c, io.EOF, false) })
}

func (w *World) setBlackhole(c *Conn) {
	c.blackhole = true
	c.srvClosed = true
}

// ---- dialing ----

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type dialRec struct {
	n        int
	start    int64
	end      int64
	g        int
	err      error
	conn     *Conn
	byteOff  int
	startSeq uint64
	outer    *outerRec
}

// dial is the DialFunc given to the client.
// refuseErr is the error of a dial that fails at once.
func (w *World) refuseErr(address string) error {
	switch w.plan.Net.Refuse {
	case 1: // e.g. from a proxy or the kernel after earlier attempts
		return &net.OpError{Op: "dial", Net: "tcp", Err: timeoutErr{}}
	case 2:
		return &net.OpError{Op: "dial", Net: "tcp", Err: syscall.EHOSTUNREACH}
	case 3:
		return &net.DNSError{Err: "server misbehaving", Name: address, IsTemporary: true}
	case 4:
		return io.EOF
	}
	return &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
}

func (w *World) dial(network, address string, timeout time.Duration) (net.Conn, error) {
	simrt.Yield()
	d := &dialRec{n: len(w.dials) + 1, start: simrt.Now(), g: simrt.Cur().ID, startSeq: simrt.Seq()}
	w.dials = append(w.dials, d)
	w.dialing++
	w.tr("dial #%d", d.n)
	if w.closedRet {
		w.violate("C08", "dial-after-close", "a connection was dialed after Close had returned")
	}
	if w.open+w.dialing > w.plan.Cfg.Conns && w.plan.Cfg.Conns > 0 {
		w.violate("C18", "too-many-connections", simrt.Sprintf("dial #%d starts while %d connections are open and %d other dials are in progress; the pool has %d connections", d.n, w.open, w.dialing-1, w.plan.Cfg.Conns))
	}
	refuse, hang := false, false
	delay := w.plan.Net.DialLat
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if f.On != "dial" || f.used || int64(d.n) != f.N {
			continue
		}
		switch f.Do {
		case "refuse":
			refuse = true
		case "hang":
			hang = true
		case "slow":
			delay += f.Dur
		default:
			continue
		}
		w.fire(f, nil)
	}
	fail := func(err error) (net.Conn, error) {
		w.dialing--
		d.end, d.err = simrt.Now(), err
		w.tr("dial #%d failed: %v", d.n, err)
		return nil, err
	}
	if simrt.Now() < w.downTil {
		if w.downHang {
			hang = true
		} else {
			refuse = true
		}
	}
	if hang {
		if timeout <= 0 { // no timeout: the dial never ends
			q := &simrt.Waitq{}
			q.Enqueue().Wait("dial without a timeout")
		}
		simrt.Sleep(int64(timeout))
		return fail(&net.OpError{Op: "dial", Net: "tcp", Err: timeoutErr{}})
	}
	if delay > 0 {
		if timeout > 0 && delay >= int64(timeout) {
			simrt.Sleep(int64(timeout))
			return fail(&net.OpError{Op: "dial", Net: "tcp", Err: timeoutErr{}})
		}
		simrt.Sleep(delay)
		if simrt.Now() < w.downTil {
			refuse = true
		}
	}
	if refuse {
		if w.closing {
			// while Close is in progress the client redials without a pause; no
			// refusal arrives in no time
			simrt.Sleep(200 * us)
		}
		return fail(w.refuseErr(address))
	}
	c := &Conn{w: w, id: len(w.conns), dialT: simrt.Now(), dialG: d.g, initial: w.client == nil}
	w.conns = append(w.conns, c)
	w.dialing--
	w.open++
	if w.open > w.maxOpen {
		w.maxOpen = w.open
	}
	d.end, d.conn = simrt.Now(), c
	if w.plan.Cfg.Auth {
		c.authState = 1
	}
	w.srvAccept(c)
	w.tr("dial #%d succeeded: conn%d", d.n, c.id)
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if f.used || f.On != "conn" || f.Conn != c.id {
			continue
		}
		simrt.After(f.N, func() {
			if !f.used {
				w.connFault(f, c)
			}
		})
	}
	if w.plan.Cfg.Dial > 0 {
		c.tcp = true
		return simnet.NewTCPConn(c), nil
	}
	return c, nil
}
