package main

import (
	"bytes"
	"errors"
	"log"
	"net"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"

	simnet "verifsim/shim/net"
	simtime "verifsim/shim/time"
	"verifsim/simrt"
	"verifsim/user"
)

var errReset error = syscall.ECONNRESET

// OpRec is one call made on the client.
type OpRec struct {
	op     Op
	id     int
	kind   string
	script int
	pipe   *PipeRec
	sess   int
	key    string // as passed
	val    []byte // what the server must receive
	passed []byte // the slice given to the library
	cas    uint64

	issued   bool
	issueSeq uint64
	issueT   int64
	mayFlush uint64 // earliest moment it may be transmitted, 0: not yet
	mustSeq  uint64 // flush point that must transmit it, 0: none yet
	mustT    int64
	g        *simrt.G // the goroutine that called the flush point
	gBlocks  uint64
	flushRet uint64 // sequence number when that flush call returned
	afterCl  bool   // flushed after Close had returned
	befCl    bool   // its flush call returned before Close was called

	fnGet  func() (memcache.MGetResponse, error)
	fnSet  func() (memcache.MSetResponse, error)
	fnDel  func() (memcache.MDelResponse, error)
	fnVer  func() (memcache.VersionResponse, error)
	fnFA   func() error
	fast   memcache.MGetResult
	isFast bool
	fastE  error

	called    bool
	callT     int64
	done      bool
	retSeq    uint64
	retT      int64
	err       error
	get       memcache.MGetResponse
	set       memcache.MSetResponse
	del       memcache.MDelResponse
	ver       string
	verCpy    string
	errCpy    string
	held      []byte // returned slice, still owned by the caller
	heldCpy   []byte
	ret       string // the data when the call returned
	fastRel   bool
	blocked   bool // the result call had to wait for the network
	errConn   int
	spawnOpen int

	cmds []*Cmd // occurrences on the wire
}

// PipeRec is a pipeline.
type PipeRec struct {
	id    int
	p     *memcache.Pipeline
	ops   []*OpRec
	cur   []*OpRec // issued, in the current session
	sess  int
	publ  bool // the current session was flushed
	final int  // all ops with sess < final have final results
	conns map[*Conn]bool
	last  *Conn // the connection of its latest command
}

type pendCall struct {
	what string
	t0   int64
	seq  uint64
	op   *OpRec
}

// World is one simulated execution.
type World struct {
	foreign     []foreignMem
	plan        *Plan
	client      *memcache.Client
	srv         *Server
	conns       []*Conn
	dials       []*dialRec
	outers      []*outerRec
	open        int
	maxOpen     int
	dialing     int
	failedDials int
	logCalls    int
	logged      []string
	downTil     int64
	downHang    bool
	everHang    bool // some dial may have been left without an answer
	stallTil    int64
	lastNet     int64
	spontaneous int

	ops    opTab
	opList []*OpRec
	pipes  []*PipeRec
	pend   []*pendCall
	active int // running scripts
	doneQ  simrt.Waitq

	closing   bool
	closeSeq  uint64
	closeT    int64
	closedRet bool
	nClose    int

	fired      []probeCount
	probes     []probeCount
	trace      []string
	traceOn    bool
	joinVar    byte
	endT       int64
	mustCloseT int64
	settling   bool
	anyFault   bool
	lastFaultT int64

	onWireHook func(*Cmd)
	onExecHook func(*Cmd)

	doubtful   int // attributions of replies to calls that may be wrong
	wireN      int
	wireVer    int
	wireFA     int
	keepRaw    bool
	stat       *statsWorld
	statConns  map[*Conn]*statClient
	sizeTag    string
	nCalls     int
	nErrs      int
	nReplies   int
	linOps     int
	linRes     string
	budgetT    int64
	sawTimeout bool
	calm       bool // recovery phase: every call has to succeed
	bytesEnd   bool // the server behaves again
	exempt     map[*Conn]bool
	over       bool // the simulation has ended
	postFail   *simrt.Failure
}

func newWorld(p *Plan) *World {
	return &World{plan: p, srv: newServer(p.Seed)}
}

func (w *World) tr(format string, a ...any) {
	if !w.traceOn || len(w.trace) > 20000 {
		return
	}
	w.trace = append(w.trace, simrt.Sprintf("[%10.3fms #%d] ", float64(simrt.Now())/1e6, simrt.Steps())+simrt.Sprintf(format, a...))
}

// probe counts a rare condition (no map here: the race detector would check it).
func (w *World) probe(name string) { count(&w.probes, name) }

func count(l *[]probeCount, name string) {
	for i := range *l {
		if (*l)[i].name == name {
			(*l)[i].n++
			return
		}
	}
	*l = append(*l, probeCount{name, 1})
}

type probeCount struct {
	name string
	n    int
}

func countMap(l []probeCount) map[string]int {
	m := map[string]int{}
	for _, p := range l {
		m[p.name] = p.n
	}
	return m
}

// on reports whether the run decides property id.
func (w *World) on(id string) bool { return w.plan.Prop == id }

// violate reports a violation of property id; it is ignored in runs that decide another property.
func (w *World) violate(id, class, msg string) {
	if !w.on(id) {
		w.probe("other_" + id + "_" + class)
		return
	}
	w.failNow(class, msg)
}

func (w *World) failNow(class, msg string) {
	if w.over {
		if w.postFail == nil {
			w.postFail = &simrt.Failure{Class: class, Msg: msg}
		}
		return
	}
	w.tr("VIOLATION %s: %s", class, msg)
	if simrt.InHarness > 0 {
		simrt.FailAsync(class, msg)
		return
	}
	simrt.Fail(class, msg)
}

// ---- faults ----

func (w *World) fire(f *Fault, c *Conn) {
	f.used = true
	count(&w.fired, f.Do)
	id := -1
	if c != nil {
		id = c.id
	}
	w.tr("FAULT %s on conn%d", f.String(), id)
	if f.Do != "srverr" {
		w.anyFault = true
		w.lastFaultT = simrt.Now()
		if c != nil {
			w.connBroke(c)
		}
	}
}

func (w *World) connBroke(c *Conn) {
	if !c.faulted {
		c.faulted = true
		c.faultT = simrt.Now()
	}
}

// connFault applies a fault to a connection.
func (w *World) connFault(f *Fault, c *Conn) {
	w.fire(f, c)
	switch f.Do {
	case "reset":
		w.reset(c, f.Arg%2 == 1)
	case "fin":
		w.fin(c)
	case "blackhole":
		w.setBlackhole(c)
	case "stall":
		t := simrt.Now() + f.Dur
		if t > c.stallTil {
			c.stallTil = t
		}
	case "stallall":
		t := simrt.Now() + f.Dur
		if t > w.stallTil {
			w.stallTil = t
		}
		for _, x := range w.conns {
			w.connBroke(x)
		}
	case "crash": // Arg bit0: connections vanish silently, bit1: dials hang
		w.crash(f.Dur, f.Arg&1 == 1, f.Arg&2 == 2)
	default:
		panic("unknown connection fault " + f.Do)
	}
}

// crash stops the server for a time: all connections die, the data is lost.
func (w *World) crash(d int64, silent, hang bool) {
	if !w.plan.Srv.Persist {
		w.srv.data = map[string]*item{}
	}
	if t := simrt.Now() + d; t > w.downTil {
		w.downTil = t
	}
	w.downHang = hang
	w.everHang = w.everHang || hang
	for _, c := range w.conns {
		if c.srvClosed || c.closed {
			continue
		}
		w.connBroke(c)
		if silent {
			w.setBlackhole(c)
		} else {
			w.reset(c, true)
		}
	}
	w.lastFaultT = simrt.Now() + d
}

func (w *World) armTimeFaults() {
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if f.On != "time" {
			continue
		}
		simrt.After(f.N, func() {
			if f.used {
				return
			}
			switch f.Do {
			case "crash":
				w.fire(f, nil)
				w.crash(f.Dur, f.Arg&1 == 1, f.Arg&2 == 2)
			case "stallall":
				w.fire(f, nil)
				w.stallTil = simrt.Now() + f.Dur
				for _, x := range w.conns {
					w.connBroke(x)
				}
			case "resetall":
				w.fire(f, nil)
				w.crash(0, false, false)
			case "blackholeall":
				w.fire(f, nil)
				w.crash(0, true, false)
			default:
				if f.Conn >= 0 {
					if f.Conn < len(w.conns) && !w.conns[f.Conn].closed {
						w.connFault(f, w.conns[f.Conn])
					}
					return
				}
				// a live connection chosen by Arg
				var live []*Conn
				for _, c := range w.conns {
					if !c.closed && !c.srvClosed {
						live = append(live, c)
					}
				}
				if len(live) > 0 {
					w.connFault(f, live[int(f.Arg/2)%len(live)])
				}
			}
		})
	}
}

// ---- observing the wire ----

func (w *World) onWire(cmd *Cmd) {
	c := cmd.conn
	w.wireN++
	switch cmd.Kind {
	case "version":
		w.wireVer++
	case "flush_all":
		w.wireFA++
	}
	if cmd.Kind != "auth" {
		// unanswered commands
		un := len(c.cmds) - c.repRead
		if c.authState != 0 {
			// the handshake and its answer count on both sides
		}
		if un > c.maxOut {
			c.maxOut = un
		}
		if w.on("C10") {
			lim := w.plan.Cfg.wl() + w.plan.Cfg.mb()
			if w.plan.Cfg.mb() <= w.plan.Cfg.wl() && un > lim {
				w.violate("C10", "write-limit", simrt.Sprintf("conn%d: %d commands written without a reply read; write limit %d, batch %d", c.id, un, w.plan.Cfg.wl(), w.plan.Cfg.mb()))
			}
		}
		if c.authState == 1 || c.authState == 3 {
			w.violate("C16", "command-before-auth", simrt.Sprintf("conn%d: %q was written although the handshake was not accepted", c.id, trunc(cmd.Line, 60)))
		}
	}
	if w.closedRet {
		w.violate("C08", "sent-after-close", simrt.Sprintf("%q was sent on conn%d after Close had returned", trunc(cmd.Line, 60), c.id))
	}
	if cmd.OpID != 0 {
		op := w.ops.at(cmd.OpID)
		if op == nil || !op.issued {
			w.violate("C02", "unknown-command", simrt.Sprintf("conn%d: command %q corresponds to no call", c.id, trunc(cmd.Line, 80)))
		} else {
			op.cmds = append(op.cmds, cmd)
			if len(op.cmds) > 1 {
				w.violate("C03", "sent-twice", simrt.Sprintf("the command of call %s was sent twice: on conn%d and conn%d", op.desc(), op.cmds[0].conn.id, c.id))
			}
			w.checkWire(op, cmd)
		}
	} else if cmd.Kind == "mg" || cmd.Kind == "ms" || cmd.Kind == "md" {
		w.violate("C02", "unknown-command", simrt.Sprintf("conn%d: command %q corresponds to no call", c.id, trunc(cmd.Line, 80)))
	}
	if w.stat != nil {
		w.onStatWire(cmd)
	}
	if w.onWireHook != nil {
		w.onWireHook(cmd)
	}
}

// checkWire compares a command on the wire with the call it belongs to.
func (w *World) checkWire(op *OpRec, cmd *Cmd) {
	if w.on("C02") {
		bad := ""
		wantKind := map[string]string{"get": "mg", "fget": "mg", "set": "ms", "del": "md"}[op.kind]
		var want []string
		switch op.kind {
		case "get", "fget":
			want = append(want, "v")
			if op.op.B {
				want = append(want, "c")
			}
			if op.op.N > 0 {
				want = append(want, simrt.Sprintf("N%d", op.op.N))
			}
		case "set":
			if op.cas > 0 {
				want = append(want, simrt.Sprintf("C%d", op.cas))
			}
			if op.op.T > 0 {
				want = append(want, simrt.Sprintf("T%d", op.op.T))
			}
		case "del":
			if op.cas > 0 {
				want = append(want, simrt.Sprintf("C%d", op.cas))
			}
			if op.op.I {
				want = append(want, "I")
				if op.op.T > 0 {
					want = append(want, simrt.Sprintf("T%d", op.op.T))
				}
			}
		}
		switch {
		case cmd.Kind != wantKind:
			bad = "command " + cmd.Kind
		case cmd.Key != op.key:
			bad = simrt.Sprintf("key %q", cmd.Key)
		case !sameSet(cmd.Flags, want):
			bad = simrt.Sprintf("options %v, want %v", cmd.Flags, want)
		case op.kind == "set" && !bytes.Equal(cmd.Val, op.val):
			bad = simrt.Sprintf("value of %d bytes %q, want %d bytes %q", len(cmd.Val), trunc(string(cmd.Val), 80), len(op.val), trunc(string(op.val), 80))
		}
		if bad != "" {
			w.violate("C02", "wrong-command", simrt.Sprintf("call %s was sent with %s: %q", op.desc(), bad, trunc(cmd.Line, 100)))
		}
	}
	w.lineage(op, cmd)
	if w.on("C04") {
		if op.mayFlush == 0 || cmd.wseq0 < op.mayFlush {
			w.violate("C04", "sent-before-flush", simrt.Sprintf("call %s was transmitted before a flush point of its pipeline", op.desc()))
		}
		for _, o := range op.pipe.ops {
			if o.issueSeq > op.issueSeq && len(o.cmds) > 0 {
				w.violate("C04", "order", simrt.Sprintf("call %s was transmitted after %s, which was issued later on the same pipeline", op.desc(), o.desc()))
			}
		}
	}
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range b {
		n, m := 0, 0
		for _, y := range a {
			if x == y {
				n++
			}
		}
		for _, y := range b {
			if x == y {
				m++
			}
		}
		if n != m {
			return false
		}
	}
	return true
}

func (w *World) onExec(cmd *Cmd) {
	if w.onExecHook != nil {
		w.onExecHook(cmd)
	}
}

func (o *OpRec) desc() string {
	k := o.key
	if len(k) > 40 {
		k = k[:40] + "..."
	}
	return simrt.Sprintf("%s(%q)[call %d, script %d, pipeline %d]", o.kind, k, o.id, o.script, o.pipe.id)
}

// ---- running scripts ----

// outerRec is one dial as the client sees it (including the password handshake).
type outerRec struct {
	n          int
	g          int
	start, end int64
	startSeq   uint64
	done       bool
	err        error
	inner      *dialRec
	closingAt  bool // Close had been called when it started
	initial    bool // made by New
	timeout    int64
}

// dialFunc is the dial function of the client: the simulated network, wrapped
// in the library's password authentication when that is configured, wrapped in
// a recorder.
func (w *World) dialFunc() netconn.DialFunc {
	inner := netconn.DialFunc(w.dial)
	if w.plan.Cfg.Auth {
		a, err := netconn.NewPasswordAuth(w.plan.Cfg.User, w.plan.Cfg.Pass)
		if err != nil {
			panic(err)
		}
		inner = a.GetDialFunc(w.dial)
	}
	return func(network, address string, timeout time.Duration) (net.Conn, error) {
		o := &outerRec{n: len(w.outers) + 1, g: simrt.Cur().ID, start: simrt.Now(), startSeq: simrt.Seq(), closingAt: w.closing, initial: w.client == nil}
		w.outers = append(w.outers, o)
		w.dialStart(o)
		o.timeout = int64(timeout)
		if network != "tcp" || address != srvAddr || int64(timeout) != connTO {
			w.violate("C20", "dial-arguments", simrt.Sprintf("dial #%d was made with (%q, %q, %v); configured: (%q, %q, %d s)", o.n, network, address, timeout, "tcp", srvAddr, connTO/sec))
		}
		nd := len(w.dials)
		c, err := inner(network, address, timeout)
		if nd < len(w.dials) {
			for _, d := range w.dials[nd:] {
				if d.g == o.g {
					o.inner = d
					d.outer = o
				}
			}
		}
		o.end, o.err, o.done = simrt.Now(), err, true
		if err != nil {
			w.failedDials++
		}
		w.dialEnd(o, c)
		if o.inner != nil && o.inner.conn != nil && err == nil {
			o.inner.conn.handed, o.inner.conn.outer = true, o
		}
		return c, err
	}
}

const srvAddr = "cache.example:11211"

// simNet connects the simulated package net with this run.
func (w *World) simNet(dial netconn.DialFunc) {
	simnet.Now = func() time.Time { return simtime.Now() }
	simnet.DialHook = func(network, address string, timeout time.Duration) (net.Conn, error) {
		if w.plan.Cfg.Dial != 2 {
			w.violate("C20", "wrong-dialer", "a connection was dialed without the configured dial function")
		}
		return dial(network, address, timeout)
	}
}

// decoyDial must not be called: a later option has replaced it.
func (w *World) decoyDial(string, string, time.Duration) (net.Conn, error) {
	w.violate("C20", "wrong-dialer", "a connection was dialed with a dial function that a later option replaces")
	return nil, errReset
}

// netOptions are the options of the connections.
func (w *World) netOptions(dial netconn.DialFunc, r *simrt.RNG) []netconn.Option {
	c := &w.plan.Cfg
	var o, pre []netconn.Option
	if dial != nil {
		o = append(o, netconn.WithDialFunc(dial))
		pre = append(pre, netconn.WithDialFunc(w.decoyDial))
	}
	if c.RTO > 0 {
		o = append(o, netconn.WithReadTimeout(time.Duration(c.RTO)))
		pre = append(pre, netconn.WithReadTimeout(17*time.Second))
	}
	if c.WTO > 0 {
		o = append(o, netconn.WithWriteTimeout(time.Duration(c.WTO)))
		pre = append(pre, netconn.WithWriteTimeout(13*time.Second))
	}
	if c.KeepAl > 0 {
		o = append(o, netconn.WithTCPKeepAliveDuration(time.Duration(c.KeepAl)))
		pre = append(pre, netconn.WithTCPKeepAliveDuration(77*time.Second))
	}
	if r != nil {
		for i := len(o) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			o[i], o[j] = o[j], o[i]
		}
	}
	if c.Decoys {
		o = append(pre, o...)
	}
	return o
}

// theDial is the dial function given to the library, or nil if it uses its default.
func (w *World) theDial() netconn.DialFunc {
	dial := w.dialFunc()
	w.simNet(dial)
	if w.plan.Cfg.Dial == 2 {
		return nil
	}
	return dial
}

func (w *World) optRNG() *simrt.RNG {
	if w.plan.Cfg.OptSeed == 0 {
		return nil
	}
	r := simrt.NewRNG(w.plan.Cfg.OptSeed)
	return &r
}

func (w *World) options() []memcache.Option {
	c := &w.plan.Cfg
	dial := w.theDial()
	r := w.optRNG()
	var o, pre []memcache.Option
	if dial != nil && c.ConnCfg {
		o = append(o, memcache.WithNetConnOptions(netconn.WithDialFunc(dial)))
		pre = append(pre, memcache.WithDialFunc(w.decoyDial))
	} else if dial != nil {
		o = append(o, memcache.WithDialFunc(dial))
		pre = append(pre, memcache.WithNetConnOptions(netconn.WithDialFunc(w.decoyDial), netconn.WithReadTimeout(time.Duration(c.rto()))))
	}
	if c.Buf > 0 {
		o = append(o, memcache.WithBufferSize(c.Buf))
		pre = append(pre, memcache.WithBufferSize(999))
	}
	if c.WL > 0 {
		o = append(o, memcache.WithWriteLimit(c.WL))
		pre = append(pre, memcache.WithWriteLimit(2000))
	}
	if c.MB > 0 {
		o = append(o, memcache.WithMaxCommandsPerBatch(c.MB))
		pre = append(pre, memcache.WithMaxCommandsPerBatch(300))
	}
	if c.Retry > 0 {
		o = append(o, memcache.WithRetryDuration(time.Duration(c.Retry)))
		pre = append(pre, memcache.WithRetryDuration(333*time.Millisecond))
	}
	if c.Health > 0 {
		o = append(o, memcache.WithHealthCheckDuration(time.Duration(c.Health)))
		pre = append(pre, memcache.WithHealthCheckDuration(777*time.Millisecond))
	}
	if c.KeepAl > 0 && !c.ConnCfg {
		o = append(o, memcache.WithTCPKeepAliveDuration(time.Duration(c.KeepAl)))
		pre = append(pre, memcache.WithTCPKeepAliveDuration(91*time.Second))
	}
	var no []netconn.Option
	if c.RTO > 0 {
		no = append(no, netconn.WithReadTimeout(time.Duration(c.RTO)))
		pre = append(pre, memcache.WithNetConnOptions(netconn.WithReadTimeout(17*time.Second)))
	}
	if c.WTO > 0 {
		no = append(no, netconn.WithWriteTimeout(time.Duration(c.WTO)))
		pre = append(pre, memcache.WithNetConnOptions(netconn.WithWriteTimeout(13*time.Second)))
	}
	if c.KeepAl > 0 && c.ConnCfg {
		no = append(no, netconn.WithTCPKeepAliveDuration(time.Duration(c.KeepAl)))
		pre = append(pre, memcache.WithNetConnOptions(netconn.WithTCPKeepAliveDuration(91*time.Second)))
	}
	if len(no) > 1 && r != nil && r.Intn(2) == 0 { // one call each
		for _, x := range no {
			o = append(o, memcache.WithNetConnOptions(x))
		}
	} else if len(no) > 0 {
		o = append(o, memcache.WithNetConnOptions(no...))
	}
	if !c.DefLog {
		o = append(o, memcache.WithDialErrorLogger(func(err error) { w.logged1(err) }))
		pre = append(pre, memcache.WithDialErrorLogger(func(err error) {
			w.violate("C20", "wrong-logger", "a dial error went to a logger that a later option replaces")
		}))
	}
	if r != nil {
		for i := len(o) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			o[i], o[j] = o[j], o[i]
		}
	}
	if c.Decoys {
		o = append(pre, o...)
	}
	return o
}

func (w *World) logged1(err error) {
	w.logCalls++
	w.tr("dial error logger: %v", err)
	if err == nil {
		w.violate("C18", "nil-logged", "the dial error logger was called with a nil error")
	}
}

type logCounter struct{ w *World }

func (l logCounter) Write(p []byte) (int, error) {
	if strings.Contains(string(p), "dial error") || strings.Contains(string(p), "Dial") {
		l.w.logCalls++
	}
	return len(p), nil
}

func (w *World) pendAdd(what string, op *OpRec) *pendCall {
	p := &pendCall{what: what, t0: simrt.Now(), seq: simrt.Seq(), op: op}
	w.pend = append(w.pend, p)
	return p
}

func (w *World) pendDel(p *pendCall) {
	for i, x := range w.pend {
		if x == p {
			for ; i < len(w.pend)-1; i++ {
				w.pend[i] = w.pend[i+1]
			}
			w.pend = w.pend[:len(w.pend)-1]
			return
		}
	}
}

// opTab finds operations by id. It is a plain hash table: the race detector would
// check a map although the harness is built without it.
type opTab struct {
	tab []*OpRec
	n   int
}

func (t *opTab) at(id int) *OpRec {
	if len(t.tab) == 0 {
		return nil
	}
	m := len(t.tab) - 1
	for i := id * 7919 & m; ; i = (i + 1) & m {
		if t.tab[i] == nil || t.tab[i].id == id {
			return t.tab[i]
		}
	}
}

func (t *opTab) put(id int, op *OpRec) {
	if 2*t.n >= len(t.tab) {
		old := t.tab
		t.tab = make([]*OpRec, max(64, 4*len(old)))
		t.n = 0
		for _, o := range old {
			if o != nil {
				t.put(o.id, o)
			}
		}
	}
	t.n++
	m := len(t.tab) - 1
	i := id * 7919 & m
	for t.tab[i] != nil {
		i = (i + 1) & m
	}
	t.tab[i] = op
}

// do runs one call into the library.
func (w *World) do(what string, op *OpRec, fn func()) (took int64, blocks uint64) {
	p := w.pendAdd(what, op)
	b0 := simrt.Cur().Blocks
	w.nCalls++
	fn()
	w.pendDel(p)
	took = simrt.Now() - p.t0
	if what != "Client.Close" && what != "memcache.New" {
		w.checkCallTime(p, took)
	}
	return took, simrt.Cur().Blocks - b0
}

// otherClient makes and closes a client of another, unreachable server with other
// options: the client under test must not notice.
func (w *World) otherClient() {
	const addr = "other.example:1"
	n := 0
	dial := func(network, address string, timeout time.Duration) (net.Conn, error) {
		if address != addr {
			w.violate("C20", "wrong-dialer", "a connection to "+address+" was dialed with the dial function of another client")
		}
		n++
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	c, err := memcache.New(addr, 2, memcache.WithDialFunc(dial), memcache.WithBufferSize(333), memcache.WithWriteLimit(3000), memcache.WithMaxCommandsPerBatch(400),
		memcache.WithRetryDuration(111*time.Millisecond), memcache.WithHealthCheckDuration(222*time.Millisecond), memcache.WithTCPKeepAliveDuration(99*time.Second),
		memcache.WithNetConnOptions(netconn.WithReadTimeout(15*time.Second), netconn.WithWriteTimeout(14*time.Second)), memcache.WithDialErrorLogger(func(error) { n += 1000 }))
	if err != nil {
		w.failNow("new-failed", "memcache.New failed: "+err.Error())
	}
	_ = stats.New(addr, stats.WithErrorLogger(func(error) {}), stats.WithNetConnOptions(netconn.WithDialFunc(dial), netconn.WithReadTimeout(15*time.Second)))
	if err := c.Close(); err != nil {
		w.violate("C20", "other-close", "Close of another client failed: "+err.Error())
	}
	if n < 2003 {
		w.violate("C20", "wrong-dialer", "the dial function or the logger of another client was not used")
	}
}

func (w *World) newClient() {
	if w.plan.Cfg.DefLog {
		log.SetOutput(logCounter{w})
	}
	took, _ := w.do("memcache.New", nil, func() {
		c, err := memcache.New(srvAddr, w.plan.Cfg.Conns, w.options()...)
		if err != nil {
			w.failNow("new-failed", "memcache.New failed: "+err.Error())
		}
		w.client = c
	})
	w.tr("client created in %d ms", took/ms)
	if b := int64(w.plan.Cfg.Conns)*(2*connTO+sec) + sec; took > b && w.timed() {
		w.violate("C06", "slow-new", simrt.Sprintf("memcache.New took %d ms; bound %d ms", took/ms, b/ms))
	}
}

func (w *World) startScripts(from int) {
	for i := from; i < len(w.plan.Scripts); i++ {
		w.startScript(i)
	}
}

func (w *World) startScript(i int) {
	ops := w.plan.Scripts[i]
	w.active++
	simrt.GoHarness(simrt.Sprintf("client%d", i), func() {
		w.runScript(i, ops)
		w.joinEnd()
		w.active--
		if w.active == 0 {
			w.doneQ.WakeAll()
		}
	})
}

// waitScripts waits until all scripts are done; a call that takes longer than
// hangBound is a hang. Early events stop once a call has waited for a fifth of that: each
// of them makes the goroutines lose time as a starved machine does, and a queue of a
// hundred commands could time out one by one for minutes without anything being stuck.
func (w *World) waitScripts() {
	for w.active > 0 {
		e := w.doneQ.Enqueue()
		tm := simrt.After(5*sec, func() { w.doneQ.WakeAll() })
		e.Wait("wait for scripts")
		tm.Stop()
		w.checkHang()
	}
	w.join()
}

// joinEnd and join give the race detector the order that waiting for a goroutine
// (as with a WaitGroup) implies in a real application.
func (w *World) joinEnd() { simrt.ReleaseMerge(unsafe.Pointer(&w.joinVar)) }
func (w *World) join()    { simrt.Acquire(unsafe.Pointer(&w.joinVar)) }

func (w *World) hangBound() int64 {
	b := w.plan.P["hang"]
	if b == 0 {
		b = 300 * sec
	}
	return b
}

func (w *World) checkHang() {
	calm := w.settling
	for _, p := range w.pend {
		d := simrt.Now() - p.t0
		if d > w.hangBound()/5 {
			calm = true
		}
		if d > w.hangBound() {
			w.hang(simrt.Sprintf("%s has not returned after %d s of simulated time", w.pendDesc(p), d/sec))
		}
	}
	simrt.Calm(calm)
}

func (w *World) pendDesc(p *pendCall) string {
	s := p.what
	if p.op != nil {
		s += " of " + p.op.desc()
	}
	return s
}

func (w *World) hang(msg string) {
	w.failNow("hang", msg+"\npending calls and goroutines:\n"+simrt.Dump())
}

func (w *World) pipeOf(slots map[int]*PipeRec, n int) *PipeRec {
	p := slots[n]
	if p == nil {
		p = w.newPipe()
		slots[n] = p
	}
	return p
}

func (w *World) newPipe() *PipeRec {
	p := &PipeRec{id: len(w.pipes) + 1}
	w.pipes = append(w.pipes, p)
	p.p = w.client.Pipeline()
	p.conns = map[*Conn]bool{}
	return p
}

func (w *World) runScript(si int, ops []Op) {
	slots := map[int]*PipeRec{}
	for _, o := range ops {
		w.step(si, slots, o)
	}
}

func (w *World) step(si int, slots map[int]*PipeRec, o Op) {
	switch o.K {
	case "np":
		slots[o.P] = w.newPipe()
	case "get", "fget", "set", "del", "ver", "fa":
		w.issue(si, w.pipeOf(slots, o.P), o)
	case "mass": // many short pipelines, one after another
		id := o.ID
		for i := uint32(0); i < o.N; i++ {
			p := w.newPipe()
			slots[o.P] = p
			first := id
			for j := 0; j < o.L; j++ {
				x := Op{K: "get", ID: id, Key: simrt.Sprintf("%s#%d", o.Key, id)}
				if id%64 == 0 {
					x = Op{K: "set", ID: id, Key: x.Key, L: id % 30}
				}
				w.issue(si, p, x)
				id++
			}
			for ; first < id; first++ {
				w.result(w.ops.at(first))
			}
		}
		w.probe("mass_commands")
	case "exec":
		if p := slots[o.P]; p != nil {
			w.flush(p, false)
		}
	case "fin":
		if p := slots[o.P]; p != nil {
			w.flush(p, true)
		}
	case "res":
		if r := w.ops.at(o.R); r != nil && r.issued {
			w.result(r)
		}
	case "again":
		if r := w.ops.at(o.R); r != nil && r.done && !r.fastRel {
			w.again(r)
		}
	case "sleep":
		simrt.Sleep(o.D)
	case "mut":
		if r := w.ops.at(o.R); r != nil && r.issued && r.passed != nil {
			user.Scribble(r.passed, byte(r.id))
		}
	case "scrib":
		if r := w.ops.at(o.R); r != nil && r.held != nil {
			w.checkHeld(r)
			user.Scribble(r.held, byte(r.id*7+1))
			r.heldCpy = append(r.heldCpy[:0], r.held...)
		}
	case "app": // append to a returned slice
		if r := w.ops.at(o.R); r != nil && r.held != nil {
			w.checkHeld(r)
			n := o.L
			if n < 1 {
				n = 8
			}
			x := make([]byte, n)
			for i := range x {
				x[i] = '@'
			}
			r.held = append(r.held, x...)
			r.heldCpy = append(r.heldCpy, x...)
		}
	case "rel":
		if r := w.ops.at(o.R); r != nil && r.held != nil {
			w.checkHeld(r)
			h := r.held
			r.held, r.heldCpy = nil, nil
			memcache.ReleaseGetResponseData(h)
			w.probe("released")
		}
	case "relx":
		// A slice of the application's own, within memory of which the rest
		// stays the application's.
		a := make([]byte, 2*foreignGuard+o.L)
		user.Scribble(a, byte(len(w.foreign)))
		w.foreign = append(w.foreign, foreignMem{mem: a, cpy: append([]byte(nil), a...), n: o.L})
		w.tr("releases a slice of its own with capacity %d", o.L)
		memcache.ReleaseGetResponseData(a[foreignGuard : foreignGuard+o.L : foreignGuard+o.L])
		w.probe("released_foreign")
	case "relf":
		if r := w.ops.at(o.R); r != nil && r.isFast && r.done && !r.fastRel && r.fastE == nil {
			r.fastRel = true
			memcache.ReleaseMGetResult(r.fast)
			w.probe("released_result")
		}
	case "tx":
		if p := slots[o.P]; p != nil {
			// as long as commands get through, the queue may just be long
			for n, i := -1, 0; n != w.wireN && i < 1000; i++ {
				n = w.wireN
				simrt.Sleep(o.D)
				if w.transmitted(p) == nil {
					break
				}
			}
			w.checkTransmitted(p)
		}
	case "chk":
		// looks at what other goroutines were given, which only the race
		// detector would mind
		if !simrt.RaceEnabled {
			w.checkAllHeld()
		}
	case "close":
		w.closeClient()
	default:
		panic("unknown step " + o.K)
	}
}

func (w *World) issue(si int, p *PipeRec, o Op) {
	if w.ops.at(o.ID) != nil {
		return
	}
	op := &OpRec{op: o, id: o.ID, kind: o.K, script: si, pipe: p, key: o.Key, cas: o.C}
	if o.CF != 0 {
		if r := w.ops.at(o.CF); r != nil && r.done && r.err == nil && r.get.CAS != 0 {
			op.cas = r.get.CAS
		}
	}
	w.ops.put(o.ID, op)
	w.opList = append(w.opList, op)
	invalid := op.invalid()
	if o.K == "set" {
		op.val = valueOf(o.ID, o.L, o.VK)
		op.passed = append(make([]byte, 0, o.L+o.ID%5), op.val...)
		if o.L == 0 && o.ID%2 == 0 {
			op.passed = nil
		}
	}
	op.issueSeq, op.issueT = simrt.Seq(), simrt.Now()
	op.issued = true
	w.tr("script%d: issue %s", si, op.desc())
	if p.publ && !invalid {
		p.publ = false
		p.cur = nil
		p.sess++
	}
	op.sess = p.sess
	if !invalid {
		p.ops = append(p.ops, op)
		p.cur = append(p.cur, op)
	}
	w.do("issuing the command", op, func() {
		switch o.K {
		case "get":
			op.fnGet = p.p.MGet(op.key, memcache.MGetOptions{N: o.N, CAS: o.B})
		case "fget":
			op.isFast = true
			op.fast, op.fastE = p.p.MGetFast(op.key, memcache.MGetOptions{N: o.N, CAS: o.B})
		case "set":
			op.fnSet = p.p.MSet(op.key, op.passed, memcache.MSetOptions{CAS: op.cas, TTL: o.T})
		case "del":
			op.fnDel = p.p.MDel(op.key, memcache.MDelOptions{CAS: op.cas, I: o.I, TTL: o.T})
		case "ver":
			op.fnVer = p.p.Version()
		case "fa":
			op.fnFA = p.p.FlushAll()
		}
	})
	op.issueRet()
}

func (o *OpRec) issueRet() {}

// invalid reports whether the key is outside of the documented format.
func (o *OpRec) invalid() bool {
	switch o.kind {
	case "ver", "fa":
		return false
	}
	return keyErr(o.key) != nil
}

// keyErr returns the acceptable errors for a key; nil for a valid one.
func keyErr(k string) []error {
	var l []error
	if k == "" {
		return []error{memcache.ErrKeyEmpty}
	}
	if len(k) > 250 {
		l = append(l, memcache.ErrKeyTooLong)
	}
	for i := 0; i < len(k); i++ {
		if k[i] <= ' ' || k[i] >= 0x7f {
			l = append(l, memcache.ErrInvalidKeyFormat)
			break
		}
	}
	return l
}

// markFlush notes that a flush point of the pipeline is being called.
func (w *World) markFlush(p *PipeRec, must bool, sess int) {
	seq := simrt.Seq()
	for _, o := range p.ops {
		if o.mayFlush == 0 {
			o.mayFlush = seq
		}
		if must && o.sess <= sess && o.mustSeq == 0 {
			o.mustSeq = seq
			o.mustT = simrt.Now()
			o.g, o.gBlocks = simrt.Cur(), simrt.Cur().Blocks
			o.afterCl = w.closedRet
		}
	}
	if must && sess == p.sess {
		p.publ = true
	}
}

func (w *World) markFlushed(p *PipeRec) {
	seq := simrt.Seq()
	for _, o := range p.ops {
		if o.mustSeq != 0 && o.flushRet == 0 {
			o.flushRet = seq
			o.befCl = !w.closing
		}
	}
}

func (w *World) flush(p *PipeRec, finish bool) {
	w.markFlush(p, true, p.sess)
	w.tr("pipeline %d: flush (finish=%v)", p.id, finish)
	what := "Execute"
	if finish {
		what = "Finish"
	}
	took, _ := w.do(simrt.Sprintf("%s of pipeline %d", what, p.id), nil, func() {
		if finish {
			p.p.Finish()
		} else {
			p.p.Execute()
		}
	})
	w.markFlushed(p)
	if finish {
		p.final = p.sess + 1
		w.afterFinal(p, took)
	}
}

// result calls the result function of a call for the first time.
func (w *World) result(op *OpRec) {
	if op.called {
		return
	}
	op.called = true
	op.callT = simrt.Now()
	p := op.pipe
	wasFinal := op.sess < p.final
	inv := op.invalid()
	if !inv {
		w.markFlush(p, op.mustSeq == 0, op.sess)
	}
	took, blocks := w.do("the result function", op, func() {
		switch op.kind {
		case "get":
			op.get, op.err = op.fnGet()
		case "fget":
			if op.fastE != nil {
				op.err = op.fastE
			} else {
				op.get, op.err = op.fast.Result()
			}
		case "set":
			op.set, op.err = op.fnSet()
		case "del":
			op.del, op.err = op.fnDel()
		case "ver":
			var v memcache.VersionResponse
			v, op.err = op.fnVer()
			op.ver = v.Version
		case "fa":
			op.err = op.fnFA()
		}
	})
	op.done = true
	op.retSeq, op.retT = simrt.Seq(), simrt.Now()
	op.blocked = blocks > 0
	if inv {
		w.checkInvalidKey(op)
		return
	}
	w.markFlushed(p)
	if op.err == nil {
		w.nReplies++
		if op.kind == "get" || op.kind == "fget" {
			op.held = op.get.Data
			op.heldCpy = append([]byte(nil), op.get.Data...)
			op.ret = string(op.heldCpy)
		}
		op.verCpy = strings.Clone(op.ver)
	} else {
		if d := op.get.Data; len(d) > 0 {
			msg := simrt.Sprintf("%s failed (%v), yet it returned %d bytes of data: %q", op.desc(), op.err, len(d), trunc(string(d), 40))
			w.violate("C12", "data-with-error", msg)
			w.violate("C01", "data-with-error", msg)
		}
		w.nErrs++
		op.errCpy = strings.Clone(op.err.Error())
	}
	w.tr("script%d: %s returned %s", op.script, op.desc(), op.outcome())
	if wasFinal && blocks > 0 {
		w.violate("C04", "not-final", simrt.Sprintf("%s: Finish or an earlier result function of the pipeline had returned, yet the result was not available without waiting", op.desc()))
	}
	if op.sess >= p.final {
		p.final = op.sess + 1
	}
	w.checkResult(op, took)
}

func (op *OpRec) outcome() string {
	if op.err != nil {
		return "error: " + op.err.Error()
	}
	switch op.kind {
	case "get", "fget":
		return simrt.Sprintf("type=%d flags=%d cas=%d data(%d)=%q", op.get.Type, op.get.Flags, op.get.CAS, len(op.get.Data), trunc(string(op.get.Data), 60))
	case "set":
		return simrt.Sprintf("type=%d", op.set.Type)
	case "del":
		return simrt.Sprintf("type=%d", op.del.Type)
	case "ver":
		return "version " + op.ver
	}
	return "ok"
}

func (w *World) checkInvalidKey(op *OpRec) {
	for _, e := range keyErr(op.key) {
		if op.err == e {
			w.probe("invalid_key_refused")
			return
		}
	}
	w.violate("C02", "invalid-key", simrt.Sprintf("a call with the invalid key %q (%d bytes) returned %v, want %v", trunc(op.key, 60), len(op.key), op.err, keyErr(op.key)))
}

func (w *World) again(op *OpRec) {
	n0 := w.wireN
	var err error
	w.do("the result function (second call)", op, func() {
		switch op.kind {
		case "get":
			_, err = op.fnGet()
		case "fget":
			if op.fastE != nil {
				err = op.fastE
			} else {
				_, err = op.fast.Result()
			}
		case "set":
			_, err = op.fnSet()
		case "del":
			_, err = op.fnDel()
		case "ver":
			_, err = op.fnVer()
		case "fa":
			err = op.fnFA()
		}
	})
	_ = n0
	if op.invalid() {
		return
	}
	w.probe("second_result_call")
	if err != memcache.ErrAlreadyGotten {
		w.violate("C04", "already-gotten", simrt.Sprintf("the second call of the result function of %s returned %v, want ErrAlreadyGotten", op.desc(), err))
	}
}

// afterFinal is called when Finish has returned.
func (w *World) afterFinal(p *PipeRec, took int64) {}

func (w *World) checkHeld(op *OpRec) {
	if op.done && op.err == nil && op.ver != op.verCpy {
		msg := simrt.Sprintf("the version string returned by %s changed from %q to %q", op.desc(), trunc(op.verCpy, 80), trunc(op.ver, 80))
		w.violate("C12", "data-changed", msg)
		w.violate("C01", "data-changed", msg)
		op.verCpy = strings.Clone(op.ver)
	}
	if op.done && op.err != nil && op.errCpy != "" && op.err.Error() != op.errCpy {
		msg := simrt.Sprintf("the error returned by %s changed from %q to %q", op.desc(), trunc(op.errCpy, 80), trunc(op.err.Error(), 80))
		w.violate("C12", "data-changed", msg)
		w.violate("C01", "data-changed", msg)
		op.errCpy = strings.Clone(op.err.Error())
	}
	if op.held == nil {
		return
	}
	if !user.Equal(op.held, op.heldCpy) {
		w.violate("C12", "data-changed", simrt.Sprintf("the data returned by %s and not yet released changed from %q to %q", op.desc(), trunc(string(op.heldCpy), 80), trunc(string(op.held), 80)))
		w.violate("C01", "data-changed", simrt.Sprintf("the data returned by %s and not yet released changed from %q to %q", op.desc(), trunc(string(op.heldCpy), 80), trunc(string(op.held), 80)))
		op.heldCpy = append([]byte(nil), op.held...)
	}
}

// foreignMem is memory of the application of which it released the n bytes
// between two guards.
type foreignMem struct {
	mem, cpy []byte
	n        int
}

const foreignGuard = 128

func (w *World) checkForeign() {
	for i := range w.foreign {
		f := &w.foreign[i]
		for _, lo := range []int{0, foreignGuard + f.n} {
			if !user.Equal(f.mem[lo:lo+foreignGuard], f.cpy[lo:lo+foreignGuard]) {
				w.violate("C12", "foreign-memory", simrt.Sprintf("the application released a slice with capacity %d, and the library wrote to the memory next to it, which the application still owns", f.n))
				copy(f.cpy, f.mem)
			}
		}
	}
}

func (w *World) checkAllHeld() {
	w.checkForeign()
	for _, o := range w.opList {
		w.checkHeld(o)
	}
}

// closeClient calls Close and checks its outcome.
func (w *World) closeClient() {
	if w.client == nil {
		return
	}
	if !w.closing {
		w.closing = true
		w.closeSeq = simrt.Seq()
		w.closeT = simrt.Now()
	}
	w.nClose++
	w.tr("Close called (call %d)", w.nClose)
	var err error
	took, _ := w.do("Client.Close", nil, func() { err = w.client.Close() })
	w.tr("Close returned after %d ms", took/ms)
	if err != nil {
		w.violate("C08", "close-error", "Close returned an error: "+err.Error())
	}
	if !w.closedRet {
		w.closeReturned(took)
	}
	w.closedRet = true
}

var _ = errors.Is
var _ = debug.Stack
var _ = simtime.Now
