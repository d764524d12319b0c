package main

import (
	"bytes"
	"sort"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// Cmd is one command found on a connection.
type Cmd struct {
	Kind  string // mg ms md version flush_all auth stats:* bad
	Key   string
	LKey  string
	OpID  int
	Flags []string // sorted
	Val   []byte
	Line  string
	conn  *Conn
	idx   int
	start int64
	end   int64
	wseq0 uint64 // sequence numbers of the writes of the first and last byte
	wseq1 uint64
	wt    int64

	executed bool
	execSeq  uint64
	execT    int64
	answered bool
	exp      Exp
	repEnd   int64 // offset in the response stream after the reply, 0 if none
	cut      bool  // the reply was cut by a fault
	claimed  bool
	doubtful bool // claimed by a call that may have taken surplus bytes instead
}

// Exp is what a correct client reports for a reply.
type Exp struct {
	Type  string // VA HD EN NS EX NF OK VERSION SRVERR CLIERR BAD NONE
	Data  []byte
	Flags string // subset of WXZ
	CAS   uint64
	Ver   string
	Msg   string
	Raw   []byte
}

func (e *Exp) String() string {
	d := e.Data
	if len(d) > 40 {
		d = d[:40]
	}
	return simrt.Sprintf("%s data=%q(%d) flags=%s cas=%d ver=%q msg=%q", e.Type, d, len(e.Data), e.Flags, e.CAS, e.Ver, e.Msg)
}

type item struct {
	val   []byte
	cas   uint64
	stale bool
	won   bool // a client holds the recache token
	viv   bool // made by auto-vivification
}

// Server is the simulated memcached.
type Server struct {
	data    map[string]*item
	cas     uint64
	verN    int
	nCmd    int64
	execSeq []*Cmd
	rng     simrt.RNG
}

func newServer(seed uint64) *Server {
	cas := []uint64{100, 100, 1<<31 - 3, 1<<32 - 3, 1 << 40, 1<<63 - 5, 1<<64 - 1<<24}[simrt.Mix(seed, 0xca5)%7]
	return &Server{data: map[string]*item{}, rng: simrt.NewRNG(simrt.Mix(seed, 0x5e)), cas: cas}
}

// parseWire extracts complete commands from the bytes the client has written.
func (w *World) parseWire(c *Conn) {
	for !c.parseBad {
		cmd, n, bad := w.parseCmd(c)
		if bad != "" {
			c.parseBad = true
			show := c.pbuf
			if len(show) > 120 {
				show = show[:120]
			}
			w.violate("C02", "malformed-wire", simrt.Sprintf("conn%d: %s; bytes at offset %d: %q", c.id, bad, c.pstart, show))
			bc := &Cmd{Kind: "bad", conn: c, idx: len(c.cmds), start: c.pstart, end: c.sent, wseq0: c.pseq, wseq1: simrt.Seq(), wt: simrt.Now()}
			c.cmds = append(c.cmds, bc)
			return
		}
		if cmd == nil {
			return
		}
		cmd.conn = c
		cmd.idx = len(c.cmds)
		cmd.start = c.pstart
		cmd.end = c.pstart + int64(n)
		cmd.wseq0 = c.pseq
		cmd.wseq1 = simrt.Seq()
		cmd.wt = simrt.Now()
		c.pstart += int64(n)
		c.pbuf = c.pbuf[n:]
		c.pseq = simrt.Seq()
		c.cmds = append(c.cmds, cmd)
		w.onWire(cmd)
	}
}

const maxLine = 4096

// parseCmd parses one command at the start of c.pbuf; n bytes long.
func (w *World) parseCmd(c *Conn) (cmd *Cmd, n int, bad string) {
	b := c.pbuf
	if len(b) == 0 {
		return nil, 0, ""
	}
	k := bytes.Index(b, []byte("\r\n"))
	if k < 0 {
		if len(b) > maxLine {
			return nil, 0, "command line too long"
		}
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			return nil, 0, "newline without carriage return"
		}
		// the visible part must be a prefix of some command
		if !plausible(b) {
			return nil, 0, "not the beginning of a command"
		}
		return nil, 0, ""
	}
	line := string(b[:k])
	f := strings.Split(line, " ")
	cmd = &Cmd{Line: line}
	n = k + 2
	switch f[0] {
	case "version", "flush_all":
		if len(f) != 1 {
			return nil, 0, "unexpected arguments of " + f[0]
		}
		cmd.Kind = f[0]
		return cmd, n, ""
	case "stats":
		cmd.Kind = "stats"
		if len(f) > 1 {
			cmd.Kind = "stats " + f[1]
		}
		return cmd, n, ""
	case "lru_crawler":
		cmd.Kind = "metadump"
		if line != "lru_crawler metadump all" {
			return nil, 0, "unknown command"
		}
		return cmd, n, ""
	case "set": // the password handshake
		if len(f) != 5 {
			return nil, 0, "bad set command"
		}
		sz, err := strconv.Atoi(f[4])
		if err != nil || sz < 0 || sz > 1<<20 {
			return nil, 0, "bad size in set"
		}
		if len(b) < n+sz+2 {
			return nil, 0, ""
		}
		if string(b[n+sz:n+sz+2]) != "\r\n" {
			return nil, 0, "set data not terminated by CRLF"
		}
		cmd.Kind = "auth"
		cmd.Val = append([]byte(nil), b[n:n+sz]...)
		return cmd, n + sz + 2, ""
	case "mg", "ms", "md":
	default:
		return nil, 0, "unknown command " + strconv.Quote(trunc(f[0], 30))
	}
	if len(f) < 2 || f[1] == "" {
		return nil, 0, "missing key"
	}
	cmd.Kind = f[0]
	cmd.Key = f[1]
	if len(cmd.Key) > 250 {
		return nil, 0, "key longer than 250 bytes"
	}
	cmd.LKey, cmd.OpID = splitKey(cmd.Key)
	fl := f[2:]
	if f[0] == "ms" {
		if len(fl) < 1 {
			return nil, 0, "ms without size"
		}
		sz, err := strconv.ParseUint(fl[0], 10, 32)
		if err != nil || sz > 1<<26 {
			return nil, 0, "bad size in ms"
		}
		fl = fl[1:]
		if len(b) < n+int(sz)+2 {
			return nil, 0, ""
		}
		if string(b[n+int(sz):n+int(sz)+2]) != "\r\n" {
			return nil, 0, "ms data not terminated by CRLF"
		}
		cmd.Val = append([]byte(nil), b[n:n+int(sz)]...)
		n += int(sz) + 2
	}
	for _, x := range fl {
		if x == "" {
			return nil, 0, "empty flag"
		}
		cmd.Flags = append(cmd.Flags, x)
	}
	sort.Strings(cmd.Flags)
	return cmd, n, ""
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func plausible(b []byte) bool {
	for _, c := range []string{"mg ", "ms ", "md ", "version\r\n", "flush_all\r\n", "set ", "stats", "lru_crawler"} {
		m := len(c)
		if len(b) < m {
			m = len(b)
		}
		if string(b[:m]) == c[:m] {
			return true
		}
	}
	return false
}

func splitKey(key string) (string, int) {
	i := strings.LastIndexByte(key, '#')
	if i < 0 {
		return key, 0
	}
	id, err := strconv.Atoi(key[i+1:])
	if err != nil || id <= 0 || key[i+1] == '0' {
		return key, 0
	}
	return key[:i], id
}

func (c *Cmd) flag(ch byte) (uint64, bool) {
	for _, f := range c.Flags {
		if f[0] == ch {
			v, _ := strconv.ParseUint(f[1:], 10, 64)
			return v, true
		}
	}
	return 0, false
}

// srvAccept is called when a connection has been established.
func (w *World) srvAccept(c *Conn) {
	if w.plan.Srv.Mode == "bytes" {
		w.bytesAccept(c)
	}
}

// srvPump lets the server read and execute what has arrived.
func (w *World) srvPump(c *Conn) {
	if c.srvClosed || c.blackhole {
		return
	}
	now := simrt.Now()
	if now < c.stallTil || now < w.stallTil {
		t := c.stallTil
		if w.stallTil > t {
			t = w.stallTil
		}
		if !c.procEv && t-now < 1<<60 {
			c.procEv = true
			simrt.After(t-now, func() { c.procEv = false; w.srvPump(c) })
		}
		return
	}
	var outb []byte
	defer func() {
		if len(outb) > 0 {
			w.deliver(c, outb)
		}
	}()
	for {
		if c.srvClosed {
			return
		}
		if !c.closed && w.plan.Net.RWin > 0 && c.out+int64(len(outb))-c.rxRead > int64(w.plan.Net.RWin) {
			w.probe("server_backpressure")
			return // resumed by Read
		}
		if c.consumed < c.srvAvail {
			c.consumed = c.srvAvail
			c.wrq.WakeAll()
		}
		if c.nextCmd >= len(c.cmds) {
			return
		}
		cmd := c.cmds[c.nextCmd]
		if cmd.end > c.srvAvail {
			return
		}
		if w.plan.Net.Proc > 0 && !c.procEv {
			if k := simrt.Choose(simrt.StreamNet, 8, w.plan.Net.ProcPM); k > 0 {
				c.procEv = true
				d := w.plan.Net.Proc * int64(k) / 8
				simrt.After(d, func() { w.srvStep(c); c.procEv = false; w.srvPump(c) })
				return
			}
		} else if c.procEv {
			return
		}
		b := w.srvExec(c, cmd, &outb)
		outb = append(outb, b...)
	}
}

// srvStep executes exactly one command.
func (w *World) srvStep(c *Conn) {
	if c.srvClosed || c.blackhole || c.nextCmd >= len(c.cmds) || c.cmds[c.nextCmd].end > c.srvAvail {
		return
	}
	if simrt.Now() < c.stallTil || simrt.Now() < w.stallTil {
		return
	}
	var outb []byte
	b := w.srvExec(c, c.cmds[c.nextCmd], &outb)
	outb = append(outb, b...)
	if len(outb) > 0 {
		w.deliver(c, outb)
	}
}

// srvExec executes one command and returns the bytes to send. pending holds
// bytes produced earlier in the same step (they precede the result).
func (w *World) srvExec(c *Conn, cmd *Cmd, pending *[]byte) []byte {
	c.nextCmd++
	c.nCmd++
	w.srv.nCmd++
	flushPending := func() {
		if len(*pending) > 0 {
			w.deliver(c, *pending)
			*pending = nil
		}
	}
	override := ""
	var of *Fault
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if f.used || (f.On != "cmd" && f.On != "gcmd") || (f.Conn >= 0 && f.Conn != c.id) {
			continue
		}
		cnt := c.nCmd
		if f.On == "gcmd" {
			cnt = w.srv.nCmd
		}
		if cnt != f.N {
			continue
		}
		switch f.Do {
		case "srverr", "clierr", "bad", "cut", "lost", "extra", "finafter", "rstafter":
			if override == "" {
				override, of = f.Do, f
			}
		default: // before execution
			flushPending()
			w.connFault(f, c)
			if c.srvClosed || simrt.Now() < c.stallTil || simrt.Now() < w.stallTil {
				if !c.srvClosed { // stalled: this command waits
					c.nextCmd--
					c.nCmd--
					w.srv.nCmd--
					w.srvPump(c)
				}
				return nil
			}
		}
	}
	if cmd.Kind == "auth" {
		return w.srvAuth(c, cmd)
	}
	if c.authState == 1 || c.authState == 3 {
		// not authenticated
		w.violate("C16", "command-before-auth", simrt.Sprintf("conn%d: command %q was sent although the handshake was not accepted", c.id, trunc(cmd.Line, 60)))
	}
	if strings.HasPrefix(cmd.Kind, "stats") || cmd.Kind == "metadump" {
		return w.statsExec(c, cmd)
	}
	if w.plan.Srv.Mode == "bytes" {
		cmd.executed, cmd.execSeq, cmd.execT = true, simrt.Seq(), simrt.Now()
		if c.bytes {
			return w.bytesReply(c, cmd)
		}
		cmd.executed = false
	}
	if cmd.Kind == "bad" {
		w.connBroke(c)
		w.fin(c)
		return []byte("ERROR\r\n")
	}
	var rep []byte
	srng := simrt.NewRNG(simrt.Mix(w.plan.Seed, 0xe44, uint64(cmd.OpID), uint64(c.id), uint64(cmd.idx)))
	if override == "" && w.plan.Srv.ErrPM > 0 && srng.Intn(1000) < w.plan.Srv.ErrPM && cmd.OpID != 0 {
		override = "srverr"
		of = &Fault{Do: "srverr", Arg: int64(srng.Intn(len(srvMsgs)))}
	}
	switch override {
	case "srverr":
		w.fire(of, c)
		cmd.exp = Exp{Type: "SRVERR", Msg: srvMsgs[int(of.Arg)%len(srvMsgs)]}
		rep = []byte("SERVER_ERROR " + cmd.exp.Msg + "\r\n")
		if cmd.exp.Msg == "" && of.Arg%2 == 0 {
			rep = []byte("SERVER_ERROR\r\n")
		}
	case "clierr":
		w.connBroke(c)
		w.fire(of, c)
		cmd.exp = Exp{Type: "CLIERR", Msg: "bad data chunk"}
		rep = []byte("CLIENT_ERROR bad data chunk\r\n")
	case "bad":
		w.connBroke(c)
		w.fire(of, c)
		cmd.exp = Exp{Type: "BAD"}
		rep = []byte(badReply(cmd.Kind, int(of.Arg)))
	default:
		rep = w.srvApply(c, cmd)
	}
	cmd.executed, cmd.execSeq, cmd.execT = true, simrt.Seq(), simrt.Now()
	cmd.exp.Raw = rep
	w.srv.execSeq = append(w.srv.execSeq, cmd)
	w.tr("server: conn%d %s -> %s", c.id, trunc(cmd.Line, 60), trunc(strconv.Quote(string(rep)), 60))
	w.onExec(cmd)
	switch override {
	case "lost": // the reply is never sent
		w.fire(of, c)
		w.connBroke(c)
		cmd.cut = true
		flushPending()
		switch of.Arg % 3 {
		case 0:
			w.reset(c, false)
		case 1:
			w.fin(c)
		case 2:
			w.setBlackhole(c)
		}
		return nil
	case "cut": // only a prefix of the reply is sent, then the connection ends
		w.fire(of, c)
		w.connBroke(c)
		cmd.cut = true
		flushPending()
		k := int(of.Arg) % len(rep)
		w.deliver(c, rep[:k])
		switch of.Dur % 3 {
		case 0:
			w.fin(c)
		case 1:
			w.resetAfter(c)
		case 2:
			w.setBlackholeAfter(c)
		}
		return nil
	case "extra": // more bytes than the reply, then the connection ends
		w.fire(of, c)
		w.connBroke(c)
		flushPending()
		cmd.repEnd = c.out + int64(len(rep))
		c.repEnds = append(c.repEnds, cmd.repEnd)
		cmd.answered = true
		c.tainted = true
		w.deliver(c, append(append([]byte(nil), rep...), extraBytes[int(of.Arg)%len(extraBytes)]...))
		switch of.Dur % 3 {
		case 0:
			w.fin(c)
		case 1:
			w.resetAfter(c)
		}
		return nil
	case "finafter", "rstafter":
		w.fire(of, c)
		w.connBroke(c)
		flushPending()
		cmd.repEnd = c.out + int64(len(rep))
		c.repEnds = append(c.repEnds, cmd.repEnd)
		cmd.answered = true
		w.deliver(c, rep)
		if override == "finafter" {
			w.fin(c)
		} else {
			w.resetAfter(c)
		}
		return nil
	}
	cmd.repEnd = c.out + int64(len(*pending)) + int64(len(rep))
	c.repEnds = append(c.repEnds, cmd.repEnd)
	cmd.answered = true
	return rep
}

func (w *World) resetAfter(c *Conn) {
	c.srvClosed = true
	at := simrt.Now() + w.latency()
	if at < c.lastDel {
		at = c.lastDel
	}
	c.lastDel = at
	simrt.After(at-simrt.Now(), func() { w.deliverErr(c, errReset, false) })
}

func (w *World) setBlackholeAfter(c *Conn) {
	c.srvClosed = true // delivered segments still arrive, nothing else does
}

var extraBytes = []string{
	"HD\r\n", "EN\r\n", "VA 4\r\nEVIL\r\n", "VA 4 c7 W\r\nEV", "HD", "VA 1000\r\nEVILEVIL", "VA ", "V", "OK\r\n", "VERSION 6.6.6\r\n",
	"SERVER_ERROR leftover\r\n", "CLIENT_ERROR leftover\r\n", "HD\r", "\r\n", "VERSION 6.6", "HD\r\nHD\r\nHD\r\n", "NF\r\nEX\r\n", "VA 3 c9", "VA 5\r\nEVIL!\r", "SERVER_ERR",
	"VA 12", "VA 4\r\nEVIL\r\nVA 4\r\nEVIL\r\nVA 4\r\nEVIL\r\n",
}

var srvMsgs = []string{
	"out of memory storing object", "object too large for cache", "out of memory", "x", "too many open connections", "temporary failure", "HD", "VA 5 c1", "",
	"out of memory writing get response line number two of a rather long explanation that goes on and on",
}

func badReply(kind string, arg int) string {
	list := []string{"ERROR\r\n", "FOO\r\n", "STORED\r\n", "12345\r\n", "ok\r\n", "hd\r\n", "SERVERERROR x\r\n", "CLIENT ERROR\r\n", "QEND\r\n", "ZZZZZZZZZZ zzz\r\n", "VALUE a 0 1\r\n", "SERVER_ERR\r\n", "CL\r\n", "SE x\r\n", "CLIENT_ERRO x\r\n"}
	switch kind { // replies which are well-formed only for other commands, or have no number where one must be
	case "mg":
		list = append(list, "NS\r\n", "EX\r\n", "NF\r\n", "OK\r\n", "HD c\r\n", "HD W c\r\n", "HD cx W\r\n", "VA\r\n", "VA \r\n", "VA x\r\n", "VA -1\r\n", "VA W 3\r\n", "VA 99999999999999999999\r\n")
	case "ms":
		list = append(list, "EN\r\n", "OK\r\n", "VA 3\r\nabc\r\n", "VA 0\r\n\r\n", "VERSION 1\r\n")
	case "md":
		list = append(list, "EN\r\n", "NS\r\n", "OK\r\n", "VA 3\r\nabc\r\n", "VERSION 1\r\n")
	case "version":
		list = append(list, "OK\r\n", "VERSIO\r\n", "VE\r\n", "VERS\r\n", "HD\r\n", "EN\r\n", "VA 3\r\nabc\r\n")
	case "flush_all":
		list = append(list, "HD\r\n", "EN\r\n", "VERSION 1\r\n", "VA 3\r\nabc\r\n")
	}
	s := list[arg%len(list)]
	return s
}

func (w *World) srvAuth(c *Conn, cmd *Cmd) []byte {
	want := w.plan.Cfg.User + " " + w.plan.Cfg.Pass
	ok := c.authState == 1 && cmd.Line == simrt.Sprintf("set memcached_auth 0 0 %d", len(want)) && string(cmd.Val) == want
	if c.authState == 0 {
		w.violate("C16", "unexpected-auth", "an authentication command was sent without being configured")
		return []byte("ERROR\r\n")
	}
	if !ok {
		w.violate("C16", "bad-handshake", simrt.Sprintf("conn%d: authentication command %q %q, want credentials %q", c.id, cmd.Line, cmd.Val, want))
		return []byte("CLIENT_ERROR authentication failure\r\n")
	}
	cmd.executed = true
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if f.used || f.On != "auth" || (f.N != 0 && int64(c.id) != f.N) {
			continue
		}
		w.fire(f, c)
		c.faulted = true
		if f.Do != "auth-drip" {
			c.authState = 3
		}
		switch f.Do {
		case "auth-reject":
			b := []string{"CLIENT_ERROR authentication failure\r\n", "ERROR\r\n", "NOT_STORED\r\n", "STORED \r\n", "stored\r\n", "STORE\r\n\r\n\r\n"}[int(f.Arg)%6]
			return []byte(b)
		case "auth-cut":
			k := int(f.Arg) % 8
			if k > 0 {
				w.deliver(c, []byte("STORED\r\n")[:k])
			}
			w.fin(c)
			return nil
		case "auth-reset":
			k := int(f.Arg) % 8
			if k > 0 {
				w.deliver(c, []byte("STORED\r\n")[:k])
				w.resetAfter(c)
			} else {
				w.reset(c, true)
			}
			return nil
		case "auth-hang":
			k := int(f.Arg) % 8
			if k > 0 {
				w.deliver(c, []byte("STORED\r\n")[:k])
			}
			w.setBlackholeAfter(c)
			c.authHang = true
			return nil
		case "auth-drip": // accepted, but byte by byte
			c.authState = 2
			c.authDone = simrt.Now()
			for i, b := range []byte("STORED\r\n") {
				b := b
				simrt.After(int64(i+1)*f.Dur, func() {
					if !c.srvClosed {
						w.deliver(c, []byte{b})
					}
				})
			}
			c.repEnds = append(c.repEnds, 8)
			return nil
		}
	}
	c.authState = 2
	c.authDone = simrt.Now()
	c.repEnds = append(c.repEnds, c.out+8)
	return []byte("STORED\r\n")
}

// srvApply executes a command on the store and builds the reply.
func (w *World) srvApply(c *Conn, cmd *Cmd) []byte {
	if w.plan.Srv.Mode == "rnd" {
		return w.srvRandom(c, cmd)
	}
	s := w.srv
	_, wantCAS := cmd.flag('c')
	switch cmd.Kind {
	case "version":
		s.verN++
		v := simrt.Sprintf("1.6.%d", s.verN) + []string{"", "", "", "_beta", " (Ubuntu)", "-rc1  x y", "_7_gabcdef"}[s.verN%7]
		cmd.exp = Exp{Type: "VERSION", Ver: v}
		return []byte("VERSION " + v + "\r\n")
	case "flush_all":
		s.data = map[string]*item{}
		cmd.exp = Exp{Type: "OK"}
		return []byte("OK\r\n")
	case "mg":
		r := kvGet(s.data, &s.cas, cmd.LKey, flagN(cmd), true)
		e := Exp{Type: r.typ, Data: r.data, Flags: r.flags}
		if r.typ == "EN" {
			cmd.exp = e
			return []byte("EN\r\n")
		}
		if wantCAS {
			e.CAS = r.cas
		}
		cmd.exp = e
		hdr := simrt.Sprintf("VA %d", len(r.data))
		if wantCAS {
			hdr += simrt.Sprintf(" c%d", r.cas)
		}
		for _, f := range r.flags {
			hdr += " " + string(f)
		}
		return append(append([]byte(hdr+"\r\n"), r.data...), "\r\n"...)
	case "ms":
		casv, _ := cmd.flag('C')
		t := kvSet(s.data, &s.cas, cmd.LKey, cmd.Val, casv)
		cmd.exp = Exp{Type: t}
		return []byte(t + "\r\n")
	case "md":
		casv, _ := cmd.flag('C')
		_, inv := cmd.flag('I')
		t := kvDel(s.data, &s.cas, cmd.LKey, casv, inv)
		cmd.exp = Exp{Type: t}
		return []byte(t + "\r\n")
	}
	return []byte("ERROR\r\n")
}

func flagN(cmd *Cmd) bool { _, ok := cmd.flag('N'); return ok }

type getRes struct {
	typ   string
	data  []byte
	cas   uint64
	flags string
}

func kvGet(data map[string]*item, casn *uint64, key string, viv bool, commit bool) getRes {
	it := data[key]
	if it == nil {
		if !viv {
			return getRes{typ: "EN"}
		}
		*casn++
		data[key] = &item{cas: *casn, viv: true, won: true}
		return getRes{typ: "VA", data: []byte{}, cas: *casn, flags: "W"}
	}
	fl := ""
	if it.stale {
		if !it.won {
			it.won = true
			fl = "WX"
		} else {
			fl = "XZ"
		}
	} else if it.viv && it.won {
		fl = "Z"
	}
	return getRes{typ: "VA", data: it.val, cas: it.cas, flags: fl}
}

func kvSet(data map[string]*item, casn *uint64, key string, val []byte, casv uint64) string {
	it := data[key]
	if casv != 0 {
		if it == nil {
			return "NF"
		}
		if it.cas != casv {
			return "EX"
		}
	}
	*casn++
	data[key] = &item{val: val, cas: *casn}
	return "HD"
}

func kvDel(data map[string]*item, casn *uint64, key string, casv uint64, inv bool) string {
	it := data[key]
	if it == nil {
		return "NF"
	}
	if casv != 0 && it.cas != casv {
		return "EX"
	}
	if inv {
		*casn++
		data[key] = &item{val: it.val, cas: *casn, stale: true, viv: it.viv}
		return "HD"
	}
	delete(data, key)
	return "HD"
}

// srvRandom answers with a random well-formed reply.
func (w *World) srvRandom(c *Conn, cmd *Cmd) []byte {
	r := simrt.NewRNG(simrt.Mix(w.plan.Seed, 0x4e9, uint64(cmd.OpID), uint64(c.id), uint64(cmd.idx)))
	s := w.srv
	switch cmd.Kind {
	case "version":
		s.verN++
		v := simrt.Sprintf("1.6.%d", s.verN)
		if r.Intn(4) == 0 {
			v = simrt.Sprintf("%d.%d.%d-beta_%d", r.Intn(20), r.Intn(100), s.verN, r.Intn(1000))
		}
		cmd.exp = Exp{Type: "VERSION", Ver: v}
		return []byte("VERSION " + v + "\r\n")
	case "flush_all":
		cmd.exp = Exp{Type: "OK"}
		return []byte("OK\r\n")
	case "ms":
		t := []string{"HD", "NS", "EX", "NF"}[r.Intn(4)]
		cmd.exp = Exp{Type: t}
		return []byte(t + "\r\n")
	case "md":
		t := []string{"HD", "NF", "EX"}[r.Intn(3)]
		cmd.exp = Exp{Type: t}
		return []byte(t + "\r\n")
	}
	// mg
	e := Exp{}
	k := r.Intn(100)
	var fl []string
	if r.Intn(3) > 0 {
		for _, f := range []string{"W", "X", "Z"} {
			if r.Intn(2) == 0 {
				fl = append(fl, f)
				e.Flags += f
			}
		}
	}
	if r.Intn(2) == 0 {
		switch r.Intn(5) {
		case 0:
			e.CAS = uint64(r.Intn(10))
		case 1:
			e.CAS = ^uint64(0) - uint64(r.Intn(3))
		case 2:
			e.CAS = r.U64()
		default:
			e.CAS = uint64(r.Intn(1000000))
		}
		fl = append(fl, simrt.Sprintf("c%d", e.CAS))
	}
	for i := len(fl) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		fl[i], fl[j] = fl[j], fl[i]
	}
	tail := ""
	if len(fl) > 0 {
		tail = " " + strings.Join(fl, " ")
	}
	switch {
	case k < 20:
		cmd.exp = Exp{Type: "EN"}
		return []byte("EN\r\n")
	case k < 35:
		e.Type = "HD"
		cmd.exp = e
		return []byte("HD" + tail + "\r\n")
	}
	max := w.plan.Srv.RepMax
	if max == 0 {
		max = 200
	}
	n := r.Intn(max + 1)
	switch r.Intn(6) {
	case 0:
		n = 0
	case 1:
		n = []int{1, 2, 3, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 511, 512, 513}[r.Intn(17)]
	case 2:
		n = r.Intn(8)
	}
	if n > max {
		n = max
	}
	e.Type = "VA"
	e.Data = valueOf(int(r.U64()%1_000_000)+1, n, r.Intn(3))
	cmd.exp = e
	return append(append([]byte(simrt.Sprintf("VA %d%s\r\n", n, tail)), e.Data...), "\r\n"...)
}
