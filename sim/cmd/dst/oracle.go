package main

import (
	"bytes"
	"errors"
	"sort"
	"unsafe"

	"github.com/QuangTung97/go-memcache/memcache"

	"verifsim/simrt"
)

// clean reports whether nothing has happened so far that could make a call fail.
func (w *World) clean() bool {
	if w.anyFault || w.closing || len(w.plan.Sched.Stalls) > 0 || w.plan.Srv.Mode == "bytes" {
		return false
	}
	// with starved goroutines (early events) a timeout may be legitimate
	return w.plan.Sched.EarlyPM == 0 || !w.sawTimeout
}

// timed reports whether the simulated clock only advances when nothing can run,
// so that durations are due to the code and not to the scheduler.
func (w *World) timed() bool {
	return len(w.plan.Sched.Stalls) == 0 && w.plan.Sched.EarlyPM == 0
}

// candidates finds the command a result must stem from.
func (w *World) candidates(op *OpRec) []*Cmd {
	if op.kind != "ver" && op.kind != "fa" {
		return op.cmds
	}
	kind := "version"
	if op.kind == "fa" {
		kind = "flush_all"
	}
	var l []*Cmd
	for _, c := range w.conns {
		for _, cmd := range c.cmds {
			if cmd.Kind == kind && !cmd.claimed && cmd.executed && cmd.wseq0 > op.mayFlush {
				l = append(l, cmd)
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].wseq0 < l[j].wseq0 })
	return l
}

// doubtfulFits reports whether the call may have got a reply that was attributed to
// another call, which may in turn have taken surplus bytes for its reply.
func (w *World) doubtfulFits(op *OpRec) bool {
	if op.kind != "ver" && op.kind != "fa" {
		return false
	}
	for _, c := range w.conns {
		for _, cmd := range c.cmds {
			if cmd.doubtful && cmd.wseq0 > op.mayFlush && mismatch(op, &cmd.exp) == "" {
				return true
			}
		}
	}
	return false
}

// tainted reports whether the call may have used a connection on which the
// server sent bytes nobody asked for: these cannot be told from a reply.
func (w *World) tainted(op *OpRec) bool {
	if op.kind == "ver" || op.kind == "fa" || len(op.cmds) == 0 {
		for _, c := range w.conns {
			if c.tainted && (!c.closed || c.closeSeq > op.issueSeq) {
				return true
			}
		}
		return false
	}
	for _, cmd := range op.cmds {
		if cmd.conn.tainted {
			return true
		}
	}
	return false
}

// mismatch compares the outcome of a call with one reply; "" means equal.
func mismatch(op *OpRec, e *Exp) string {
	if se, ok := op.err.(memcache.ErrServerError); ok {
		if e.Type != "SRVERR" {
			return simrt.Sprintf("the call reported the server error %q, the server answered %s", se.Message, e)
		}
		if se.Message != e.Msg {
			return simrt.Sprintf("the call reported the server error %q, the server sent %q", se.Message, e.Msg)
		}
		return ""
	}
	if e.Type == "SRVERR" || e.Type == "CLIERR" || e.Type == "BAD" {
		return simrt.Sprintf("the call returned %s, the server answered %s", op.outcome(), e)
	}
	ok := true
	switch op.kind {
	case "get", "fget":
		t := map[string]memcache.MGetResponseType{"VA": memcache.MGetResponseTypeVA, "HD": memcache.MGetResponseTypeHD, "EN": memcache.MGetResponseTypeEN}[e.Type]
		var fl memcache.MGetFlags
		for _, f := range e.Flags {
			switch f {
			case 'W':
				fl |= memcache.MGetFlagW
			case 'X':
				fl |= memcache.MGetFlagX
			case 'Z':
				fl |= memcache.MGetFlagZ
			}
		}
		ok = op.get.Type == t && op.get.Flags == fl && op.get.CAS == e.CAS && bytes.Equal(op.get.Data, e.Data)
	case "set":
		t := map[string]memcache.MSetResponseType{"HD": memcache.MSetResponseTypeHD, "NS": memcache.MSetResponseTypeNS, "EX": memcache.MSetResponseTypeEX, "NF": memcache.MSetResponseTypeNF}[e.Type]
		ok = op.set.Type == t
	case "del":
		t := map[string]memcache.MDelResponseType{"HD": memcache.MDelResponseTypeHD, "NF": memcache.MDelResponseTypeNF, "EX": memcache.MDelResponseTypeEX}[e.Type]
		ok = op.del.Type == t
	case "ver":
		ok = e.Type == "VERSION" && op.ver == e.Ver
	case "fa":
		ok = e.Type == "OK"
	}
	if ok {
		return ""
	}
	return simrt.Sprintf("the call returned %s, the server answered %s", op.outcome(), e)
}

// checkResult is called when a result function has returned for the first time.
func (w *World) checkResult(op *OpRec, took int64) {
	_, isSrv := op.err.(memcache.ErrServerError)
	reply := op.err == nil || isSrv
	if w.bytesOn() {
		return
	}
	if reply {
		bad := ""
		var match *Cmd
		cands := w.candidates(op)
		if len(cands) == 0 {
			bad = "no such command was executed by the server"
		}
		for _, cmd := range cands {
			switch {
			case !cmd.executed:
				bad = "the server never executed the command"
				continue
			case !cmd.answered:
				bad = "the server never sent the complete reply"
				continue
			case cmd.repEnd > cmd.conn.rxRead:
				bad = "the reply had not been read when the call returned"
				continue
			}
			if m := mismatch(op, &cmd.exp); m != "" {
				if bad == "" || op.kind != "ver" {
					bad = m
				}
				continue
			}
			match = cmd
			break
		}
		if match != nil {
			match.claimed = true
			// it may have taken surplus bytes instead, and the reply belongs to another call
			if (op.kind == "ver" || op.kind == "fa") && (w.doubtful > 0 || w.tainted(op)) {
				match.doubtful = true
				w.doubtful++
			}
		} else if w.doubtful > 0 && w.doubtfulFits(op) {
			w.probe("tainted_reply")
		} else if w.tainted(op) {
			w.probe("tainted_reply")
		} else {
			msg := simrt.Sprintf("%s: %s", op.desc(), bad)
			if isSrv {
				w.violate("C09", "wrong-server-error", msg)
			}
			w.violate("C01", "wrong-reply", msg)
			if len(cands) == 0 || !cands[0].executed {
				w.violate("C03", "reply-without-execution", msg)
			}
			if op.err == nil && len(op.cmds) > 0 && op.cmds[0].exp.Type == "VA" && op.get.Type == memcache.MGetResponseTypeVA && !bytes.Equal(op.get.Data, op.cmds[0].exp.Data) {
				w.violate("C12", "wrong-data", msg)
			}
			if w.on("C09") {
				// only an error reply may make a difference
				w.violate("C09", "wrong-reply", msg)
			}
		}
		if match != nil && w.on("C12") {
			w.checkOverlap(op)
		}
	} else {
		if errors.Is(op.err, memcache.ErrConnClosed) {
			for _, c := range op.cmds {
				if c.exp.Type == "BAD" || c.exp.Type == "CLIERR" {
					continue
				}
				w.violate("C03", "closed-but-sent", simrt.Sprintf("%s failed with ErrConnClosed although its command was transmitted on conn%d", op.desc(), c.conn.id))
			}
			if !w.closing {
				w.violate("C01", "closed-error-while-open", op.desc()+" failed with ErrConnClosed although Close was not called")
			}
		}
		if w.clean() {
			msg := simrt.Sprintf("%s failed without any fault: %v", op.desc(), op.err)
			w.violate("C01", "error-without-fault", msg)
			w.violate("C04", "error-without-fault", msg)
			w.violate("C10", "error-without-fault", msg)
			w.violate("C11", "error-without-fault", msg)
			w.violate("C09", "error-spread", msg)
			w.violate("C16", "unusable", msg)
		}
	}
	if op.afterCl {
		if !errors.Is(op.err, memcache.ErrConnClosed) {
			w.violate("C08", "not-closed-error", simrt.Sprintf("%s, flushed after Close had returned, returned %s; want ErrConnClosed", op.desc(), op.outcome()))
		}
	}
	w.profileResult(op, took)
}

// checkOverlap verifies that a returned slice shares no byte with another one in use.
func (w *World) checkOverlap(op *OpRec) {
	if len(op.held) == 0 {
		return
	}
	a0 := uintptr(unsafe.Pointer(&op.held[0]))
	a1 := a0 + uintptr(len(op.held))
	for _, o := range w.opList {
		if o == op || len(o.held) == 0 {
			continue
		}
		b0 := uintptr(unsafe.Pointer(&o.held[0]))
		b1 := b0 + uintptr(len(o.held))
		if a0 < b1 && b0 < a1 {
			w.violate("C12", "shared", simrt.Sprintf("the slices returned by %s and %s share memory", op.desc(), o.desc()))
		}
		if o.passed != nil && cap(o.passed) > 0 {
			p := o.passed[:cap(o.passed)]
			b0 := uintptr(unsafe.Pointer(&p[0]))
			if a0 < b0+uintptr(len(p)) && b0 < a1 {
				w.violate("C12", "shared", simrt.Sprintf("the slice returned by %s shares memory with the value passed to %s", op.desc(), o.desc()))
			}
		}
	}
}

// callBound is how long a call may take when the clients' goroutines are not stalled.
func (w *World) callBound() int64 {
	b := 3*(w.plan.Cfg.rto()+w.plan.Cfg.wto()) + 2*sec
	for i := range w.plan.Faults {
		if d := w.plan.Faults[i].Do; d == "stall" || d == "stallall" {
			b += w.plan.Faults[i].Dur
		}
	}
	return b + w.plan.P["work"]
}

// checkCallTime is called for every call into the library except New and Close.
func (w *World) checkCallTime(p *pendCall, took int64) {
	if !w.on("C06") || !w.timed() || w.plan.P["untimed"] != 0 {
		return
	}
	if b := w.callBound(); took > b {
		w.violate("C06", "slow-call", simrt.Sprintf("%s took %d ms; bound from the configured timeouts: %d ms", w.pendDesc(p), took/ms, b/ms))
	}
}

// closeReturned is called when the first Close call has returned.
func (w *World) closeReturned(took int64) {
	if w.timed() {
		n := int64(w.plan.Cfg.Conns)
		b := n*w.callBound() + 2*connTO + 2*sec
		if took > b {
			w.violate("C08", "slow-close", simrt.Sprintf("Close took %d ms; bound %d ms", took/ms, b/ms))
			w.violate("C13", "slow-close", simrt.Sprintf("Close took %d ms; bound %d ms", took/ms, b/ms))
		}
	}
	if w.open > 0 {
		for _, c := range w.conns {
			if !c.closed {
				w.violate("C08", "open-after-close", simrt.Sprintf("conn%d is still open after Close has returned", c.id))
				w.violate("C18", "open-after-close", simrt.Sprintf("conn%d is still open after Close has returned", c.id))
			}
		}
	}
	if w.dialing > 0 {
		w.violate("C08", "dialing-after-close", "a dial is still in progress after Close has returned")
	}
}

// settle lets goroutines which are on their last steps finish.
func (w *World) settle() {
	w.settling = true
	simrt.Calm(true)
	for i := 0; i < 50 && simrt.LiveLib() > 0; i++ {
		simrt.Sleep(ms)
	}
	// a goroutine may have been descheduled for a while by an injected stall
	for _, st := range w.plan.Sched.Stalls {
		for d := int64(0); d < st.Dur && simrt.LiveLib() > 0; d += 100 * ms {
			simrt.Sleep(100 * ms)
		}
	}
}

// afterAll runs the checks at the end of a run: all scripts have ended and the client is closed.
func (w *World) afterAll() {
	w.checkAllHeld()
	w.settle()
	if n := simrt.LiveLib(); n > 0 {
		w.violate("C08", "goroutine-leak", simrt.Sprintf("%d background goroutines are alive after Close has returned:\n%s", n, simrt.Dump()))
	}
	w.endT = simrt.Now()
	// let the network calm down: nothing may be sent or dialed any more
	simrt.Sleep(2*w.plan.Cfg.retry() + 2*w.plan.Cfg.health() + 30*sec)
	if n := simrt.LiveLib(); n > 0 {
		w.violate("C08", "goroutine-leak", simrt.Sprintf("%d background goroutines are alive long after Close has returned:\n%s", n, simrt.Dump()))
	}
	if w.open > 0 && w.on("C18") {
		w.violate("C18", "leak", simrt.Sprintf("%d connections are still open at the end", w.open))
	}
	w.checkEndWire()
	if w.on("C18") || w.on("C16") {
		want := w.failedDials
		if w.logCalls != want {
			w.violate("C18", "logger", simrt.Sprintf("%d dials failed, the dial error logger was called %d times", want, w.logCalls))
			w.violate("C16", "logger", simrt.Sprintf("%d dials failed, the dial error logger was called %d times", want, w.logCalls))
		}
	}
}

// checkEndWire verifies the complete streams.
func (w *World) checkEndWire() {
	for _, c := range w.conns {
		if w.on("C02") && !c.faulted && c.errSeen == nil && !c.parseBad && len(c.pbuf) > 0 && c.authState != 1 {
			w.violate("C02", "partial-command", simrt.Sprintf("conn%d ends with the incomplete command %q although nothing disturbed it", c.id, trunc(string(c.pbuf), 80)))
		}
	}
	quiet := !w.anyFault && len(w.plan.Sched.Stalls) == 0 && (w.plan.Sched.EarlyPM == 0 || !w.sawTimeout)
	nv, nf := 0, 0
	for _, op := range w.opList {
		if op.invalid() {
			if len(op.cmds) > 0 {
				w.violate("C02", "invalid-sent", "a command with an invalid key was sent: "+op.desc())
			}
			continue
		}
		flushed := op.mustSeq != 0 && !op.afterCl
		if op.kind == "ver" && op.mayFlush != 0 {
			nv++
		}
		if op.kind == "fa" && op.mayFlush != 0 {
			nf++
		}
		if op.kind == "ver" || op.kind == "fa" {
			continue
		}
		if quiet && flushed && (op.befCl || !w.closeEarly()) && len(op.cmds) == 0 {
			msg := simrt.Sprintf("%s was flushed, but its command was never transmitted", op.desc())
			w.violate("C02", "missing", msg)
			w.violate("C04", "not-transmitted", msg)
			w.violate("C08", "flushed-not-sent", msg)
			w.violate("C10", "not-transmitted", msg)
			w.violate("C11", "not-transmitted", msg)
		}
		if quiet && op.befCl && op.done && op.err != nil && w.plan.Srv.Mode != "bytes" {
			if _, isSrv := op.err.(memcache.ErrServerError); !isSrv {
				w.violate("C08", "flushed-not-answered", simrt.Sprintf("%s was flushed before Close was called and the server answers, but the call failed: %v", op.desc(), op.err))
			}
		}
		if op.mayFlush == 0 && len(op.cmds) > 0 {
			w.violate("C04", "sent-before-flush", op.desc()+" was transmitted although its pipeline was never flushed")
		}
		if op.done {
			_, isSrv := op.err.(memcache.ErrServerError)
			n := 0
			for _, c := range op.cmds {
				if c.executed {
					n++
				}
			}
			if n > 1 {
				w.violate("C03", "executed-twice", simrt.Sprintf("%s was executed %d times", op.desc(), n))
			}
			if (op.err == nil || isSrv) && n != 1 && w.plan.Srv.Mode != "bytes" && !w.tainted(op) {
				w.violate("C03", "reply-without-execution", simrt.Sprintf("%s returned a reply but was executed %d times", op.desc(), n))
			}
			if errors.Is(op.err, memcache.ErrConnClosed) {
				for _, c := range op.cmds {
					if c.executed && c.exp.Type != "BAD" && c.exp.Type != "CLIERR" {
						w.violate("C03", "closed-but-executed", simrt.Sprintf("%s failed with ErrConnClosed but was executed", op.desc()))
					}
				}
			}
		}
	}
	if w.wireFA > nf {
		w.violate("C02", "unknown-command", simrt.Sprintf("%d flush_all commands were sent for %d calls", w.wireFA, nf))
		w.violate("C03", "sent-twice", simrt.Sprintf("%d flush_all commands were sent for %d calls", w.wireFA, nf))
	}
	if w.plan.P["noprobes"] != 0 && w.wireVer > nv {
		w.violate("C02", "unknown-command", simrt.Sprintf("%d version commands were sent for %d calls", w.wireVer, nv))
		w.violate("C03", "sent-twice", simrt.Sprintf("%d version commands were sent for %d calls", w.wireVer, nv))
	}
}

// closeEarly reports whether Close was called while scripts were running.
func (w *World) closeEarly() bool { return w.plan.P["close_early"] != 0 }
