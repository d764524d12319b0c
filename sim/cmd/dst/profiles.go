package main

import (
	"errors"
	"net"
	"strings"

	"github.com/QuangTung97/go-memcache/memcache"

	"verifsim/simrt"
)

// ---- dials ----

func (w *World) dialStart(o *outerRec) {
	if !w.on("C18") || o.initial || o.closingAt {
		return
	}
	retry := w.plan.Cfg.retry()
	n := w.plan.Cfg.Conns
	if n == 1 {
		for i := len(w.outers) - 2; i >= 0; i-- {
			p := w.outers[i]
			if p.initial {
				break
			}
			if !p.done {
				w.violate("C18", "parallel-dials", simrt.Sprintf("dial #%d starts while dial #%d of the same connection is in progress", o.n, p.n))
				break
			}
			if p.err != nil {
				if d := o.start - p.end; d < retry {
					w.violate("C18", "redial-too-early", simrt.Sprintf("dial #%d starts %d us after the failed redial #%d ended; the retry interval is %d us", o.n, d/us, p.n, retry/us))
				}
			}
			break
		}
		return
	}
}

func (w *World) dialEnd(o *outerRec, c net.Conn) {
	var sc *Conn
	if o.inner != nil {
		sc = o.inner.conn
	}
	if w.on("C16") && w.plan.Cfg.Auth && sc != nil {
		if o.err == nil && sc.authState != 2 {
			w.violate("C16", "accepted-without-handshake", simrt.Sprintf("the dial of conn%d succeeded although the server did not accept the handshake", sc.id))
		}
		if o.err == nil && (sc.rdl != 0 || sc.wdl != 0) {
			w.violate("C16", "deadline-left", simrt.Sprintf("the handshake of conn%d succeeded, but left a deadline on it: reads or writes of its user will fail", sc.id))
		}
		if o.err != nil && !sc.closed {
			w.violate("C16", "not-closed", simrt.Sprintf("the handshake of conn%d failed (%v) but the connection was not closed", sc.id, o.err))
		}
		if d := o.end - o.inner.end; d > o.timeout+100*ms && w.timed() {
			w.violate("C16", "slow-handshake", simrt.Sprintf("the handshake of conn%d took %d ms; the dial timeout is %d ms", sc.id, d/ms, o.timeout/ms))
		}
		if o.err != nil && sc.authState == 2 && !sc.faulted && sc.errSeen == nil && w.timed() {
			w.violate("C16", "refused-though-accepted", simrt.Sprintf("the server accepted the handshake of conn%d, but the dial failed: %v", sc.id, o.err))
		}
	}
	w.dialFailed(o)
}

// dialFailed checks the times of failing dials.
func (w *World) dialFailed(o *outerRec) {
	if w.on("C18") && o.err != nil && !o.initial && w.plan.Cfg.Conns > 1 && !o.closingAt {
		// any window as long as the retry interval holds at most one failing attempt of each connection
		retry := w.plan.Cfg.retry()
		k := 0
		for _, p := range w.outers {
			if p.done && p.err != nil && !p.initial && !p.closingAt && p.start > o.start-retry && p.start <= o.start {
				k++
			}
		}
		if k > w.plan.Cfg.Conns {
			w.violate("C18", "redial-too-early", simrt.Sprintf("%d failing redials started within one retry interval (%d ms) with %d connections", k, retry/ms, w.plan.Cfg.Conns))
		}
	}
	if w.on("C18") && o.err != nil && !o.initial && w.timed() {
		// the next attempt is made in time, unless the client is closing
		seen := len(w.outers)
		lim := w.plan.Cfg.retry() + w.plan.Cfg.rto() + w.plan.Cfg.wto() + sec
		simrt.After(lim, func() {
			if !w.closing && o.err != nil && len(w.outers) == seen {
				w.violate("C18", "no-redial", simrt.Sprintf("no attempt was made within %d ms after the failed redial #%d (retry interval %d ms)", lim/ms, o.n, w.plan.Cfg.retry()/ms))
			}
		})
	}
}

// ---- pipelines and connections ----

// lineage checks that a pipeline stays on its connection or its replacements.
func (w *World) lineage(op *OpRec, cmd *Cmd) {
	p, c := op.pipe, cmd.conn
	if p.last != nil && p.last != c {
		if c.initial || !p.last.closed || p.last.id > c.id {
			w.violate("C19", "moved", simrt.Sprintf("pipeline %d sent commands on conn%d (closed: %v) and then on conn%d, which cannot be its replacement", p.id, p.last.id, p.last.closed, c.id))
		}
		if p.last.closed && p.last.closeT > c.dialT {
			w.violate("C19", "moved", simrt.Sprintf("pipeline %d sent commands on conn%d and then on conn%d, which was dialed before the former was closed", p.id, p.last.id, c.id))
		}
	}
	p.last = c
}

// checkTransmitted verifies that a flush point has transmitted all pending commands.
func (w *World) checkTransmitted(p *PipeRec) {
	if !w.clean() || !w.timed() {
		return
	}
	w.probe("transmit_checked")
	if o := w.transmitted(p); o != nil {
		w.violate("C04", "not-transmitted", simrt.Sprintf("%s: the flush of its pipeline %d ms ago has not transmitted it", o.desc(), (simrt.Now()-o.mustT)/ms))
	}
}

// transmitted returns a flushed call of the pipeline whose command has not been sent.
func (w *World) transmitted(p *PipeRec) *OpRec {
	for _, o := range p.ops {
		if o.mustSeq != 0 && o.kind != "ver" && o.kind != "fa" && len(o.cmds) == 0 {
			return o
		}
	}
	return nil
}

// profileResult is called with every first result.
func (w *World) profileResult(op *OpRec, took int64) {
	_, isSrv := op.err.(memcache.ErrServerError)
	if op.err == nil || isSrv {
		if len(op.cmds) == 1 && op.cmds[0].exp.Type == "SRVERR" && op.cmds[0].conn.closed && !op.cmds[0].conn.faulted && op.cmds[0].conn.errSeen == nil && !w.closing {
			w.violate("C09", "closed-on-server-error", simrt.Sprintf("conn%d was closed although it only had a SERVER_ERROR reply (%s)", op.cmds[0].conn.id, op.desc()))
		}
		return
	}
	if w.closing || errors.Is(op.err, memcache.ErrConnClosed) {
		return
	}
	if w.calm {
		msg := simrt.Sprintf("%s failed after the faults had stopped and the retry interval had passed: %v", op.desc(), op.err)
		w.violate("C07", "no-recovery", msg)
		w.violate("C14", "no-recovery", msg)
		w.violate("C13", "no-recovery", msg)
		w.violate("C09", "no-recovery", msg)
		w.violate("C16", "no-recovery", msg)
	}
	var c *Conn
	if len(op.cmds) > 0 {
		c = op.cmds[0].conn
		if e := op.cmds[0].exp.Type; e == "CLIERR" || e == "BAD" {
			if !c.closed && w.on("C09") {
				w.mustClose(c, simrt.Sprintf("%s was answered by %s and failed, but conn%d was not closed", op.desc(), e, c.id))
			}
			return
		}
	} else if op.pipe.last != nil && w.plan.P["victim"] != 0 {
		c = op.pipe.last
	}
	if c != nil && !c.faulted && c.errSeen == nil && len(op.cmds) > 0 {
		w.violate("C09", "error-spread", simrt.Sprintf("%s failed (%v) although nothing happened to its connection conn%d", op.desc(), op.err, c.id))
		w.violate("C01", "error-without-fault", simrt.Sprintf("%s failed (%v) although nothing happened to its connection conn%d", op.desc(), op.err, c.id))
	}
	if c != nil && w.plan.P["victim"] != 0 && c.initial && int64(c.id) != w.plan.P["victim"]-1 && !w.sawTimeout {
		w.violate("C09", "error-spread", simrt.Sprintf("%s failed (%v) although its connection conn%d is not the broken one", op.desc(), op.err, c.id))
	}
}

// mustClose verifies that the client closes a connection soon: the goroutine which
// has found the error may still be on its way to close it.
func (w *World) mustClose(c *Conn, msg string) {
	d := sec
	for _, s := range w.plan.Sched.Stalls {
		d += s.Dur
	}
	if t := simrt.Now() + d; t > w.mustCloseT {
		w.mustCloseT = t
	}
	var check func()
	check = func() {
		if c.closed || w.closing {
			return
		}
		if simrt.Busy() { // time was advanced although somebody has work to do
			if t := simrt.Now() + 10*ms; t > w.mustCloseT {
				w.mustCloseT = t
			}
			simrt.After(10*ms, check)
			return
		}
		w.violate("C09", "not-closed", msg+"\n"+simrt.Dump())
	}
	simrt.After(d, check)
}

// ---- main programs ----

func (w *World) main() {
	if w.plan.P["other"] != 0 {
		w.otherClient()
	}
	switch w.plan.Profile {
	case "stats", "sbytes":
		w.runStats()
		return
	}
	w.armTimeFaults()
	w.newClient()
	switch w.plan.Profile {
	case "idle":
		w.runIdle()
	case "rr":
		w.runRR()
	case "starve":
		w.runStarve()
	default:
		w.startScripts(0)
		w.waitScripts()
	}
	if w.plan.P["bytes_end"] != 0 {
		w.bytesBehave()
	}
	if w.plan.P["recover"] != 0 {
		w.recovery()
	}
	if w.plan.P["quiet_wait"] != 0 {
		simrt.Sleep(w.plan.P["quiet_wait"])
	}
	w.checkSpontaneous()
	w.pendingResults()
	for d := w.mustCloseT - simrt.Now(); d >= 0 && w.mustCloseT > 0; d = w.mustCloseT - simrt.Now() {
		simrt.Sleep(d + 1)
	}
	w.closeClient()
	w.afterClose()
	w.afterAll()
}

// pendingResults fetches the results of everything that was flushed and not asked for yet.
func (w *World) pendingResults() {
	if w.plan.P["leave"] != 0 {
		return
	}
	for _, o := range w.opList {
		if o.issued && !o.called && o.mustSeq != 0 {
			w.result(o)
		}
	}
}

// afterClose makes calls on the closed client.
func (w *World) afterClose() {
	k := int(w.plan.P["after"])
	if k == 0 {
		return
	}
	id := 900001
	for i := 0; i < 3; i++ {
		p := w.newPipe()
		var l []*OpRec
		for j := 0; j < k; j++ {
			o := Op{K: []string{"get", "set", "del", "fget"}[(i+j)%4], ID: id, Key: simrt.Sprintf("z#%d", id), L: j}
			id++
			w.issue(99, p, o)
			l = append(l, w.ops.at(o.ID))
		}
		if i == 1 {
			w.flush(p, true)
		}
		if i == 2 {
			w.flush(p, false)
		}
		for _, o := range l {
			t0 := simrt.Now()
			w.result(o)
			if d := simrt.Now() - t0; d > 100*ms && w.timed() {
				w.violate("C08", "slow-after-close", simrt.Sprintf("%s took %d ms on the closed client", o.desc(), d/ms))
				w.violate("C06", "slow-after-close", simrt.Sprintf("%s took %d ms on the closed client", o.desc(), d/ms))
			}
		}
		w.flush(p, true)
	}
	w.probe("calls_after_close")
}

// checkSpontaneous: no healthy connection was closed by an open client.
func (w *World) checkSpontaneous() {
	if w.spontaneous > 0 && !w.closing {
		msg := simrt.Sprintf("%d connections were closed by the client although nothing was wrong with them", w.spontaneous)
		w.violate("C13", "healthy-replaced", msg)
		w.violate("C09", "healthy-replaced", msg)
		w.violate("C16", "healthy-replaced", msg)
		w.violate("C07", "healthy-replaced", msg)
	}
}

// probeAll makes k pipelines with m gets each, one after another.
func (w *World) probeAll(base, k, m int, par bool) {
	id := base
	if par {
		var left int
		q := &simrt.Waitq{}
		for i := 0; i < k; i++ {
			first := id
			id += m
			left++
			simrt.GoHarness(simrt.Sprintf("probe%d", i), func() {
				w.probePipe(first, m)
				w.joinEnd()
				left--
				if left == 0 {
					q.WakeAll()
				}
			})
		}
		for left > 0 {
			e := q.Enqueue()
			tm := simrt.After(5*sec, func() { q.WakeAll() })
			e.Wait("wait for probes")
			tm.Stop()
			w.checkHang()
		}
		w.join()
		return
	}
	for i := 0; i < k; i++ {
		w.probePipe(id, m)
		id += m
	}
}

func (w *World) probePipe(id, m int) {
	p := w.newPipe()
	var l []*OpRec
	for j := 0; j < m; j++ {
		o := Op{K: "get", ID: id + j, Key: simrt.Sprintf("k%d#%d", j%3, id+j), B: j%2 == 0}
		if j%3 == 1 {
			o = Op{K: "set", ID: id + j, Key: simrt.Sprintf("k%d#%d", j%3, id+j), L: 20}
		}
		w.issue(98, p, o)
		l = append(l, w.ops.at(o.ID))
	}
	for _, o := range l {
		w.result(o)
	}
}

// recovery: the faults are over; every connection works again.
func (w *World) recovery() {
	for i := range w.plan.Faults {
		w.plan.Faults[i].used = true // nothing new happens
	}
	now := simrt.Now()
	end := now
	hang := w.everHang || w.plan.Cfg.Auth
	for _, t := range []int64{w.downTil, w.stallTil} {
		if t > end {
			end = t
		}
	}
	for _, c := range w.conns {
		if !c.closed && c.stallTil > end && c.stallTil < 1<<60 {
			end = c.stallTil
		}
	}
	if w.plan.P["keep_down"] == 0 && end > now+w.plan.P["max_down"] && w.plan.P["max_down"] > 0 {
		end = now + w.plan.P["max_down"]
	}
	if end > now {
		simrt.Sleep(end - now)
	}
	w.probe("recovery")
	simrt.NoStalls()
	n := w.plan.Cfg.Conns
	// reveal which connections are broken
	w.probeAll(700001, 2*n+1, 1, w.plan.P["par"] != 0)
	wait := w.plan.Cfg.retry() + w.plan.Cfg.rto() + w.plan.Cfg.wto() + sec + w.plan.Net.DialLat
	for _, f := range w.plan.Faults {
		if f.Do == "hang" || f.Do == "slow" || strings.HasPrefix(f.Do, "auth-") {
			hang = true
		}
		if f.Do == "auth-drip" {
			wait += f.Dur * 10
		}
	}
	if hang {
		wait += 2 * connTO
	}
	for _, x := range w.plan.Sched.Stalls {
		wait += x.Dur
	}
	simrt.Sleep(wait)
	// a connection that is beyond repair is noticed when it is used
	for round := 0; round < 6 && w.brokenOpen(); round++ {
		w.probe("recovery_round")
		w.probeAll(720001+round*1000, 2*n+1, 1, false)
		simrt.Sleep(wait)
	}
	w.calm = true
	w.probeAll(710001, 3*n, 3, w.plan.P["par"] != 0)
	if w.on("C07") || w.on("C18") {
		if w.open != n {
			w.violate("C07", "missing-connection", simrt.Sprintf("%d of %d connections are open after recovery", w.open, n))
		}
	}
	w.calm = false
}

// brokenOpen reports whether the server has given up a connection the client still has open.
func (w *World) brokenOpen() bool {
	for _, c := range w.conns {
		if !c.closed && (c.srvClosed || c.blackhole || c.rxErr != nil || c.bytes || len(c.rx) > 0) {
			return true
		}
	}
	return false
}

// runIdle: no traffic for a long time; probes, silent deaths.
func (w *World) runIdle() {
	cfg := &w.plan.Cfg
	h := cfg.health()
	n := cfg.Conns
	k := len(w.plan.Scripts)
	tr := w.plan.P["trickle"] > 0 && k > 0 // the last script is light traffic during the idle time
	if tr {
		k--
	}
	for i := 0; i < k; i++ {
		w.startScript(i)
	}
	w.waitScripts()
	t0 := simrt.Now()
	nf := len(w.plan.Faults) > 0
	dur := w.plan.P["idle"]
	slack := int64(n)*(2*cfg.rto()+cfg.wto()) + 100*ms
	if !nf {
		slack = int64(n)*200*ms + 100*ms
	}
	if tr {
		w.startScript(k)
	}
	simrt.Sleep(dur)
	if tr {
		w.waitScripts()
		w.probe("light_traffic_while_idle")
	}
	if nf {
		// faults have happened at some point in the first part; the last one is at P["last"]
		simrt.Sleep(2*h + slack + cfg.retry() + sec + w.plan.P["extra_wait"])
		w.calm = true
		w.probeAll(700001, 2*n, 2, false)
		w.calm = false
		if w.sawDead() {
			w.probe("silent_death_repaired")
		}
		return
	}
	// every connection was used or probed at least once in every two intervals
	end := simrt.Now()
	if len(w.plan.Sched.Stalls) > 0 {
		return
	}
	for _, c := range w.conns {
		last := t0
		check := func(t int64) {
			if t-last > 2*h+slack {
				w.violate("C13", "not-probed", simrt.Sprintf("conn%d saw no command between %d ms and %d ms; the health-check interval is %d ms", c.id, last/ms, t/ms, h/ms))
			}
		}
		for _, cmd := range c.cmds {
			if cmd.wt < t0 {
				continue
			}
			check(cmd.wt)
			last = cmd.wt
		}
		if c.closed {
			continue
		}
		check(end)
		w.probe("idle_connection_probed")
	}
	if len(w.conns) < n {
		w.violate("C13", "missing", "not all connections were dialed")
	}
	if len(w.conns) > n {
		w.violate("C13", "healthy-replaced", simrt.Sprintf("%d connections were dialed for a pool of %d although none of them broke", len(w.conns), n))
	}
	w.calm = true
	w.probeAll(700001, 2*n, 2, false)
	w.calm = false
}

func (w *World) sawDead() bool {
	for _, c := range w.conns {
		if c.faulted {
			return true
		}
	}
	return false
}

// runRR: k*n pipelines; every connection serves exactly k.
func (w *World) runRR() {
	if n := w.plan.P["idle"]; n > 0 { // pipelines which are never flushed
		for i := int64(0); i < n; i++ {
			w.client.Pipeline().MGet("never", memcache.MGetOptions{})
		}
		w.probe("unflushed_pipelines")
	}
	w.startScripts(0)
	w.waitScripts()
	if w.anyFault || w.sawTimeout || len(w.plan.Sched.Stalls) > 0 {
		return
	}
	n := w.plan.Cfg.Conns
	per := map[*Conn]int{}
	used := 0
	for _, p := range w.pipes {
		cs := map[*Conn]bool{}
		for _, o := range p.ops {
			for _, cmd := range o.cmds {
				cs[cmd.conn] = true
			}
		}
		if len(cs) == 0 {
			continue
		}
		used++
		for c := range cs {
			per[c]++
		}
		if len(cs) > 1 {
			w.violate("C19", "moved", simrt.Sprintf("pipeline %d used %d connections although none failed", p.id, len(cs)))
		}
	}
	lo, hi := used/n, (used+n-1)/n
	for _, c := range w.conns {
		if per[c] < lo || per[c] > hi {
			w.violate("C19", "uneven", simrt.Sprintf("conn%d served %d of %d pipelines on %d connections", c.id, per[c], used, n))
		}
	}
	w.probe("rotation_checked")
}

// runStarve: big pipelines and a small one on the same connection.
func (w *World) runStarve() {
	B, L := int64(w.plan.Cfg.mb()), int64(w.plan.Cfg.wl())
	type small struct {
		op    *OpRec
		other int // commands of other pipelines transmitted since its flush
		start uint64
	}
	watch := map[*PipeRec]*small{}
	bound := func() int64 {
		k := int64(len(w.plan.Scripts))
		if B <= L {
			return 3*(L+B) + 2*B*k
		}
		return 2*(128+2)*B + 2*B*k
	}
	w.onWireHook = func(cmd *Cmd) {
		if cmd.OpID == 0 {
			return
		}
		op := w.ops.at(cmd.OpID)
		if op == nil {
			return
		}
		if int64(len(op.pipe.cur)) <= w.plan.P["small"] && op.sess == op.pipe.sess {
			delete(watch, op.pipe)
			return
		}
		for _, p := range w.pipes {
			if p == op.pipe || !p.publ || int64(len(p.cur)) > w.plan.P["small"] || len(p.cur) == 0 {
				continue
			}
			f := p.cur[0]
			if len(f.cmds) > 0 || f.flushRet == 0 && !w.flushed(f) || w.plan.Cfg.Conns > 1 && p.last != cmd.conn {
				continue
			}
			s := watch[p]
			if s == nil || s.op != f {
				s = &small{op: f}
				watch[p] = s
			}
			s.other++
			if int64(s.other) > bound() && w.timed() {
				w.violate("C11", "starved", simrt.Sprintf("%d commands of big pipelines were transmitted after the flush of the small pipeline %d (%d commands), which is still waiting; bound %d (write limit %d, batch %d)", s.other, p.id, len(p.cur), bound(), L, B))
			}
		}
	}
	w.startScripts(0)
	w.waitScripts()
}

// flushed reports whether the flush of an operation has certainly been handed to the sender.
func (w *World) flushed(o *OpRec) bool {
	return o.mustSeq != 0 && o.g != nil && o.g.Blocks > o.gBlocks
}

var _ = memcache.ErrConnClosed
