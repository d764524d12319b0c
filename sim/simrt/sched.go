// Package simrt is the deterministic scheduler under which the instrumented
// library runs. Every goroutine is a real goroutine, but exactly one of them
// executes at any time; at every synchronisation operation (and, in fine mode,
// at every statement) the running goroutine asks the scheduler who goes next.
// All answers come from seeded streams or, in a replay, from a recorded trace.
package simrt

import (
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Streams of choices.
const (
	StreamSched = iota
	StreamNet
	StreamPool
	NumStreams
)

// Choice is one non-default decision of a trace.
type Choice struct {
	I uint32 `json:"i"`
	V uint32 `json:"v"`
}

type stream struct {
	rng    RNG
	n      uint32 // number of decisions so far
	rec    []Choice
	replay bool
	tape   []Choice
	pos    int
}

// Policy kinds.
const (
	PolicyFIFO   = 0 // never preempt, run in FIFO order
	PolicyRandom = 1
	PolicyPCT    = 2
	PolicyVictim = 3 // random, but one class of goroutines is slow
)

// Stall makes the goroutine that takes decision number At sleep for Dur ns, or the one
// that gets to point number At of kind K.
type Stall struct {
	At  uint32 `json:"at"`
	Dur int64  `json:"dur"`
	K   int    `json:"k,omitempty"`
}

// Points of StallPoint.
const (
	PointWait   = 1 // about to wait on a condition, its lock held
	PointLocked = 2 // a mutex was just locked
	PointLoaded = 3 // an atomic value was just loaded
	numPoints   = 4
)

// SchedCfg is the part of a plan that configures the scheduler.
type SchedCfg struct {
	Policy      int     `json:"policy"`
	PreemptPct  int     `json:"preempt_pm"` // per mille, at synchronisation operations
	Fine        bool    `json:"fine"`       // statement-level yields
	FinePM      int     `json:"fine_pm"`    // per 10000, at statements
	EarlyWindow int64   `json:"early_ns"`   // events at most this far ahead may fire while goroutines are runnable
	EarlyPM     int     `json:"early_pm"`
	PCTDepth    int     `json:"pct_depth"`
	PCTLen      int     `json:"pct_len"`
	Victim      int     `json:"victim"` // goroutine id modulo 8 that is slow
	PoolMode    int     `json:"pool_mode"`
	PoolDropPM  int     `json:"pool_drop_pm"`
	Tick        int64   `json:"tick"`
	MaxSteps    uint64  `json:"max_steps"`
	Stalls      []Stall `json:"stalls,omitempty"`
}

const (
	gRunnable = iota
	gRunning
	gBlocked
	gDead
)

// G is a simulated goroutine.
type G struct {
	ID    int
	Name  string
	Lib   bool // started by library code
	state int
	wake  chan struct{}
	why   string
	prio  int64
	// wait slot used by channels and conditions
	slotIdx int
	slotOK  bool
	run     int    // consecutive decisions kept
	since   uint64 // step at which it became runnable
	sinceT  int64  // simulated time at that step
	start   func()
	quit    bool
	Blocks  uint64 // number of times it blocked on anything but a lock
}

// Failure is a violation detected inside the run.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type event struct {
	at  int64
	seq uint64
	fn  func()
	tm  *SimTimer
}

// SimTimer is a cancellable event.
type SimTimer struct {
	idx int // heap index + 1, 0 when not queued
	ev  event
}

type sched struct {
	active bool
	cfg    SchedCfg
	st     [NumStreams]stream
	cur    *G
	runq   []*G
	all    []*G
	nextID int
	now    int64
	seq    uint64
	heap   []*SimTimer
	g0     *G // dispatcher
	fail   *Failure
	done   chan struct{}
	ended  bool

	steps    uint64
	switches uint64
	loops    uint64
	hash     uint64
	evSeq    uint64
	logHash  uint64

	pctPrioLow int64
	pctPoints  []uint64
	stalls     []Stall // of kind 0
	stallPos   int
	points     [numPoints]uint32
	pstalls    [numPoints][]Stall
	events     uint64
	early      uint64
	calm       bool
	epoch      uint64
	maxSameRun int

	chans []*chanState
}

var s sched
var epoch uint64

// Fine is true while statement-level scheduling is on.
var Fine bool

const loopLimit = 30_000_000

// Y is inserted before every statement of the instrumented code.
func Y() {
	if Fine {
		yieldFine()
	}
}

// L is inserted at the head of every loop body of the instrumented code.
//
//go:norace
func L() {
	s.loops++
	if s.loops > loopLimit && s.active {
		loopFail()
	}
	if Fine {
		yieldFine()
	}
}

//go:norace
func loopFail() {
	if InHarness > 0 {
		return
	}
	Fail("spin", Sprintf("goroutine %s executes more than %d loop iterations without any synchronisation or I/O:\n%s", s.cur.Name, loopLimit, shortStack()))
}

// InHarness > 0 suppresses scheduling points (set while harness code runs callbacks).
var InHarness int

func shortStack() string {
	b := debug.Stack()
	if len(b) > 6000 {
		b = b[:6000]
	}
	return string(b)
}

// Active reports whether a simulation is running and not yet over.
//
//go:norace
func Active() bool { return s.active }

// ---- choice streams ----

//go:norace
func (st *stream) next(n int, val int) int {
	// val: the value proposed by the seeded policy
	i := st.n
	st.n++
	v := val
	if st.replay {
		v = 0
		for st.pos < len(st.tape) && st.tape[st.pos].I < i {
			st.pos++
		}
		if st.pos < len(st.tape) && st.tape[st.pos].I == i {
			v = int(st.tape[st.pos].V)
			if v >= n {
				v = n - 1
			}
			st.pos++
		}
	}
	if v != 0 {
		st.rec = append(st.rec, Choice{I: i, V: uint32(v)})
	}
	return v
}

// Choose draws a value in [0,n) from a stream; 0 is the simplest outcome.
// In seeded mode the outcome is non-zero with probability pm/1000.
//
//go:norace
func Choose(streamID int, n int, pm int) int {
	if n <= 1 {
		return 0
	}
	st := &s.st[streamID]
	v := 0
	if !st.replay {
		r := st.rng.U64()
		if int(r%1000) < pm {
			v = 1 + int((r>>20)%uint64(n-1))
		}
	}
	return st.next(n, v)
}

// ---- time and events ----

//go:norace
func Now() int64 { return s.now }

// Seq returns a fresh global event sequence number.
//
//go:norace
func Seq() uint64 { s.evSeq++; return s.evSeq }

//go:norace
func Steps() uint64 { return s.steps }

//go:norace
func less(a, b *SimTimer) bool {
	if a.ev.at != b.ev.at {
		return a.ev.at < b.ev.at
	}
	return a.ev.seq < b.ev.seq
}

//go:norace
func heapSwap(i, j int) {
	h := s.heap
	h[i], h[j] = h[j], h[i]
	h[i].idx = i + 1
	h[j].idx = j + 1
}

//go:norace
func heapUp(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !less(s.heap[i], s.heap[p]) {
			return
		}
		heapSwap(i, p)
		i = p
	}
}

//go:norace
func heapDown(i int) {
	n := len(s.heap)
	for {
		c := 2*i + 1
		if c >= n {
			return
		}
		if c+1 < n && less(s.heap[c+1], s.heap[c]) {
			c++
		}
		if !less(s.heap[c], s.heap[i]) {
			return
		}
		heapSwap(i, c)
		i = c
	}
}

//go:norace
func heapRemove(i int) *SimTimer {
	t := s.heap[i]
	n := len(s.heap) - 1
	if i != n {
		heapSwap(i, n)
	}
	s.heap[n] = nil
	s.heap = s.heap[:n]
	if i != n {
		heapDown(i)
		heapUp(i)
	}
	t.idx = 0
	return t
}

// After schedules fn to run d nanoseconds from now in the dispatcher. fn must not block.
//
//go:norace
func After(d int64, fn func()) *SimTimer {
	if d < 0 {
		d = 0
	}
	at := s.now + d
	if at < s.now { // overflow
		at = 1<<63 - 1
	}
	s.seq++
	t := &SimTimer{ev: event{at: at, seq: s.seq, fn: fn}}
	s.heap = append(s.heap, t)
	t.idx = len(s.heap)
	heapUp(t.idx - 1)
	return t
}

// Stop cancels the timer; it reports whether it was still pending.
//
//go:norace
func (t *SimTimer) Stop() bool {
	if t == nil || t.idx == 0 {
		return false
	}
	heapRemove(t.idx - 1)
	return true
}

// ---- goroutines ----

//go:norace
func newG(name string, lib bool, fn func()) *G {
	s.nextID++
	g := &G{ID: s.nextID, Name: name, Lib: lib, wake: make(chan struct{}, 1), start: fn}
	if s.cfg.Policy == PolicyPCT {
		g.prio = 1000 + int64(s.st[StreamSched].rng.U64()%1_000_000)
	}
	s.all = append(s.all, g)
	return g
}

//go:norace
func park(g *G) {
	raceDisable()
	<-g.wake
	raceEnable()
}

//go:norace
func unpark(g *G) {
	raceDisable()
	g.wake <- struct{}{}
	raceEnable()
}

func gMain(g *G) {
	park(g)
	defer gExit(g)
	g.start()
}

func gExit(g *G) {
	if r := recover(); r != nil {
		Fail("panic", Sprintf("panic in goroutine %s: %v\n%s", g.Name, r, shortStack()))
	}
	raceReleaseMerge(unsafe.Pointer(&runEdge))
	exitG(g)
}

//go:norace
func exitG(g *G) {
	if g.state == gDead { // the main goroutine of a run that is over
		return
	}
	if s.ended {
		select {}
	}
	g.state = gDead
	for i, x := range s.all {
		if x == g {
			move(s.all[i:], s.all[i+1:])
			s.all[len(s.all)-1] = nil
			s.all = s.all[:len(s.all)-1]
			break
		}
	}
	next := pick(nil)
	transfer(next)
}

// Go starts a goroutine on behalf of library code.
func Go(fn func()) {
	if !active() {
		go fn()
		return
	}
	yieldAt()
	spawn("lib", true, fn)
	yieldAt()
}

// GoHarness starts a goroutine of the harness.
func GoHarness(name string, fn func()) { spawn(name, false, fn) }

//go:norace
func active() bool { return s.active }

func spawn(name string, lib bool, fn func()) {
	g := mkG(name, lib, fn)
	go gMain(g)
	Ready(g)
}

//go:norace
func mkG(name string, lib bool, fn func()) *G {
	g := newG(name, lib, fn)
	if lib {
		g.Name = Sprintf("lib%d", g.ID)
	}
	g.state = gBlocked
	return g
}

// Ready makes a blocked goroutine runnable.
//
//go:norace
func Ready(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gRunnable
	g.why = ""
	g.since = s.steps
	g.sinceT = s.now
	s.runq = append(s.runq, g)
}

// Cur returns the running goroutine.
//
//go:norace
func Cur() *G { return s.cur }

// ---- scheduling ----

//go:norace
func transfer(next *G) {
	if next == nil {
		select {} // the run is over
	}
	s.cur = next
	next.state = gRunning
	s.loops = 0
	unpark(next)
}

//go:norace
func switchTo(self, next *G) {
	if next == self {
		self.state = gRunning
		s.cur = self
		return
	}
	if next == nil {
		select {}
	}
	s.switches++
	transfer(next)
	park(self)
}

// pick selects who runs next. cur is the yielding goroutine, nil if it cannot continue.
// It returns the dispatcher when an event has to be run.
//
//go:norace
func pick(cur *G) *G {
	if s.ended {
		return nil
	}
	s.steps++
	s.now += s.cfg.Tick
	if s.cfg.MaxSteps > 0 && s.steps > s.cfg.MaxSteps {
		failLocked("steps", Sprintf("no end after %d scheduling steps, %d ms of simulated time; goroutines:\n%s", s.steps, s.now/1e6, dump()))
		return nil
	}
	if len(s.heap) > 0 && s.heap[0].ev.at <= s.now {
		if cur != nil {
			cur.state = gRunnable
			s.runq = append(s.runq, nil)
			move(s.runq[1:], s.runq)
			s.runq[0] = cur
			cur.since = s.steps
			cur.sinceT = s.now
		}
		return s.g0
	}
	n := len(s.runq)
	if cur == nil && n == 0 {
		if len(s.heap) == 0 {
			failLocked("deadlock", "all goroutines are blocked and no event is pending:\n"+dump())
			return nil
		}
		return s.g0
	}
	// fairness, whatever the policy or the tape says
	if n > 0 && s.steps%64 == 0 {
		o := 0
		for i, g := range s.runq {
			if g.since < s.runq[o].since {
				o = i
			}
		}
		if s.steps-s.runq[o].since > fairLimit {
			return take(cur, o)
		}
	}
	// candidates: [cur] + runq [+ event]
	total := n
	if cur != nil {
		total++
	}
	ev := 0
	if s.cfg.EarlyPM > 0 && !s.calm && len(s.heap) > 0 && s.heap[0].ev.at-oldestRunnable() <= s.cfg.EarlyWindow {
		ev = 1
	}
	if total+ev == 1 {
		if cur != nil {
			return cur
		}
		g := s.runq[0]
		s.runq = s.runq[:0]
		return g
	}
	st := &s.st[StreamSched]
	v := 0
	if !st.replay {
		v = policy(cur, n, total, ev)
	}
	v = st.next(total+ev, v)
	if v == total { // early event
		s.early++
		if cur != nil {
			cur.state = gRunnable
			s.runq = append(s.runq, nil)
			move(s.runq[1:], s.runq)
			s.runq[0] = cur
			cur.since = s.steps
			cur.sinceT = s.now
		}
		return s.g0
	}
	if cur != nil {
		if v == 0 {
			cur.run++
			return cur
		}
		v--
	}
	return take(cur, v)
}

// Calm stops (true) or allows again (false) early events: the time that goroutines
// lose to them is a fault, and progress is demanded once faults stop.
//
//go:norace
func Calm(v bool) { s.calm = v }

// Busy reports whether some goroutine is ready to run; to be called from events.
//
//go:norace
func Busy() bool { return len(s.runq) > 0 }

// oldestRunnable is the simulated time since when some goroutine has been waiting for
// the processor: early events may keep it waiting for the early window in all.
//
//go:norace
func oldestRunnable() int64 {
	t := s.now
	for _, g := range s.runq {
		if g.sinceT < t {
			t = g.sinceT
		}
	}
	return t
}

// fairLimit is the number of steps after which a runnable goroutine is run in any case.
const fairLimit = 30000

// take removes runnable goroutine number v from the queue; cur goes to its end.
//
//go:norace
func take(cur *G, v int) *G {
	n := len(s.runq)
	g := s.runq[v]
	move(s.runq[v:], s.runq[v+1:])
	s.runq[n-1] = nil
	s.runq = s.runq[:n-1]
	if cur != nil {
		cur.run = 0
		cur.state = gRunnable
		cur.since = s.steps
		cur.sinceT = s.now
		s.runq = append(s.runq, cur)
	}
	g.run = 0
	s.hash = (s.hash ^ uint64(g.ID)*0x100000001b3 ^ s.steps) * 0x9e3779b97f4a7c15
	return g
}

// Note mixes an observable event (a network transfer) into the identity of the execution.
//
//go:norace
func Note(a, b uint64) {
	s.hash = (s.hash ^ a*0x100000001b3 ^ b) * 0x9e3779b97f4a7c15
}

// policy proposes a candidate index.
//
//go:norace
func policy(cur *G, n, total, ev int) int {
	rng := &s.st[StreamSched].rng
	if ev == 1 && rng.Intn(1000) < s.cfg.EarlyPM {
		return total
	}
	c := 0
	if cur != nil {
		c = 1
	}
	switch s.cfg.Policy {
	case PolicyFIFO:
		if cur != nil && cur.run > 5000 && n > 0 {
			return 1
		}
		return 0
	case PolicyPCT:
		for len(s.pctPoints) > 0 && s.steps >= s.pctPoints[0] {
			s.pctPoints = s.pctPoints[1:]
			if cur != nil {
				s.pctPrioLow--
				cur.prio = s.pctPrioLow
			}
		}
		if cur != nil && cur.run > 3000 {
			s.pctPrioLow--
			cur.prio = s.pctPrioLow
			cur.run = 0
		}
		best, bi := int64(-1<<62), 0
		if cur != nil {
			best = cur.prio
		}
		for i, g := range s.runq {
			if g.prio > best {
				best, bi = g.prio, i+c
			}
		}
		return bi
	case PolicyVictim:
		if cur != nil && rng.Intn(1000) >= s.cfg.PreemptPct && (cur.ID%8 != s.cfg.Victim) {
			return 0
		}
		v := rng.Intn(total)
		for k := 0; k < 6; k++ {
			g := cur
			if v >= c {
				g = s.runq[v-c]
			}
			if g.ID%8 != s.cfg.Victim || rng.Intn(1000) < 15 {
				break
			}
			v = rng.Intn(total)
		}
		return v
	default:
		if cur != nil {
			if rng.Intn(1000) >= s.cfg.PreemptPct {
				return 0
			}
			return 1 + rng.Intn(n)
		}
		return rng.Intn(n)
	}
}

// Yield is a scheduling point.
func Yield() { yieldAt() }

//go:norace
func yieldAt() {
	if !s.active || InHarness > 0 {
		return
	}
	if s.ended {
		select {}
	}
	s.loops = 0
	self := s.cur
	if s.stallPos < len(s.stalls) && s.st[StreamSched].n >= s.stalls[s.stallPos].At {
		stall(s.cur)
		return
	}
	if len(s.runq) == 0 && (len(s.heap) == 0 || s.heap[0].ev.at > s.now+s.cfg.Tick+s.cfg.EarlyWindow) && s.steps < s.cfg.MaxSteps {
		// nothing else can happen here
		s.steps++
		s.now += s.cfg.Tick
		return
	}
	next := pick(self)
	switchTo(self, next)
}

var stallCount uint64

// stall takes the processor from the running goroutine for a while. That is no waiting
// of the goroutine's own.
//
//go:norace
func stall(self *G) {
	d := s.stalls[s.stallPos].Dur
	s.stallPos++
	stallFor(self, d)
}

//go:norace
func stallFor(self *G, d int64) {
	stallCount++
	b := self.Blocks
	Sleep(d)
	self.Blocks = b
}

// NoStalls ends the injection of stalls.
//
//go:norace
func NoStalls() {
	s.stalls, s.stallPos = nil, 0
	s.pstalls = [numPoints][]Stall{}
}

// StallPoint is a place where a goroutine may lose the processor for a long time.
func StallPoint(k int) { stallPoint(k) }

//go:norace
func stallPoint(k int) {
	if !s.active || InHarness > 0 || s.ended || len(s.pstalls[k]) == 0 {
		return
	}
	n := s.points[k]
	s.points[k]++
	for i := range s.pstalls[k] {
		if s.pstalls[k][i].At == n {
			stallFor(s.cur, s.pstalls[k][i].Dur)
			return
		}
	}
}

//go:norace
func yieldFine() {
	if !s.active || InHarness > 0 {
		return
	}
	if s.stallPos < len(s.stalls) && s.st[StreamSched].n >= s.stalls[s.stallPos].At && !s.ended {
		stall(s.cur)
		return
	}
	if len(s.runq) == 0 {
		return
	}
	if s.ended {
		select {}
	}
	self := s.cur
	st := &s.st[StreamSched]
	n := len(s.runq)
	v := 0
	if !st.replay {
		if st.rng.Intn(10000) < s.cfg.FinePM {
			v = 1 + st.rng.Intn(n)
		}
	}
	v = st.next(n+1, v)
	if v == 0 {
		return
	}
	s.steps++
	v--
	g := s.runq[v]
	move(s.runq[v:], s.runq[v+1:])
	s.runq[n-1] = self
	self.since = s.steps
	self.sinceT = s.now
	self.state = gRunnable
	s.hash = (s.hash ^ uint64(g.ID)*0x100000001b3 ^ s.steps) * 0x9e3779b97f4a7c15
	switchTo(self, g)
}

// Block parks the running goroutine until Ready is called on it.
//
//go:norace
func Block(why string) {
	if !s.active {
		panic("simrt: blocking operation outside of a simulation: " + why)
	}
	self := s.cur
	self.state = gBlocked
	self.why = why
	if why != "mutex" {
		self.Blocks++
	}
	next := pick(nil)
	if next == self { // cannot happen: self is blocked
		panic("simrt: internal error")
	}
	switchTo(self, next)
	if s.ended {
		select {}
	}
}

// Sleep blocks the running goroutine for d simulated nanoseconds.
//
//go:norace
func Sleep(d int64) {
	g := s.cur
	if d <= 0 {
		yieldAt()
		return
	}
	// g may have been registered with a condition before it got here (a stall inside
	// Cond.Wait): a signal must neither end the sleep nor leave the timer behind
	done := false
	After(d, func() { sleepDone(g, &done) })
	for !done {
		Block("sleep")
	}
}

//go:norace
func sleepDone(g *G, done *bool) {
	*done = true
	Ready(g)
}

// dispatcher: runs one event each time it is picked
func g0Main(g *G) {
	for {
		park(g)
		if g.quit || !g0Step(g) {
			return
		}
	}
}

//go:norace
func g0Step(g0 *G) bool {
	for {
		if s.ended {
			return false
		}
		t := heapRemove(0)
		if t.ev.at > s.now {
			s.now = t.ev.at
		}
		s.events++
		InHarness++
		t.ev.fn()
		InHarness--
		if s.ended {
			return false
		}
		g := pick(nil)
		if g == nil {
			return false
		}
		if g == g0 {
			continue
		}
		transfer(g)
		return true
	}
}

// ---- failures and running ----

//go:norace
func dump() string {
	out := ""
	for i, g := range s.all {
		if i > 40 {
			out += "  ...\n"
			break
		}
		st := [...]string{"runnable", "running", "blocked", "dead"}[g.state]
		out += Sprintf("  %s: %s %s\n", g.Name, st, g.why)
	}
	return out
}

// Dump describes all live goroutines.
func Dump() string { return dump() }

//go:norace
func failLocked(class, msg string) {
	if s.fail == nil {
		s.fail = &Failure{Class: class, Msg: msg}
	}
	endRun()
}

//go:norace
func endRun() {
	if s.ended {
		return
	}
	s.ended = true
	raceDisable()
	close(s.done)
	raceEnable()
}

// Fail records a violation and ends the run. It does not return.
//
//go:norace
func Fail(class, msg string) {
	failLocked(class, msg)
	select {}
}

// FailAsync records a violation and ends the run at the next scheduling point.
//
//go:norace
func FailAsync(class, msg string) { failLocked(class, msg) }

// Result of a run.
type Result struct {
	Fail     *Failure
	Steps    uint64
	Switches uint64
	Events   uint64
	Early    uint64
	Stalls   uint64
	Now      int64
	Hash     uint64
	Rec      [NumStreams][]Choice
	N        [NumStreams]uint32
}

// Run executes main as the first simulated goroutine until it returns or the run fails.
// If the run fails, goroutines are left parked for ever: the process must be discarded.
func Run(cfg SchedCfg, seed uint64, tape *[NumStreams][]Choice, main func()) Result {
	epoch++
	raceAcquire(unsafe.Pointer(&runEdge))
	s = sched{cfg: cfg, done: make(chan struct{}), epoch: epoch}
	for _, x := range cfg.Stalls {
		if x.K > 0 && x.K < numPoints {
			s.pstalls[x.K] = append(s.pstalls[x.K], x)
		} else {
			s.stalls = append(s.stalls, x)
		}
	}
	InHarness = 0
	stallCount = 0
	for i := range s.st {
		s.st[i].rng = NewRNG(Mix(seed, uint64(i)+77))
		if tape != nil {
			s.st[i].replay = true
			s.st[i].tape = tape[i]
		}
	}
	if cfg.Policy == PolicyPCT && tape == nil {
		rng := &s.st[StreamSched].rng
		for i := 0; i < cfg.PCTDepth; i++ {
			s.pctPoints = append(s.pctPoints, uint64(rng.Intn(cfg.PCTLen+1)))
		}
		for i := range s.pctPoints { // insertion sort
			for j := i; j > 0 && s.pctPoints[j] < s.pctPoints[j-1]; j-- {
				s.pctPoints[j], s.pctPoints[j-1] = s.pctPoints[j-1], s.pctPoints[j]
			}
		}
	}
	s.g0 = &G{ID: 0, Name: "dispatcher", wake: make(chan struct{}, 1)}
	s.active = true
	Fine = cfg.Fine
	go g0Main(s.g0)
	spawn("main", false, func() {
		main()
		endRunMain()
	})
	first := pick(nil)
	transfer(first)
	<-s.done
	res := Result{Fail: s.fail, Steps: s.steps, Switches: s.switches, Events: s.events, Early: s.early, Stalls: stallCount, Now: s.now, Hash: s.hash}
	for i := range s.st {
		res.Rec[i] = s.st[i].rec
		res.N[i] = s.st[i].n
	}
	s.active = false
	Fine = false
	if s.fail == nil {
		// let the dispatcher end
		s.g0.quit = true
		unpark(s.g0)
	}
	return res
}

// move is copy; the runtime's own copy would be checked by the race detector.
//
//go:norace
func move[T any](dst, src []T) {
	n := len(src)
	if len(dst) < n {
		n = len(dst)
	}
	if n == 0 {
		return
	}
	if uintptr(unsafe.Pointer(&dst[0])) <= uintptr(unsafe.Pointer(&src[0])) {
		for i := 0; i < n; i++ {
			dst[i] = src[i]
		}
		return
	}
	for i := n - 1; i >= 0; i-- {
		dst[i] = src[i]
	}
}

// runEdge orders each run after the ones before it for the race detector.
var runEdge byte

func endRunMain() {
	raceReleaseMerge(unsafe.Pointer(&runEdge))
	endRunMainNR()
	runtime.Goexit()
}

//go:norace
func endRunMainNR() {
	if s.ended { // failed meanwhile
		select {}
	}
	s.cur.state = gDead
	s.active = false
	endRun()
}

// LiveLib returns the number of live goroutines started by library code.
//
//go:norace
func LiveLib() int {
	n := 0
	for _, g := range s.all {
		if g.Lib {
			n++
		}
	}
	return n
}

//go:norace
func LiveAll() int { return len(s.all) }

// Epoch identifies the current run (used to reset package-level pools).
//
//go:norace
func Epoch() uint64 { return epoch }

// RunCfg returns the configuration of the current run.
//
//go:norace
func RunCfg() *SchedCfg { return &s.cfg }

// Acquire and ReleaseMerge give the race detector the ordering that the simulated
// operations imply (no-ops without -race).
func Acquire(p unsafe.Pointer) { raceAcquire(p) }

func ReleaseMerge(p unsafe.Pointer) { raceReleaseMerge(p) }

func RaceOff() { raceDisable() }
func RaceOn()  { raceEnable() }

// SpawnLib starts a goroutine of the library from an event.
func SpawnLib(fn func()) { spawn("lib", true, fn) }

// Gosched replaces runtime.Gosched: another runnable goroutine goes first.
func Gosched() { gosched() }

//go:norace
func gosched() {
	if !s.active || InHarness > 0 {
		return
	}
	if s.ended {
		select {}
	}
	self := s.cur
	if len(s.runq) == 0 {
		yieldAt()
		return
	}
	self.state = gRunnable
	self.since = s.steps
	self.sinceT = s.now
	s.runq = append(s.runq, self)
	next := pick(nil)
	switchTo(self, next)
}

// GoschedOf replaces runtime.Gosched() (the argument keeps the import used).
func GoschedOf(func()) { gosched() }
