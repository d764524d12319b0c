package simrt

import "unsafe"

// Channels keep their real Go representation; only the operations are simulated.
// Values of buffered channels live in the real buffer, waiting goroutines live in
// queues kept here, with the hand-over rules of the Go runtime (FIFO, direct).

type waiter struct {
	g    *G
	op   *selOp // shared by all cases of one select
	idx  int    // case index
	slot unsafe.Pointer
	ok   *bool
}

type selOp struct {
	fired bool
	idx   int
}

type chanState struct {
	key   unsafe.Pointer
	recvq []*waiter
	sendq []*waiter
}

//go:norace
func findChan(key unsafe.Pointer, create bool) *chanState {
	for i := len(s.chans) - 1; i >= 0; i-- {
		c := s.chans[i]
		if c.key == key {
			return c
		}
	}
	if !create {
		return nil
	}
	c := &chanState{key: key}
	s.chans = append(s.chans, c)
	return c
}

//go:norace
func (c *chanState) gc() {
	if c == nil || len(c.recvq) > 0 || len(c.sendq) > 0 {
		return
	}
	for i, x := range s.chans {
		if x == c {
			n := len(s.chans) - 1
			s.chans[i] = s.chans[n]
			s.chans[n] = nil
			s.chans = s.chans[:n]
			return
		}
	}
}

//go:norace
func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		move(*q, (*q)[1:])
		(*q)[len(*q)-1] = nil
		*q = (*q)[:len(*q)-1]
		if w.op.fired {
			continue
		}
		w.op.fired = true
		w.op.idx = w.idx
		return w
	}
	return nil
}

//go:norace
func dropFired(q *[]*waiter) {
	k := 0
	for _, w := range *q {
		if !w.op.fired {
			(*q)[k] = w
			k++
		}
	}
	for i := k; i < len(*q); i++ {
		(*q)[i] = nil
	}
	*q = (*q)[:k]
}

func keyOf[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func keyR[T any](ch <-chan T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch))
}
func keyS[T any](ch chan<- T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch))
}

// tryRecv attempts to receive without blocking.
//
//go:norace
func tryRecv[T any](ch <-chan T) (v T, ok, done bool) {
	if ch == nil {
		return
	}
	key := keyR(ch)
	select {
	case v, ok = <-ch:
		done = true
	default:
	}
	c := findChan(key, false)
	if c == nil {
		return
	}
	if done {
		if ok {
			// a slot became free: the first waiting sender may fill it
			if w := popWaiter(&c.sendq); w != nil {
				sv := *(*T)(w.slot)
				raceAcquire(unsafe.Pointer(w))
				refill(ch, sv)
				Ready(w.g)
			}
		}
		c.gc()
		return
	}
	if cap(ch) == 0 {
		if w := popWaiter(&c.sendq); w != nil {
			v = *(*T)(w.slot)
			raceAcquire(unsafe.Pointer(w))
			raceReleaseMerge(unsafe.Pointer(w))
			ok, done = true, true
			Ready(w.g)
		}
		c.gc()
	}
	return
}

func refill[T any](ch <-chan T, v T) {
	c := *(*chan T)(unsafe.Pointer(&ch))
	select {
	case c <- v:
	default:
		panic("simrt: channel refill failed")
	}
}

// trySend attempts to send without blocking.
//
//go:norace
func trySend[T any](ch chan<- T, v T) (done bool) {
	if ch == nil {
		return false
	}
	key := keyS(ch)
	if c := findChan(key, false); c != nil {
		if w := popWaiter(&c.recvq); w != nil {
			*(*T)(w.slot) = v
			*w.ok = true
			raceReleaseMerge(unsafe.Pointer(w))
			c.gc()
			Ready(w.g)
			return true
		}
		c.gc()
	}
	if cap(ch) == 0 {
		if chanClosed(ch) {
			panic("send on closed channel")
		}
		return false
	}
	select {
	case ch <- v: // panics when closed, as it should
		return true
	default:
		return false
	}
}

// chanClosed reports whether an unbuffered channel is closed.
func chanClosed[T any](ch chan<- T) bool {
	c := *(*chan T)(unsafe.Pointer(&ch))
	select {
	case _, ok := <-c:
		return !ok
	default:
		return false
	}
}

// Recv2 implements v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !active() {
		v, ok := <-ch
		return v, ok
	}
	yieldAt()
	v, ok, done := tryRecv(ch)
	if done {
		return v, ok
	}
	return blockRecv(ch)
}

//go:norace
func blockRecv[T any](ch <-chan T) (T, bool) {
	for ch == nil {
		Block("receive on nil channel")
	}
	slot := new(T)
	ok := new(bool)
	w := &waiter{g: s.cur, op: &selOp{}, slot: unsafe.Pointer(slot), ok: ok}
	c := findChan(keyR(ch), true)
	c.recvq = append(c.recvq, w)
	for !w.op.fired {
		Block("channel receive")
	}
	raceAcquire(unsafe.Pointer(w))
	return *slot, *ok
}

// Recv implements <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// SendTo implements ch <- v as SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

func send[T any](ch chan<- T, v T) {
	if !active() {
		ch <- v
		return
	}
	yieldAt()
	if trySend(ch, v) {
		yieldAt()
		return
	}
	blockSend(ch, v)
}

//go:norace
func blockSend[T any](ch chan<- T, v T) {
	for ch == nil {
		Block("send on nil channel")
	}
	slot := new(T)
	*slot = v
	closed := new(bool)
	*closed = true
	w := &waiter{g: s.cur, op: &selOp{}, slot: unsafe.Pointer(slot), ok: new(bool)}
	raceReleaseMerge(unsafe.Pointer(w))
	c := findChan(keyS(ch), true)
	c.sendq = append(c.sendq, w)
	for !w.op.fired {
		Block("channel send")
	}
	if *w.ok { // set by Close
		panic("send on closed channel")
	}
	raceAcquire(unsafe.Pointer(w))
}

// NonblockSend sends if it is possible at once (for timers); callable from events.
//
//go:norace
func NonblockSend[T any](ch chan T, v T) {
	raceDisable()
	trySend[T](ch, v)
	raceEnable()
}

// Close implements close(ch).
func Close[T any](ch chan<- T) {
	if !active() {
		close(ch)
		return
	}
	yieldAt()
	close(ch)
	closeWake(ch)
	yieldAt()
}

//go:norace
func closeWake[T any](ch chan<- T) {
	c := findChan(keyS(ch), false)
	if c == nil {
		return
	}
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		*w.ok = false
		raceReleaseMerge(unsafe.Pointer(w))
		Ready(w.g)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		*w.ok = true
		Ready(w.g)
	}
	c.gc()
}

// ---- select ----

// Case is one communication clause of a select statement.
type Case interface {
	try() bool
	ready() bool
	enqueue(g *G, op *selOp, idx int)
	finish()
	cleanup()
}

// RecvCase is a receive clause; V and OK hold the result.
type RecvCase[T any] struct {
	ch  <-chan T
	V   T
	OK  bool
	w   *waiter
	key unsafe.Pointer
}

// R makes a receive clause.
func R[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) try() bool {
	v, ok, done := tryRecv(c.ch)
	if done {
		c.V, c.OK = v, ok
	}
	return done
}

//go:norace
func (c *RecvCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 {
		return true
	}
	if cs := findChan(keyR(c.ch), false); cs != nil {
		dropFired(&cs.sendq)
		if len(cs.sendq) > 0 {
			return true
		}
	}
	return recvClosed(c.ch)
}

// recvClosed reports whether an empty channel is closed.
func recvClosed[T any](ch <-chan T) bool {
	if len(ch) > 0 {
		return false
	}
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

//go:norace
func (c *RecvCase[T]) enqueue(g *G, op *selOp, idx int) {
	if c.ch == nil {
		return
	}
	c.w = &waiter{g: g, op: op, idx: idx, slot: unsafe.Pointer(&c.V), ok: &c.OK}
	cs := findChan(keyR(c.ch), true)
	cs.recvq = append(cs.recvq, c.w)
}

func (c *RecvCase[T]) finish() { raceAcquire(unsafe.Pointer(c.w)) }

//go:norace
func (c *RecvCase[T]) cleanup() {
	if c.w == nil {
		return
	}
	if cs := findChan(keyR(c.ch), false); cs != nil {
		dropFired(&cs.recvq)
		cs.gc()
	}
}

// SendCase is a send clause.
type SendCase[T any] struct {
	ch     chan<- T
	v      T
	closed bool
	w      *waiter
}

// S makes a send clause: S(ch)(v).
func S[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}

func (c *SendCase[T]) try() bool { return trySend(c.ch, c.v) }

//go:norace
func (c *SendCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) < cap(c.ch) {
		return true
	}
	if cs := findChan(keyS(c.ch), false); cs != nil {
		dropFired(&cs.recvq)
		if len(cs.recvq) > 0 {
			return true
		}
	}
	return cap(c.ch) == 0 && chanClosed(c.ch)
}

//go:norace
func (c *SendCase[T]) enqueue(g *G, op *selOp, idx int) {
	if c.ch == nil {
		return
	}
	c.w = &waiter{g: g, op: op, idx: idx, slot: unsafe.Pointer(&c.v), ok: &c.closed}
	raceReleaseMerge(unsafe.Pointer(c.w))
	cs := findChan(keyS(c.ch), true)
	cs.sendq = append(cs.sendq, c.w)
}

func (c *SendCase[T]) finish() {
	if c.closed {
		panic("send on closed channel")
	}
	raceAcquire(unsafe.Pointer(c.w))
}

//go:norace
func (c *SendCase[T]) cleanup() {
	if c.w == nil {
		return
	}
	if cs := findChan(keyS(c.ch), false); cs != nil {
		dropFired(&cs.sendq)
		cs.gc()
	}
}

// Select runs a select statement and returns the index of the chosen clause,
// -1 for the default clause.
func Select(hasDefault bool, cases ...Case) int {
	if !active() {
		panic("simrt: select outside of a simulation")
	}
	yieldAt()
	nready := 0
	for _, c := range cases {
		if c.ready() {
			nready++
		}
	}
	if nready > 0 {
		k := chooseSelect(nready)
		for i, c := range cases {
			if c.ready() {
				if k == 0 {
					if !c.try() {
						panic("simrt: ready case not executable")
					}
					return i
				}
				k--
			}
		}
	}
	if hasDefault {
		return -1
	}
	return blockSelect(cases)
}

//go:norace
func chooseSelect(n int) int { return Choose(StreamSched, n, 500) }

//go:norace
func blockSelect(cases []Case) int {
	op := &selOp{}
	g := s.cur
	for i, c := range cases {
		c.enqueue(g, op, i)
	}
	for !op.fired {
		Block("select")
	}
	for _, c := range cases {
		c.cleanup()
	}
	cases[op.idx].finish()
	return op.idx
}

// RangeInit evaluates the channel of a range statement and does the first receive.
func RangeInit[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}
