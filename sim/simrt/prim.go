package simrt

import "unsafe"

// Sem is the building block of the simulated locks: a lock word with a FIFO of
// waiters. As with sync.Mutex, unlocking wakes the first waiter, a newcomer may
// overtake it, and a waiter that lost repeatedly gets the lock handed over.
type Sem struct {
	epoch   uint64
	held    bool
	waiters []*semWaiter
}

type semWaiter struct {
	g       *G
	fails   int
	granted bool
	woken   bool // taken out of the queue by Unlock
}

//go:norace
func (m *Sem) reset() {
	if m.epoch != epoch {
		m.epoch = epoch
		if active() {
			// a package-level lock left over from an earlier run
			m.held = false
			m.waiters = nil
		}
	}
}

//go:norace
func (m *Sem) tryLock() bool {
	m.reset()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Lock acquires m.
func (m *Sem) Lock() {
	yieldAt()
	m.lockSlow()
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Sem) lockSlow() {
	if m.tryLock() {
		return
	}
	if !s.active {
		panic("simrt: contended lock outside of a simulation")
	}
	w := &semWaiter{g: s.cur}
	m.waiters = append(m.waiters, w)
	for {
		for !w.woken {
			Block("mutex")
		}
		w.woken = false
		if w.granted {
			return
		}
		if m.tryLock() {
			return
		}
		w.fails++
		// back to the front, as the Go mutex does
		m.waiters = append(m.waiters, nil)
		move(m.waiters[1:], m.waiters)
		m.waiters[0] = w
	}
}

// TryLock tries to acquire m.
func (m *Sem) TryLock() bool {
	yieldAt()
	if m.tryLock() {
		raceAcquire(unsafe.Pointer(m))
		return true
	}
	return false
}

// Unlock releases m.
func (m *Sem) Unlock() {
	raceReleaseMerge(unsafe.Pointer(m))
	if !m.unlock() {
		fatal("sync: unlock of unlocked mutex")
	}
	yieldAt()
}

//go:norace
func (m *Sem) unlock() bool {
	m.reset()
	if !m.held {
		return false
	}
	if len(m.waiters) == 0 {
		m.held = false
		return true
	}
	w := m.waiters[0]
	move(m.waiters, m.waiters[1:])
	m.waiters[len(m.waiters)-1] = nil
	m.waiters = m.waiters[:len(m.waiters)-1]
	w.woken = true
	if w.fails >= 3 {
		w.granted = true
	} else {
		m.held = false
	}
	Ready(w.g)
	return true
}

func fatal(msg string) {
	if active() {
		Fail("panic", "fatal error: "+msg+"\n"+shortStack())
	}
	panic(msg)
}

// Fatal ends the run the way a fatal error of the Go runtime would.
func Fatal(msg string) { fatal(msg) }

// Waitq is a FIFO of blocked goroutines.
type Waitq struct {
	epoch uint64
	gs    []*qw
}

type qw struct {
	g     *G
	ready bool
}

//go:norace
func (q *Waitq) reset() {
	if q.epoch != epoch {
		q.epoch = epoch
		q.gs = nil
	}
}

// Enqueue registers the running goroutine; it must then call Wait on the result.
//
//go:norace
func (q *Waitq) Enqueue() *qw {
	q.reset()
	w := &qw{g: s.cur}
	q.gs = append(q.gs, w)
	return w
}

// Wait blocks until the entry has been released.
//
//go:norace
func (w *qw) Wait(why string) {
	for !w.ready {
		Block(why)
	}
}

// WakeOne releases the first entry; it reports whether there was one.
//
//go:norace
func (q *Waitq) WakeOne() bool {
	q.reset()
	if len(q.gs) == 0 {
		return false
	}
	w := q.gs[0]
	move(q.gs, q.gs[1:])
	q.gs[len(q.gs)-1] = nil
	q.gs = q.gs[:len(q.gs)-1]
	w.ready = true
	Ready(w.g)
	return true
}

// WakeAll releases all entries.
//
//go:norace
func (q *Waitq) WakeAll() {
	for q.WakeOne() {
	}
}

// Len returns the number of waiting goroutines.
//
//go:norace
func (q *Waitq) Len() int { q.reset(); return len(q.gs) }
