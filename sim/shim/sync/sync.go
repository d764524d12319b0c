// Package sync replaces the standard package sync in the instrumented library.
package sync

import (
	"unsafe"

	"verifsim/simrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated sync.Mutex.
type Mutex struct{ s simrt.Sem }

func (m *Mutex) Lock()         { m.s.Lock(); simrt.StallPoint(simrt.PointLocked) }
func (m *Mutex) Unlock()       { m.s.Unlock() }
func (m *Mutex) TryLock() bool { return m.s.TryLock() }

// RWMutex is a simulated sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	w       simrt.Sem // serialises writers
	writer  bool
	readers int
	rq      simrt.Waitq // readers waiting for the writer
	wq      simrt.Waitq // writer waiting for the readers
	epoch   uint64
}

//go:norace
func (m *RWMutex) reset() {
	if m.epoch != simrt.Epoch() {
		m.epoch = simrt.Epoch()
		m.writer, m.readers = false, 0
	}
}

func (m *RWMutex) RLock() {
	simrt.Yield()
	m.rlock()
	simrt.Acquire(unsafe.Pointer(&m.readers))
}

//go:norace
func (m *RWMutex) rlock() {
	m.reset()
	if m.writer {
		w := m.rq.Enqueue()
		w.Wait("rwmutex read lock")
		return // counted by the writer that woke us
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	simrt.Yield()
	ok := m.tryRLock()
	if ok {
		simrt.Acquire(unsafe.Pointer(&m.readers))
	}
	return ok
}

//go:norace
func (m *RWMutex) tryRLock() bool {
	m.reset()
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	simrt.ReleaseMerge(unsafe.Pointer(&m.writer))
	if !m.runlock() {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Yield()
}

//go:norace
func (m *RWMutex) runlock() bool {
	m.reset()
	if m.readers <= 0 {
		return false
	}
	m.readers--
	if m.readers == 0 {
		m.wq.WakeOne()
	}
	return true
}

func (m *RWMutex) Lock() {
	m.w.Lock()
	m.lock()
	simrt.Acquire(unsafe.Pointer(&m.readers))
	simrt.Acquire(unsafe.Pointer(&m.writer))
}

//go:norace
func (m *RWMutex) lock() {
	m.reset()
	m.writer = true
	if m.readers > 0 {
		w := m.wq.Enqueue()
		w.Wait("rwmutex write lock")
	}
}

func (m *RWMutex) TryLock() bool {
	if !m.w.TryLock() {
		return false
	}
	if !m.tryLock() {
		m.w.Unlock()
		return false
	}
	simrt.Acquire(unsafe.Pointer(&m.readers))
	simrt.Acquire(unsafe.Pointer(&m.writer))
	return true
}

//go:norace
func (m *RWMutex) tryLock() bool {
	m.reset()
	if m.readers > 0 || m.writer {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	simrt.ReleaseMerge(unsafe.Pointer(&m.readers))
	if !m.unlock() {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w.Unlock()
}

//go:norace
func (m *RWMutex) unlock() bool {
	m.reset()
	if !m.writer {
		return false
	}
	m.writer = false
	m.readers += m.rq.Len()
	m.rq.WakeAll()
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Cond is a simulated sync.Cond.
type Cond struct {
	L Locker
	q simrt.Waitq
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	simrt.Yield()
	simrt.StallPoint(simrt.PointWait)
	w := c.q.Enqueue()
	c.L.Unlock()
	w.Wait("cond")
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.Yield()
	c.q.WakeOne()
	simrt.Yield()
}

func (c *Cond) Broadcast() {
	simrt.Yield()
	c.q.WakeAll()
	simrt.Yield()
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n int
	q simrt.Waitq
}

func (w *WaitGroup) Add(delta int) {
	simrt.Yield()
	if delta < 0 {
		simrt.ReleaseMerge(unsafe.Pointer(w))
	}
	w.add(delta)
	simrt.Yield()
}

//go:norace
func (w *WaitGroup) add(delta int) {
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	simrt.Yield()
	w.wait()
	simrt.Acquire(unsafe.Pointer(w))
}

//go:norace
func (w *WaitGroup) wait() {
	if w.n > 0 {
		e := w.q.Enqueue()
		e.Wait("waitgroup")
	}
}

// Go runs f in a goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Pool is a simulated sync.Pool: which object Get returns, and whether an object
// survives until then, is decided by the run's configuration and seeded choices.
type Pool struct {
	New   func() any
	items []any
	epoch uint64
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Yield()
	simrt.ReleaseMerge(poolRaceAddr(x))
	p.put(x)
	simrt.Yield() // a use after Put meets the next user
}

//go:norace
func (p *Pool) put(x any) {
	if p.epoch != simrt.Epoch() {
		p.epoch = simrt.Epoch()
		p.items = nil
	}
	p.items = append(p.items, x)
}

func (p *Pool) Get() any {
	simrt.Yield()
	x := p.get()
	if x == nil {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	simrt.Acquire(poolRaceAddr(x))
	return x
}

// poolRaceAddr orders Put and Get of one object only, as the real pool does.
var poolRaceHash [1024]uint64

func poolRaceAddr(x any) unsafe.Pointer {
	ptr := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
	h := uint32((uint64(uint32(ptr)) * 0x85ebca6b) >> 16)
	return unsafe.Pointer(&poolRaceHash[h%uint32(len(poolRaceHash))])
}

//go:norace
func (p *Pool) get() any {
	if p.epoch != simrt.Epoch() {
		p.epoch = simrt.Epoch()
		p.items = nil
	}
	n := len(p.items)
	if n == 0 {
		return nil
	}
	cfg := simrt.RunCfg()
	if simrt.Active() && simrt.Choose(simrt.StreamPool, 2, cfg.PoolDropPM) == 1 {
		p.items = nil // a garbage collection emptied the pool
		return nil
	}
	i := n - 1 // most recently released: exposes sharing soonest
	switch cfg.PoolMode {
	case 1:
		i = 0
	case 2:
		if simrt.Active() {
			i = n - 1 - simrt.Choose(simrt.StreamPool, n, 500)
		}
	}
	x := p.items[i]
	for ; i < len(p.items)-1; i++ {
		p.items[i] = p.items[i+1]
	}
	p.items[n-1] = nil
	p.items = p.items[:n-1]
	return x
}

// Map is a simulated sync.Map with insertion-ordered iteration.
type Map struct {
	m    Mutex
	keys []any
	vals map[any]any
}

func (m *Map) with(f func()) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.vals == nil {
		m.vals = map[any]any{}
	}
	f()
}

func (m *Map) set(k, v any) {
	if _, ok := m.vals[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.vals[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.vals[k]; ok {
		delete(m.vals, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Load(k any) (v any, ok bool) {
	m.with(func() { v, ok = m.vals[k] })
	return
}
func (m *Map) Store(k, v any) { m.with(func() { m.set(k, v) }) }
func (m *Map) Clear()         { m.with(func() { m.keys, m.vals = nil, map[any]any{} }) }
func (m *Map) LoadOrStore(k, v any) (a any, loaded bool) {
	m.with(func() {
		if a, loaded = m.vals[k]; !loaded {
			m.set(k, v)
			a = v
		}
	})
	return
}
func (m *Map) LoadAndDelete(k any) (v any, loaded bool) {
	m.with(func() {
		v, loaded = m.vals[k]
		m.del(k)
	})
	return
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (prev any, loaded bool) {
	m.with(func() {
		prev, loaded = m.vals[k]
		m.set(k, v)
	})
	return
}
func (m *Map) CompareAndSwap(k, old, new any) (ok bool) {
	m.with(func() {
		if v, in := m.vals[k]; in && v == old {
			m.set(k, new)
			ok = true
		}
	})
	return
}
func (m *Map) CompareAndDelete(k, old any) (ok bool) {
	m.with(func() {
		if v, in := m.vals[k]; in && v == old {
			m.del(k)
			ok = true
		}
	})
	return
}
func (m *Map) Range(f func(k, v any) bool) {
	var ks, vs []any
	m.with(func() {
		for _, k := range m.keys {
			ks = append(ks, k)
			vs = append(vs, m.vals[k])
		}
	})
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}
