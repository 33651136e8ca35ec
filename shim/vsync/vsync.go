// Package vsync stands in for package sync in the instrumented build: under
// the controlled scheduler every operation is a scheduling point and blocking
// is visible to the scheduler; otherwise the real primitives are used.
package vsync

import (
	"sync"
	"time"
	"unsafe"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
)

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

var noDeadline time.Time

// ---- Mutex ----

type Mutex struct {
	epoch  int64
	locked bool
	real   sync.Mutex
}

func (m *Mutex) fresh() {
	if e := vs.Epoch(); m.epoch != e {
		m.epoch, m.locked = e, false
	}
}

func (m *Mutex) Lock() { m.lock(1) }

func (m *Mutex) lock(skip int) {
	if !vs.Managed() {
		m.real.Lock()
		return
	}
	if vs.Dying() {
		return
	}
	m.fresh()
	vs.WaitOp(vs.KLock, uintptr(unsafe.Pointer(m)), skip+1, func() bool { return !m.locked }, noDeadline)
	m.locked = true
	vs.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if !vs.Managed() {
		return m.real.TryLock()
	}
	if vs.Dying() {
		return true
	}
	m.fresh()
	vs.Point(vs.KLock, uintptr(unsafe.Pointer(m)), 1)
	if m.locked {
		return false
	}
	m.locked = true
	vs.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !vs.Managed() {
		m.real.Unlock()
		return
	}
	if vs.Dying() {
		return
	}
	m.fresh()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	vs.RaceRelease(unsafe.Pointer(m))
	m.locked = false
}

// ---- RWMutex ----

type RWMutex struct {
	epoch int64
	w     bool
	r     int
	wwait int
	rel   byte // release target of readers
	real  sync.RWMutex
}

func (m *RWMutex) fresh() {
	if e := vs.Epoch(); m.epoch != e {
		m.epoch, m.w, m.r, m.wwait = e, false, 0, 0
	}
}

func (m *RWMutex) Lock() {
	if !vs.Managed() {
		m.real.Lock()
		return
	}
	if vs.Dying() {
		return
	}
	m.fresh()
	vs.Point(vs.KLock, uintptr(unsafe.Pointer(m)), 1)
	m.wwait++
	if m.w || m.r > 0 {
		vs.WaitOp(vs.KLock, uintptr(unsafe.Pointer(m)), 1, func() bool { return !m.w && m.r == 0 }, noDeadline)
	}
	m.wwait--
	m.w = true
	vs.RaceAcquire(unsafe.Pointer(m))
	vs.RaceAcquire(unsafe.Pointer(&m.rel))
}

func (m *RWMutex) TryLock() bool {
	if !vs.Managed() {
		return m.real.TryLock()
	}
	if vs.Dying() {
		return true
	}
	m.fresh()
	vs.Point(vs.KLock, uintptr(unsafe.Pointer(m)), 1)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	vs.RaceAcquire(unsafe.Pointer(m))
	vs.RaceAcquire(unsafe.Pointer(&m.rel))
	return true
}

func (m *RWMutex) Unlock() {
	if !vs.Managed() {
		m.real.Unlock()
		return
	}
	if vs.Dying() {
		return
	}
	m.fresh()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vs.RaceRelease(unsafe.Pointer(m))
	m.w = false
}

func (m *RWMutex) RLock() {
	if !vs.Managed() {
		m.real.RLock()
		return
	}
	if vs.Dying() {
		return
	}
	m.fresh()
	// a waiting writer blocks new readers, as in package sync
	vs.WaitOp(vs.KLock, uintptr(unsafe.Pointer(m)), 1, func() bool { return !m.w && m.wwait == 0 }, noDeadline)
	m.r++
	vs.RaceAcquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	if !vs.Managed() {
		return m.real.TryRLock()
	}
	if vs.Dying() {
		return true
	}
	m.fresh()
	vs.Point(vs.KLock, uintptr(unsafe.Pointer(m)), 1)
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	vs.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	if !vs.Managed() {
		m.real.RUnlock()
		return
	}
	if vs.Dying() {
		return
	}
	m.fresh()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vs.RaceRelease(unsafe.Pointer(&m.rel))
	m.r--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// ---- WaitGroup ----

type WaitGroup struct {
	epoch   int64
	n       int
	waiters int
	gen     int
	sema    uint64
	real    sync.WaitGroup
}

func (w *WaitGroup) fresh() {
	if e := vs.Epoch(); w.epoch != e {
		w.epoch, w.n, w.waiters = e, 0, 0
	}
}

func (w *WaitGroup) Add(d int) { w.add(d) }

func (w *WaitGroup) add(d int) {
	if !vs.Managed() {
		w.real.Add(d)
		return
	}
	if vs.Dying() {
		return
	}
	w.fresh()
	vs.Point(vs.KWG, uintptr(unsafe.Pointer(w)), 2)
	if d < 0 {
		vs.RaceRelease(unsafe.Pointer(w))
	}
	if d > 0 && w.n == 0 {
		// as package sync models it for the race detector: the first increment
		// must be ordered with Wait
		vs.RaceRead(unsafe.Pointer(&w.sema))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.gen++
		w.waiters = 0
	}
}

func (w *WaitGroup) Done() { w.add(-1) }

func (w *WaitGroup) Wait() {
	if !vs.Managed() {
		w.real.Wait()
		return
	}
	if vs.Dying() {
		return
	}
	w.fresh()
	// as in package sync: once the counter has reached zero the waiters are
	// released, even if it has grown again before they run
	vs.Point(vs.KWG, uintptr(unsafe.Pointer(w)), 1)
	if w.n > 0 {
		if w.waiters == 0 {
			vs.RaceWrite(unsafe.Pointer(&w.sema))
		}
		w.waiters++
		g := w.gen
		vs.WaitOp(vs.KWG, uintptr(unsafe.Pointer(w)), 1, func() bool { return w.n == 0 || w.gen != g }, noDeadline)
	}
	vs.RaceAcquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

// ---- Once ----

type Once struct {
	m    Mutex
	done bool
	rel  byte
}

func (o *Once) Do(f func()) {
	if vs.Managed() && !vs.Dying() {
		vs.Point(vs.KLock, uintptr(unsafe.Pointer(o)), 1)
	} else if !vs.Managed() {
		o.m.Lock()
		defer o.m.Unlock()
		if !o.done {
			defer func() { o.done = true }()
			f()
		}
		return
	}
	if o.done {
		vs.RaceAcquire(unsafe.Pointer(&o.rel))
		return
	}
	o.m.lock(1)
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			vs.RaceRelease(unsafe.Pointer(&o.rel))
			o.done = true
		}()
		f()
	}
}

// ---- Cond ----

type Cond struct {
	L    Locker
	q    []*condWaiter
	ep   int64
	real *sync.Cond
}

type condWaiter struct{ ready bool }

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vs.Managed() {
		c.real.Wait()
		return
	}
	if vs.Dying() {
		return
	}
	if e := vs.Epoch(); c.ep != e {
		c.ep, c.q = e, nil
	}
	w := &condWaiter{}
	c.q = append(c.q, w)
	c.L.Unlock()
	vs.WaitOp(vs.KCond, uintptr(unsafe.Pointer(c)), 1, func() bool { return w.ready }, noDeadline)
	vs.RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vs.Managed() {
		c.real.Signal()
		return
	}
	vs.Point(vs.KCond, uintptr(unsafe.Pointer(c)), 1)
	vs.RaceRelease(unsafe.Pointer(c))
	if len(c.q) > 0 {
		c.q[0].ready = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	if !vs.Managed() {
		c.real.Broadcast()
		return
	}
	vs.Point(vs.KCond, uintptr(unsafe.Pointer(c)), 1)
	vs.RaceRelease(unsafe.Pointer(c))
	for _, w := range c.q {
		w.ready = true
	}
	c.q = nil
}

// ---- Map: every operation is one atomic step ----

type Map struct{ real sync.Map }

func (m *Map) pt() { vs.Point(vs.KAtomic, uintptr(unsafe.Pointer(m)), 2) }

func (m *Map) Load(k any) (any, bool)           { m.pt(); return m.real.Load(k) }
func (m *Map) Store(k, v any)                   { m.pt(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.pt(); return m.real.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.pt(); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.pt(); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.pt(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { m.pt(); return m.real.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { m.pt(); return m.real.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { m.pt(); m.real.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	all := map[any]any{}
	m.real.Range(func(k, v any) bool { all[k] = v; return true })
	for _, e := range vs.MapEntries(all) {
		k, v, _ := e.Get()
		if !f(k, v) {
			return
		}
	}
}
