// Package vsync replaces package sync in the rewritten library.
package vsync

import (
	"sync"

	"verifmc/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	o vsched.Obj
	n int
	r sync.WaitGroup
}

// Add adds to the counter.
func (w *WaitGroup) Add(d int) {
	if !vsched.Active() {
		w.r.Add(d)
		return
	}
	w.o.Point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.o.Release()
	}
	if w.n == 0 {
		w.o.Wake()
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for the counter to be 0.
func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.r.Wait()
		return
	}
	w.o.Point()
	if w.n > 0 {
		w.o.Wait("WaitGroup.Wait")
	}
	w.o.Acquire()
}

// Go starts a thread.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	o      vsched.Obj
	locked bool
	r      sync.Mutex
}

// Lock locks.
func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.r.Lock()
		return
	}
	m.o.Point()
	for m.locked {
		m.o.Wait("Mutex.Lock")
	}
	m.locked = true
	m.o.Acquire()
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		return m.r.TryLock()
	}
	m.o.Point()
	if m.locked {
		return false
	}
	m.locked = true
	m.o.Acquire()
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.r.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.o.Release()
	m.o.Wake()
	m.o.Point()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	o, ro   vsched.Obj
	w       bool
	readers int
	r       sync.RWMutex
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.r.Lock()
		return
	}
	m.o.Point()
	for m.w || m.readers > 0 {
		m.o.Wait("RWMutex.Lock")
	}
	m.w = true
	m.o.Acquire()
	m.ro.Acquire()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.r.TryLock()
	}
	m.o.Point()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.o.Acquire()
	m.ro.Acquire()
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.r.Unlock()
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.o.Release()
	m.o.Wake()
	m.o.Point()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.r.RLock()
		return
	}
	m.o.Point()
	for m.w {
		m.o.Wait("RWMutex.RLock")
	}
	m.readers++
	m.o.Acquire()
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.r.TryRLock()
	}
	m.o.Point()
	if m.w {
		return false
	}
	m.readers++
	m.o.Acquire()
	return true
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.r.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.ro.Release()
	m.o.Wake()
	m.o.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	o vsched.Obj
	q []*ticket
	r *sync.Cond
}

// NewCond replaces sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, r: sync.NewCond(l)} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	if !vsched.Active() {
		c.r.Wait()
		return
	}
	// unlocking is a scheduling point: remember the signals that come before this thread waits
	t := &ticket{}
	c.q = append(c.q, t)
	c.L.Unlock()
	for !t.woken {
		t.o.Wait("Cond.Wait")
	}
	c.L.Lock()
}

type ticket struct {
	o     vsched.Obj
	woken bool
}

func (c *Cond) wake() {
	t := c.q[0]
	c.q = c.q[1:]
	t.woken = true
	t.o.Wake()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if !vsched.Active() {
		c.r.Signal()
		return
	}
	c.o.Point()
	if len(c.q) > 0 {
		c.wake()
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.r.Broadcast()
		return
	}
	c.o.Point()
	for len(c.q) > 0 {
		c.wake()
	}
}

type item struct {
	v any
	o *vsched.Obj
}

// Pool replaces sync.Pool.
type Pool struct {
	New   func() any
	r     sync.Pool
	items []item
}

// Get takes any object of the pool or a new one.
func (p *Pool) Get() any {
	if !vsched.Active() {
		p.r.New = p.New
		return p.r.Get()
	}
	vsched.P1()
	if n := len(p.items); n > 0 {
		i := p.items[n-1]
		p.items = p.items[:n-1]
		i.o.Acquire()
		return i.v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put gives an object back.
func (p *Pool) Put(v any) {
	if !vsched.Active() {
		p.r.Put(v)
		return
	}
	o := &vsched.Obj{}
	o.Release()
	p.items = append(p.items, item{v, o})
}

// Map replaces sync.Map.
type Map struct {
	m Mutex
	r sync.Map
}

func (m *Map) lock()   { m.m.Lock() }
func (m *Map) unlock() { m.m.Unlock() }

// Load loads.
func (m *Map) Load(k any) (any, bool) {
	m.lock()
	defer m.unlock()
	return m.r.Load(k)
}

// Store stores.
func (m *Map) Store(k, v any) {
	m.lock()
	defer m.unlock()
	m.r.Store(k, v)
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.lock()
	defer m.unlock()
	return m.r.LoadOrStore(k, v)
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.lock()
	defer m.unlock()
	return m.r.LoadAndDelete(k)
}

// Delete deletes.
func (m *Map) Delete(k any) {
	m.lock()
	defer m.unlock()
	m.r.Delete(k)
}

// Range iterates.
func (m *Map) Range(f func(k, v any) bool) {
	m.r.Range(f)
}
