// Package vsync replaces sync in instrumented code.
package vsync

import (
	"unsafe"

	"verifmc/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	s      byte
}

func (m *Mutex) Lock() {
	if rt.Dying() {
		return
	}
	rt.Point("Mutex.Lock", func() bool { return !m.locked })
	m.locked = true
	rt.Acquire(unsafe.Pointer(&m.s))
}

func (m *Mutex) TryLock() bool {
	if rt.Dying() {
		return true
	}
	rt.Point("Mutex.TryLock", nil)
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(unsafe.Pointer(&m.s))
	return true
}

func (m *Mutex) Unlock() {
	if rt.Dying() {
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	rt.Release(unsafe.Pointer(&m.s))
	m.locked = false
}

type RWMutex struct {
	readers int
	pending bool // a writer waits or holds
	writing bool
	rs, ws  byte
}

func (m *RWMutex) Lock() {
	if rt.Dying() {
		return
	}
	rt.Point("RWMutex.Lock", func() bool { return !m.pending })
	m.pending = true
	if m.readers > 0 {
		rt.Point("RWMutex.Lock(wait readers)", func() bool { return m.readers == 0 })
	}
	m.writing = true
	rt.Acquire(unsafe.Pointer(&m.rs))
	rt.Acquire(unsafe.Pointer(&m.ws))
}

func (m *RWMutex) TryLock() bool {
	if rt.Dying() {
		return true
	}
	rt.Point("RWMutex.TryLock", nil)
	if m.pending || m.readers > 0 {
		return false
	}
	m.pending, m.writing = true, true
	rt.Acquire(unsafe.Pointer(&m.rs))
	rt.Acquire(unsafe.Pointer(&m.ws))
	return true
}

func (m *RWMutex) Unlock() {
	if rt.Dying() {
		return
	}
	if !m.writing {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	rt.Release(unsafe.Pointer(&m.ws))
	m.writing, m.pending = false, false
}

func (m *RWMutex) RLock() {
	if rt.Dying() {
		return
	}
	rt.Point("RWMutex.RLock", func() bool { return !m.pending })
	m.readers++
	rt.Acquire(unsafe.Pointer(&m.ws))
}

func (m *RWMutex) TryRLock() bool {
	if rt.Dying() {
		return true
	}
	rt.Point("RWMutex.TryRLock", nil)
	if m.pending {
		return false
	}
	m.readers++
	rt.Acquire(unsafe.Pointer(&m.ws))
	return true
}

func (m *RWMutex) RUnlock() {
	if rt.Dying() {
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.rs))
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n int
	s byte
}

func (g *WaitGroup) Add(d int) {
	if rt.Dying() {
		return
	}
	if d < 0 {
		rt.Point("WaitGroup.Done", nil)
		rt.ReleaseMerge(unsafe.Pointer(&g.s))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if rt.Dying() {
		return
	}
	rt.Point("WaitGroup.Wait", func() bool { return g.n == 0 })
	rt.Acquire(unsafe.Pointer(&g.s))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go("WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
	s    byte
}

func (o *Once) Do(f func()) {
	if rt.Dying() {
		return
	}
	rt.Point("Once.Do", nil)
	if o.done {
		rt.Acquire(unsafe.Pointer(&o.s))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			rt.ReleaseMerge(unsafe.Pointer(&o.s))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type Cond struct {
	L       Locker
	waiters []*condWaiter
	s       byte
}

type condWaiter struct{ woken bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	x := &condWaiter{}
	c.waiters = append(c.waiters, x)
	c.L.Unlock()
	rt.Point("Cond.Wait", func() bool { return x.woken })
	rt.Acquire(unsafe.Pointer(&c.s))
	c.L.Lock()
}

func (c *Cond) Signal() {
	rt.Point("Cond.Signal", nil)
	rt.ReleaseMerge(unsafe.Pointer(&c.s))
	if len(c.waiters) > 0 {
		c.waiters[0].woken = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	rt.Point("Cond.Broadcast", nil)
	rt.ReleaseMerge(unsafe.Pointer(&c.s))
	for _, x := range c.waiters {
		x.woken = true
	}
	c.waiters = nil
}

// Pool reuses the most recently returned object, as the real one does on one processor.
type Pool struct {
	New   func() any
	items []any
	s     byte
}

func (p *Pool) Get() any {
	if rt.Active() {
		rt.Point("Pool.Get", nil)
		if n := len(p.items); n > 0 {
			v := p.items[n-1]
			p.items = p.items[:n-1]
			rt.Acquire(unsafe.Pointer(&p.s))
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil || !rt.Active() || rt.Dying() {
		return
	}
	rt.Point("Pool.Put", nil)
	rt.ReleaseMerge(unsafe.Pointer(&p.s))
	p.items = append(p.items, v)
}

type mapEntry struct {
	k, v any
	next *mapEntry
}

type Map struct {
	head *mapEntry
	s    byte
}

func (m *Map) op(name string) {
	if rt.Active() && !rt.Dying() {
		rt.Point("Map."+name, nil)
	}
}

func (m *Map) find(k any) *mapEntry {
	for e := m.head; e != nil; e = e.next {
		if e.k == k {
			return e
		}
	}
	return nil
}

func (m *Map) Load(k any) (any, bool) {
	m.op("Load")
	rt.Acquire(unsafe.Pointer(&m.s))
	if e := m.find(k); e != nil {
		return e.v, true
	}
	return nil, false
}

func (m *Map) set(k, v any) {
	if e := m.find(k); e != nil {
		e.v = v
		return
	}
	p := &m.head
	for *p != nil {
		p = &(*p).next
	}
	*p = &mapEntry{k: k, v: v}
}

func (m *Map) del(k any) {
	for p := &m.head; *p != nil; p = &(*p).next {
		if (*p).k == k {
			*p = (*p).next
			return
		}
	}
}

func (m *Map) Store(k, v any) {
	m.op("Store")
	rt.Acquire(unsafe.Pointer(&m.s))
	rt.ReleaseMerge(unsafe.Pointer(&m.s))
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op("LoadOrStore")
	rt.Acquire(unsafe.Pointer(&m.s))
	if e := m.find(k); e != nil {
		return e.v, true
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.s))
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op("LoadAndDelete")
	rt.Acquire(unsafe.Pointer(&m.s))
	e := m.find(k)
	if e == nil {
		return nil, false
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.s))
	m.del(k)
	return e.v, true
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.op("Swap")
	rt.Acquire(unsafe.Pointer(&m.s))
	rt.ReleaseMerge(unsafe.Pointer(&m.s))
	if e := m.find(k); e != nil {
		old := e.v
		e.v = v
		return old, true
	}
	m.set(k, v)
	return nil, false
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.op("CompareAndSwap")
	rt.Acquire(unsafe.Pointer(&m.s))
	e := m.find(k)
	if e == nil || e.v != old {
		return false
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.s))
	e.v = new
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.op("CompareAndDelete")
	rt.Acquire(unsafe.Pointer(&m.s))
	e := m.find(k)
	if e == nil || e.v != old {
		return false
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.s))
	m.del(k)
	return true
}

func (m *Map) Range(f func(k, v any) bool) {
	m.op("Range")
	rt.Acquire(unsafe.Pointer(&m.s))
	var es []*mapEntry
	for e := m.head; e != nil; e = e.next {
		es = append(es, e)
	}
	for _, e := range es {
		if m.find(e.k) == nil {
			continue
		}
		if !f(e.k, e.v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.op("Clear")
	rt.Acquire(unsafe.Pointer(&m.s))
	rt.ReleaseMerge(unsafe.Pointer(&m.s))
	m.head = nil
}
