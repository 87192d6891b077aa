// Package vsync stands in for package sync in the instrumented library: the
// same API, with blocking decided by the simulator.
package vsync

import (
	"sync"

	"verifsim/rt"
)

type Locker = sync.Locker

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !rt.On() {
		m.m.Lock()
		return
	}
	rt.Y(-10)
	rt.Block("mutex", m.m.TryLock)
	rt.Y(-10)
}

func (m *Mutex) TryLock() bool {
	rt.Y(-10)
	ok := m.m.TryLock()
	rt.Y(-10)
	return ok
}

func (m *Mutex) Unlock() {
	rt.Y(-11)
	m.m.Unlock()
	rt.Y(-11)
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if !rt.On() {
		m.m.Lock()
		return
	}
	rt.Y(-10)
	rt.Block("rwmutex", m.m.TryLock)
	rt.Y(-10)
}

func (m *RWMutex) RLock() {
	if !rt.On() {
		m.m.RLock()
		return
	}
	rt.Y(-10)
	rt.Block("rwmutex(read)", m.m.TryRLock)
	rt.Y(-10)
}

func (m *RWMutex) TryLock() bool  { rt.Y(-10); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { rt.Y(-10); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { rt.Y(-11); m.m.Unlock(); rt.Y(-11) }
func (m *RWMutex) RUnlock()       { rt.Y(-11); m.m.RUnlock(); rt.Y(-11) }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	rt.Y(-12)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	mu sync.Mutex
	n  int
	w  sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if !rt.On() {
		w.w.Add(d)
	}
	rt.Y(-13)
	w.mu.Lock()
	w.n += d
	n := w.n
	w.mu.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !rt.On() {
		w.w.Wait()
		return
	}
	rt.Y(-13)
	rt.Block("waitgroup", func() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.n == 0 })
}

type Cond struct {
	L   Locker
	seq int
	sig int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := c.seq
	c.seq++
	c.L.Unlock()
	rt.Block("cond", func() bool { return c.sig > t })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if c.sig < c.seq {
		c.sig++
	}
	rt.Y(-14)
}

func (c *Cond) Broadcast() {
	c.sig = c.seq
	rt.Y(-14)
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { rt.Y(-15); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.Y(-15); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.Y(-15); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.Y(-15); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.Y(-15); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.Y(-15); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { rt.Y(-15); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { rt.Y(-15); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { rt.Y(-15); m.m.Range(f) }
func (m *Map) Clear()                           { rt.Y(-15); m.m.Clear() }

type Pool struct {
	New func() any
	mu  sync.Mutex
	s   []any
}

func (p *Pool) Get() any {
	rt.Y(-16)
	p.mu.Lock()
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	rt.Y(-16)
	p.mu.Lock()
	if len(p.s) < 16 {
		p.s = append(p.s, x)
	}
	p.mu.Unlock()
}
