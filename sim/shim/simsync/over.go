// Package simsync replaces sync: blocking goes through the scheduler and every
// operation gives the race detector its happens-before edge.
package simsync

import (
	"unsafe"

	"verifsim/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	rt.Y(-30)
	if m.locked {
		rt.Block("Mutex.Lock", func() bool { return !m.locked })
	}
	m.locked = true
	rt.Acquire(unsafe.Pointer(m))
}
func (m *Mutex) TryLock() bool {
	rt.Y(-30)
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(unsafe.Pointer(m))
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	rt.Release(unsafe.Pointer(m))
	m.locked = false
	rt.Y(-31)
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
	rel     byte
}

func (m *RWMutex) Lock() {
	rt.Y(-30)
	m.waiting++
	if m.w || m.r > 0 {
		rt.Block("RWMutex.Lock", func() bool { return !m.w && m.r == 0 })
	}
	m.waiting--
	m.w = true
	rt.Acquire(unsafe.Pointer(m))
	rt.Acquire(unsafe.Pointer(&m.rel))
}
func (m *RWMutex) TryLock() bool {
	rt.Y(-30)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	rt.Acquire(unsafe.Pointer(m))
	rt.Acquire(unsafe.Pointer(&m.rel))
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.Release(unsafe.Pointer(m))
	m.w = false
	rt.Y(-31)
}
func (m *RWMutex) RLock() {
	rt.Y(-30)
	if m.w || m.waiting > 0 {
		rt.Block("RWMutex.RLock", func() bool { return !m.w && m.waiting == 0 })
	}
	m.r++
	rt.Acquire(unsafe.Pointer(m))
}
func (m *RWMutex) TryRLock() bool {
	rt.Y(-30)
	if m.w {
		return false
	}
	m.r++
	rt.Acquire(unsafe.Pointer(m))
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.Release(unsafe.Pointer(&m.rel))
	m.r--
	rt.Y(-31)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	rt.Y(-32)
	if o.done {
		rt.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; rt.Release(unsafe.Pointer(o)) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	rt.Release(unsafe.Pointer(w))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	rt.Y(-33)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rt.Y(-33)
	if w.n > 0 {
		rt.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	}
	rt.Acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L       Locker
	seq     int
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := new(bool)
	c.waiters = append(c.waiters, woken)
	c.L.Unlock()
	rt.Block("Cond.Wait", func() bool { return *woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	rt.Y(-34)
}
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	rt.Y(-34)
}

// Pool hands items back in last-in first-out order: the adversarial choice for code
// that forgets to reset what it takes out.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	rt.Y(-35)
	rt.Acquire(unsafe.Pointer(p))
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	rt.Release(unsafe.Pointer(p))
	p.items = append(p.items, x)
	rt.Y(-35)
}

type Map struct {
	m map[interface{}]interface{}
}

func (m *Map) edge() {
	rt.Y(-36)
	rt.Acquire(unsafe.Pointer(m))
	rt.Release(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.edge()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) { m.edge(); m.m[rt.PK(k)] = v }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.edge()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[rt.PK(k)] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.edge()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.edge(); delete(m.m, k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.edge()
	o, ok := m.m[k]
	m.m[rt.PK(k)] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.edge()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.edge()
	if c, ok := m.m[k]; ok && c == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.edge(); m.m = map[interface{}]interface{}{} }
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.edge()
	for it, k, v := rt.Iter(m.m); it.Next(&k, &v); {
		if !f(k, v) {
			return
		}
	}
}
