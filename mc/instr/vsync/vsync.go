// Package verifsync is the package sync for threads run by verifsched.
package verifsync

import (
	verifsched "verif.local/mc/instr/sched"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	verifsched.P(-1000001)
	verifsched.Block(func() bool { return m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	verifsched.P(-1000002)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	verifsched.P(-1000003)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	writer  bool
	readers int
}

func (m *RWMutex) Lock() {
	verifsched.P(-1000004)
	verifsched.Block(func() bool { return m.writer || m.readers > 0 })
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	verifsched.P(-1000005)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	verifsched.P(-1000006)
}

func (m *RWMutex) RLock() {
	verifsched.P(-1000007)
	verifsched.Block(func() bool { return m.writer })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	verifsched.P(-1000008)
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	verifsched.P(-1000009)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	verifsched.P(-1000010)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	once := OnceFunc(func() { r = f() })
	return func() T { once(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	once := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { once(); return r1, r2 }
}

// Pool is sync.Pool, which gives back what was put last.
type Pool struct {
	New  func() any
	list []any
}

func (p *Pool) Get() any {
	verifsched.P(-1000011)
	if n := len(p.list); n > 0 {
		x := p.list[n-1]
		p.list = p.list[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	verifsched.P(-1000012)
	if x == nil {
		return
	}
	p.list = append(p.list, x)
}

// Map is sync.Map.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	verifsched.P(-1000013)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) Store(k, v any) {
	verifsched.P(-1000014)
	m.put(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	verifsched.P(-1000015)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	verifsched.P(-1000016)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Delete(k any) {
	verifsched.P(-1000017)
	m.del(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	verifsched.P(-1000018)
	x, ok := m.m[k]
	m.put(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	verifsched.P(-1000019)
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	m.put(k, new)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	verifsched.P(-1000020)
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any{}, m.keys...) {
		verifsched.P(-1000021)
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	verifsched.P(-1000022)
	m.m, m.keys = nil, nil
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(n int) {
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	verifsched.P(-1000023)
	verifsched.Block(func() bool { return w.n > 0 })
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	waiting := true
	c.waiting = append(c.waiting, &waiting)
	c.L.Unlock()
	verifsched.Block(func() bool { return waiting })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.waiting) > 0 {
		*c.waiting[0] = false
		c.waiting = c.waiting[1:]
	}
}

func (c *Cond) Broadcast() {
	for len(c.waiting) > 0 {
		c.Signal()
	}
}
