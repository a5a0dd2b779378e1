// Package zsync stands in for sync in the instrumented copy: the same types,
// blocking by way of the scheduler. Exactly one thread runs at a time, so
// plain fields do.
package zsync

import "github.com/suapapa/go_hangul/zzsched"

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	zzsched.P(0)
	zzsched.Wait(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	zzsched.P(0)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	zzsched.P(0)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w, want bool
	r       int
}

func (m *RWMutex) Lock() {
	zzsched.P(0)
	m.want = true
	zzsched.Wait(func() bool { return !m.w && m.r == 0 })
	m.want = false
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	zzsched.P(0)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	zzsched.P(0)
}

func (m *RWMutex) RLock() {
	zzsched.P(0)
	// a waiting writer keeps new readers out
	zzsched.Wait(func() bool { return !m.w && !m.want })
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	zzsched.P(0)
	if m.w || m.want {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	zzsched.P(0)
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	zzsched.P(0)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc, but for its panics.
func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

// Pool is sync.Pool: what was put last comes first, as it does on one CPU.
type Pool struct {
	New func() interface{}
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	zzsched.P(0)
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	zzsched.P(0)
	if x == nil {
		return
	}
	p.l = append(p.l, x)
	zzsched.P(0)
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	zzsched.P(0)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { zzsched.Wait(func() bool { return w.n == 0 }) }

// Cond is sync.Cond.
type Cond struct {
	L      Locker
	wait   []*bool
	noCopy [0]func()
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.wait = append(c.wait, woken)
	c.L.Unlock()
	zzsched.Wait(func() bool { return *woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	zzsched.P(0)
}

func (c *Cond) Broadcast() {
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
	zzsched.P(0)
}

// Map is sync.Map.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]interface{}{}, m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	zzsched.P(0)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	zzsched.P(0)
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	zzsched.P(0)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	zzsched.P(0)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k interface{}) {
	zzsched.P(0)
	m.del(k)
}

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	zzsched.P(0)
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	zzsched.P(0)
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.set(k, n)
	return true
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	zzsched.P(0)
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	zzsched.P(0)
	for _, k := range append([]interface{}{}, m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	zzsched.P(0)
	m.m, m.keys = nil, nil
}
