// Package vsync stands in for package sync: the same types, whose operations
// are scheduling points of the model checker.
package vsync

import (
	"sync"

	"verif/mc/gomc"
)

type Locker = sync.Locker

type Mutex struct{ o gomc.Obj }

func (m *Mutex) Lock()         { gomc.Lock(&m.o, "Mutex.Lock") }
func (m *Mutex) TryLock() bool { return gomc.TryLock(&m.o, "Mutex.TryLock") }
func (m *Mutex) Unlock()       { gomc.Unlock(&m.o) }

type RWMutex struct{ o gomc.Obj }

func (m *RWMutex) Lock()          { gomc.LockRW(&m.o, "RWMutex.Lock") }
func (m *RWMutex) TryLock() bool  { return gomc.TryLock(&m.o, "RWMutex.TryLock") }
func (m *RWMutex) Unlock()        { gomc.Unlock(&m.o) }
func (m *RWMutex) RLock()         { gomc.RLock(&m.o, "RWMutex.RLock") }
func (m *RWMutex) TryRLock() bool { return gomc.TryRLock(&m.o, "RWMutex.TryRLock") }
func (m *RWMutex) RUnlock()       { gomc.RUnlock(&m.o) }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup counts in its Obj, so that a wait group in a package variable
// starts every execution at zero.
type WaitGroup struct{ o gomc.Obj }

func (w *WaitGroup) Add(delta int) {
	if !gomc.InExec() {
		return
	}
	if gomc.Aborting() {
		return
	}
	// A counter that grows from zero may race with a Wait: a scheduling point.
	gomc.WaitGroupAdd(&w.o, delta, "WaitGroup.Add")
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	gomc.WaitFor(&w.o, "WaitGroup.Wait", func() bool { return w.o.N == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	gomc.Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done *bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done != nil && *o.done {
		return
	}
	d := new(bool)
	o.done = d
	defer func() { *d = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type Cond struct {
	L Locker
	o gomc.Obj
	q []*waiter
}

type waiter struct{ woken bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &waiter{}
	c.q = append(c.q, w)
	c.L.Unlock()
	gomc.WaitFor(&c.o, "Cond.Wait", func() bool { return w.woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	gomc.Point(&c.o, "Cond.Signal")
	if len(c.q) > 0 {
		c.q[0].woken = true
		c.q = c.q[1:]
	}
	gomc.Release(&c.o, false)
}

func (c *Cond) Broadcast() {
	gomc.Point(&c.o, "Cond.Broadcast")
	for _, w := range c.q {
		w.woken = true
	}
	c.q = nil
	gomc.Release(&c.o, false)
}

// Map is a concurrent map; every operation is one scheduling point.
type Map struct {
	o    gomc.Obj
	keys []any
	m    map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	gomc.PointIf(&m.o, "Map.Load", nil)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, o := range m.keys {
		if o == k {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(k, v any) { gomc.Point(&m.o, "Map.Store"); m.put(k, v) }
func (m *Map) Clear()         { gomc.Point(&m.o, "Map.Clear"); m.m, m.keys = nil, nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	gomc.Point(&m.o, "Map.LoadOrStore")
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	gomc.Point(&m.o, "Map.LoadAndDelete")
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	gomc.Point(&m.o, "Map.Swap")
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	gomc.Point(&m.o, "Map.CompareAndSwap")
	if v, ok := m.m[k]; ok && v == old {
		m.put(k, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	gomc.Point(&m.o, "Map.CompareAndDelete")
	if v, ok := m.m[k]; ok && v == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	gomc.PointIf(&m.o, "Map.Range", nil)
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool hands out what was put last, which is the most revealing of the
// behaviours sync.Pool allows.
type Pool struct {
	New   func() any
	o     gomc.Obj
	epoch *int
	items []any
}

func (p *Pool) sync() {
	gomc.Point(&p.o, "Pool")
	e := gomc.Local(poolKey{}, func() any { return new(int) }).(*int)
	if p.epoch != e {
		p.items, p.epoch = nil, e
	}
}

type poolKey struct{}

func (p *Pool) Get() any {
	p.sync()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	p.sync()
	if v != nil {
		p.items = append(p.items, v)
	}
}
