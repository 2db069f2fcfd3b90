// Package simsync replaces package sync inside the instrumented library: blocking is decided by the simulator.
package simsync

import (
	"sync"

	"verif.local/sim/simrt"
)

type Locker = sync.Locker

// Map goes through its keys in the order that the simulator decides.
type Map struct{ m map[any]any }

func (m *Map) Load(key any) (value any, ok bool) {
	value, ok = m.m[key]
	return
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Clear() { m.m = nil }

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.Swap(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	value, loaded = m.m[key]
	delete(m.m, key)
	return
}

func (m *Map) Delete(key any) { delete(m.m, key) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	previous, loaded = m.m[key]
	m.m[key] = value
	return
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.m[key] = new
	return true
}

func (m *Map) CompareAndDelete(key, old any) bool {
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	delete(m.m, key)
	return true
}

func (m *Map) Range(f func(key, value any) bool) {
	for _, k := range simrt.Keys(m.m) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	for m.held {
		simrt.Block(m)
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	simrt.Awake(m)
}

// RWMutex lets no new reader in while a writer waits, and at the end of a writer all readers that wait before the next
// writer, as the real one does.
type RWMutex struct {
	taken bool // a writer has it, or waits for the readers to leave
	w     bool
	r     int
	queue []*bool // the readers that wait
}

func (m *RWMutex) Lock() {
	for m.taken {
		simrt.Block(m)
	}
	m.taken = true
	for m.r > 0 {
		simrt.Block(&m.r)
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if m.taken || m.r > 0 {
		return false
	}
	m.taken, m.w = true, true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.taken, m.w = false, false
	for _, in := range m.queue {
		*in = true
		m.r++
		simrt.Awake(in)
	}
	m.queue = nil
	simrt.Awake(m)
}

func (m *RWMutex) RLock() {
	if !m.taken {
		m.r++
		return
	}
	in := new(bool)
	m.queue = append(m.queue, in)
	for !*in {
		simrt.Block(in)
	}
}

func (m *RWMutex) TryRLock() bool {
	if m.taken {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if m.r == 0 {
		simrt.Awake(&m.r)
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} {
		f()
		return struct{}{}
	})
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T {
		v, _ := g()
		return v
	}
}

// OnceValues panics in every call if it did in the first.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	var fine bool
	var p any
	return func() (T, U) {
		o.Do(func() {
			defer func() {
				if p = recover(); !fine {
					panic(p)
				}
			}()
			v, u = f()
			fine = true
		})
		if !fine {
			panic(p)
		}
		return v, u
	}
}

// Pool hands back the value put last; a real Pool may do that too, or call New.
type Pool struct {
	New   func() any
	items []any
	age   int
}

func (p *Pool) Get() any {
	p.sweep()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// sweep empties a pool that has seen a garbage collection.
func (p *Pool) sweep() {
	if p.age != simrt.Collections {
		p.age, p.items = simrt.Collections, nil
	}
}

func (p *Pool) Put(x any) {
	p.sweep()
	if x != nil {
		p.items = append(p.items, x)
	}
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Awake(w)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	for w.n > 0 {
		simrt.Block(w)
	}
}

type Cond struct {
	L       Locker
	waiting []*int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	k := new(int)
	c.waiting = append(c.waiting, k)
	c.L.Unlock()
	for *k == 0 {
		simrt.Block(k)
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.waiting) > 0 {
		k := c.waiting[0]
		c.waiting = c.waiting[1:]
		*k = 1
		simrt.Awake(k)
	}
}

func (c *Cond) Broadcast() {
	for len(c.waiting) > 0 {
		c.Signal()
	}
}
