//go:build go1.22

// Package simsync replaces package sync in the instrumented copy.
package simsync

import (
	"SIMMODULE/simrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	q      simrt.WaitQ
}

func (m *Mutex) Lock() {
	simrt.Yield()
	for m.locked {
		m.q.Wait("mutex lock")
	}
	m.locked = true
	simrt.Acquire(m)
	simrt.Locked(1)
}
func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Acquire(m)
	simrt.Locked(1)
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Release(m)
	m.locked = false
	simrt.Locked(-1)
	m.q.WakeOne()
	simrt.Yield()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	readers int
	writers int
	q       simrt.WaitQ
}

func (m *RWMutex) Lock() {
	simrt.Yield()
	m.writers++
	for m.w || m.readers > 0 {
		m.q.Wait("rwmutex lock")
	}
	m.writers--
	m.w = true
	simrt.Acquire(&m.w)
	simrt.Acquire(&m.readers)
	simrt.Locked(1)
}
func (m *RWMutex) TryLock() bool {
	simrt.Yield()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	simrt.Acquire(&m.w)
	simrt.Acquire(&m.readers)
	simrt.Locked(1)
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(&m.w)
	m.w = false
	simrt.Locked(-1)
	m.q.WakeAll()
	simrt.Yield()
}
func (m *RWMutex) RLock() {
	simrt.Yield()
	for m.w || m.writers > 0 {
		m.q.Wait("rwmutex rlock")
	}
	m.readers++
	simrt.Acquire(&m.w)
	simrt.Locked(1)
}
func (m *RWMutex) TryRLock() bool {
	simrt.Yield()
	if m.w || m.writers > 0 {
		return false
	}
	m.readers++
	simrt.Acquire(&m.w)
	simrt.Locked(1)
	return true
}
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Release(&m.readers)
	m.readers--
	simrt.Locked(-1)
	m.q.WakeAll()
	simrt.Yield()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q simrt.WaitQ
}

func (w *WaitGroup) Add(d int) {
	simrt.Yield()
	if d < 0 {
		simrt.Release(w)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Yield()
	for w.n > 0 {
		w.q.Wait("waitgroup wait")
	}
	simrt.Acquire(w)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Once is sync.Once.
type Once struct {
	done    bool
	running bool
	q       simrt.WaitQ
}

func (o *Once) Do(f func()) {
	simrt.Yield()
	for !o.done && o.running {
		o.q.Wait("once")
	}
	if o.done {
		simrt.Acquire(o)
		return
	}
	o.running = true
	simrt.Locked(1)
	defer func() { simrt.Locked(-1); simrt.Release(o); o.done, o.running = true, false; o.q.WakeAll() }()
	f()
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is sync.Cond.
type Cond struct {
	L  Locker
	ts []*ticket
}

type ticket struct {
	done bool
	q    simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	t := &ticket{}
	c.ts = append(c.ts, t)
	c.L.Unlock()
	for !t.done {
		t.q.Wait("cond wait")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	simrt.Yield()
	if len(c.ts) > 0 {
		t := c.ts[0]
		c.ts = c.ts[1:]
		t.done = true
		t.q.WakeAll()
	}
}
func (c *Cond) Broadcast() {
	simrt.Yield()
	for _, t := range c.ts {
		t.done = true
		t.q.WakeAll()
	}
	c.ts = nil
}

// Pool is sync.Pool; which item comes back is decided by the scheduler.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	simrt.Yield()
	// Mostly reuse: reuse is what can go wrong.
	if n := len(p.items); n > 0 && simrt.Draw(8) != 0 {
		i := simrt.Draw(n)
		x := p.items[i]
		p.items[i] = p.items[n-1]
		p.items = p.items[:n-1]
		simrt.Acquire(p)
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *Pool) Put(x any) {
	simrt.Yield()
	if x != nil {
		simrt.Release(p)
		p.items = append(p.items, x)
	}
}

// Map is sync.Map.
type Map struct{ m map[any]any }

func (m *Map) step() { simrt.Yield(); simrt.Acquire(m); simrt.Release(m) }

func (m *Map) Load(k any) (any, bool) { m.step(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	m.step()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.step()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.step()
	x, ok := m.m[k]
	delete(m.m, k)
	return x, ok
}
func (m *Map) Delete(k any) { m.step(); delete(m.m, k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.step()
	x, ok := m.m[k]
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return x, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.step()
	if x, ok := m.m[k]; ok && x == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.step()
	if x, ok := m.m[k]; ok && x == old {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range simrt.MapKeys(m.m) {
		m.step()
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.step(); m.m = nil }
