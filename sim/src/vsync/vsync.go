// Package vsync replaces package sync inside the instrumented library: the
// simulator decides who gets a lock and when.
package vsync

import (
	"sync"
	"vsim"
)

type Locker = sync.Locker
type Map = sync.Map

func dead() bool {
	t := vsim.Cur()
	return t == nil || t.Killed() || t.S.Stopping()
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	if dead() {
		m.held = true
		return
	}
	vsim.Point()
	vsim.WaitFor("mutex", func() bool { return !m.held })
	m.held = true
	vsim.SyncOp()
}

func (m *Mutex) TryLock() bool {
	vsim.SyncOp()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held && !dead() {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	vsim.SyncOp()
	vsim.Point()
}

type RWMutex struct {
	w       bool
	waiting int
	r       int
}

func (m *RWMutex) Lock() {
	if dead() {
		return
	}
	vsim.Point()
	m.waiting++
	defer func() { m.waiting-- }()
	vsim.WaitFor("rwmutex", func() bool { return !m.w && m.r == 0 })
	m.w = true
	vsim.SyncOp()
}
func (m *RWMutex) TryLock() bool {
	vsim.SyncOp()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w && !dead() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vsim.SyncOp()
	vsim.Point()
}
func (m *RWMutex) RLock() {
	if dead() {
		return
	}
	vsim.Point()
	vsim.WaitFor("rlock", func() bool { return !m.w && m.waiting == 0 })
	m.r++
	vsim.SyncOp()
}
func (m *RWMutex) TryRLock() bool {
	vsim.SyncOp()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		if dead() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	vsim.SyncOp()
	vsim.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		vsim.SyncOp()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	vsim.SyncOp()
	if w.n < 0 && !dead() {
		panic("sync: negative WaitGroup counter")
	}
	vsim.Point()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if dead() {
		return
	}
	vsim.Point()
	vsim.WaitFor("waitgroup", func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go vsim.LibGo(func() { defer w.Done(); f() })()
	vsim.Point()
}

type Cond struct {
	L   Locker
	seq uint64
	rel uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	my := c.seq
	c.seq++
	c.L.Unlock()
	if !dead() {
		vsim.WaitFor("cond", func() bool { return c.rel > my })
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsim.SyncOp()
	if c.rel < c.seq {
		c.rel++
	}
	vsim.Point()
}
func (c *Cond) Broadcast() { c.rel = c.seq; vsim.SyncOp(); vsim.Point() }

// Pool is a last-in first-out free list: it always reuses, so a buffer that is
// returned while still in use is noticed.
type Pool struct {
	New  func() interface{}
	free []interface{}
	run  *vsim.Sim
}

func (p *Pool) Get() interface{} {
	if p.run != vsim.S {
		p.run, p.free = vsim.S, nil
	}
	vsim.SyncOp()
	vsim.Point()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if p.run != vsim.S {
		p.run, p.free = vsim.S, nil
	}
	p.free = append(p.free, x)
	vsim.SyncOp()
	vsim.Point()
}
