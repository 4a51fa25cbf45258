// Package sync replaces the standard package in instrumented code.
package sync

import (
	"sync"

	vsched "github.com/mottla/go-AlgebraicProgram-SNARK/zz_verif_sched"
)

type Locker = sync.Locker
type Map = sync.Map
type Pool = sync.Pool

type RWMutex struct {
	real    sync.RWMutex
	run     any // the controlled run the fields below belong to
	readers int
	writer  bool
	wanted  int // writers that wait
	waiting vsched.Waiting
}

func (m *RWMutex) enter() bool {
	r := vsched.Run()
	if r == nil {
		return false
	}
	if m.run != r {
		m.run, m.readers, m.writer, m.wanted, m.waiting = r, 0, false, 0, vsched.Waiting{}
	}
	return true
}
func (m *RWMutex) RLock() {
	if !m.enter() {
		m.real.RLock()
		return
	}
	vsched.Point()
	for m.writer || m.wanted > 0 {
		m.waiting.Wait("a read lock")
	}
	m.readers++
}
func (m *RWMutex) RUnlock() {
	if !m.enter() {
		m.real.RUnlock()
		return
	}
	if vsched.Aborting() {
		return
	}
	vsched.Point()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.waiting.WakeAll()
}
func (m *RWMutex) Lock() {
	if !m.enter() {
		m.real.Lock()
		return
	}
	vsched.Point()
	m.wanted++
	for m.writer || m.readers > 0 {
		m.waiting.Wait("a write lock")
	}
	m.wanted--
	m.writer = true
}
func (m *RWMutex) Unlock() {
	if !m.enter() {
		m.real.Unlock()
		return
	}
	if vsched.Aborting() {
		return
	}
	vsched.Point()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.waiting.WakeAll()
}
func (m *RWMutex) TryLock() bool {
	if !m.enter() {
		return m.real.TryLock()
	}
	vsched.Point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if !m.enter() {
		return m.real.TryRLock()
	}
	vsched.Point()
	if m.writer || m.wanted > 0 {
		return false
	}
	m.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	real    sync.WaitGroup
	run     any
	n       int
	waiting vsched.Waiting
}

func (g *WaitGroup) enter() bool {
	r := vsched.Run()
	if r == nil {
		return false
	}
	if g.run != r {
		g.run, g.n, g.waiting = r, 0, vsched.Waiting{}
	}
	return true
}
func (g *WaitGroup) Add(d int) {
	if !g.enter() {
		g.real.Add(d)
		return
	}
	if vsched.Aborting() {
		return
	}
	vsched.Point()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.waiting.WakeAll()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if !g.enter() {
		g.real.Wait()
		return
	}
	vsched.Point()
	for g.n > 0 {
		g.waiting.Wait("a group of goroutines")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsched.Go(func() {
		defer g.Done()
		f()
	})
}

// OnceFunc and its relatives
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

type Cond struct {
	L       Locker
	real    *sync.Cond
	waiting vsched.Waiting
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }
func (c *Cond) Wait() {
	if vsched.Run() == nil {
		c.real.Wait()
		return
	}
	c.L.Unlock()
	c.waiting.Wait("a condition")
	c.L.Lock()
}
func (c *Cond) Signal() {
	if vsched.Run() == nil {
		c.real.Signal()
		return
	}
	c.waiting.WakeAll() // spurious wake ups are allowed
}
func (c *Cond) Broadcast() {
	if vsched.Run() == nil {
		c.real.Broadcast()
		return
	}
	c.waiting.WakeAll()
}
