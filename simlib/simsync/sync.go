// Package simsync replaces package sync in the instrumented code: the simulator decides who
// goes on.
package simsync

import (
	"runtime"
	"sync"

	"verif.local/sim"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	var (
		o      Once
		valid  bool
		p      any
		result T
	)
	return func() T {
		o.Do(func() {
			defer func() {
				if p = recover(); !valid {
					panic(p)
				}
			}()
			result = f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
		return result
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { p := g(); return p.a, p.b }
}

var mu sync.Mutex

func wait(why string, ready func() bool) {
	r := sim.Current()
	if r == nil || sim.Self() == nil {
		for !ready() {
			runtime.Gosched()
		}
		return
	}
	if sim.Dying() {
		sim.Die()
	}
	r.Park(why, ready, nil)
	if sim.Dying() {
		sim.Die()
	}
}

// Mutex is a mutual exclusion lock.
type Mutex struct{ locked bool }

func (m *Mutex) try() bool {
	mu.Lock()
	defer mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) TryLock() bool { sim.Y(); return m.try() }

func (m *Mutex) Lock() {
	sim.Y()
	for !m.try() {
		wait("mutex", func() bool { mu.Lock(); defer mu.Unlock(); return !m.locked })
	}
}

func (m *Mutex) Unlock() {
	mu.Lock()
	was := m.locked
	m.locked = false
	mu.Unlock()
	if !was && !sim.Dying() {
		panic("sync: unlock of unlocked mutex")
	}
	sim.Y()
}

// RWMutex is a reader/writer lock. A waiting writer blocks new readers.
type RWMutex struct {
	w       bool
	r       int
	writers int
}

func (m *RWMutex) Lock() {
	sim.Y()
	mu.Lock()
	m.writers++
	mu.Unlock()
	for {
		mu.Lock()
		if !m.w && m.r == 0 {
			m.w = true
			m.writers--
			mu.Unlock()
			return
		}
		mu.Unlock()
		wait("rwmutex", func() bool { mu.Lock(); defer mu.Unlock(); return !m.w && m.r == 0 })
	}
}

func (m *RWMutex) TryLock() bool {
	sim.Y()
	mu.Lock()
	defer mu.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	mu.Lock()
	was := m.w
	m.w = false
	mu.Unlock()
	if !was && !sim.Dying() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sim.Y()
}

func (m *RWMutex) RLock() {
	sim.Y()
	for {
		mu.Lock()
		if !m.w && m.writers == 0 {
			m.r++
			mu.Unlock()
			return
		}
		mu.Unlock()
		wait("rwmutex", func() bool { mu.Lock(); defer mu.Unlock(); return !m.w && m.writers == 0 })
	}
}

func (m *RWMutex) TryRLock() bool {
	sim.Y()
	mu.Lock()
	defer mu.Unlock()
	if m.w || m.writers > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	mu.Lock()
	m.r--
	neg := m.r < 0
	mu.Unlock()
	if neg && !sim.Dying() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sim.Y()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup waits for a collection of tasks.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	sim.Y()
	mu.Lock()
	w.n += d
	neg := w.n < 0
	mu.Unlock()
	if neg && !sim.Dying() {
		panic("sync: negative WaitGroup counter")
	}
	sim.Y()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	sim.Y()
	for {
		mu.Lock()
		z := w.n == 0
		mu.Unlock()
		if z {
			return
		}
		wait("waitgroup", func() bool { mu.Lock(); defer mu.Unlock(); return w.n == 0 })
		return
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go("wg.Go", func() {
		defer w.Done()
		f()
	})
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	sim.Y()
	mu.Lock()
	d := o.done
	mu.Unlock()
	if d {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	mu.Lock()
	d = o.done
	mu.Unlock()
	if d {
		return
	}
	defer func() { mu.Lock(); o.done = true; mu.Unlock() }()
	f()
}

// Pool is a deterministic pool. Whether an item is reused is the simulator's choice.
type Pool struct {
	New   func() any
	items []any
	run   *sim.Run
}

// fresh drops what an earlier run has left in a package-level pool.
func (p *Pool) fresh() {
	if r := sim.Current(); p.run != r {
		p.items, p.run = nil, r
	}
}

func (p *Pool) Get() any {
	sim.Y()
	mu.Lock()
	p.fresh()
	n := len(p.items)
	mu.Unlock()
	if r := sim.Current(); n > 0 && (r == nil || sim.Self() == nil || !r.Chance("pool", 1, 8)) {
		mu.Lock()
		it := p.items[len(p.items)-1]
		p.items = p.items[:len(p.items)-1]
		mu.Unlock()
		return it
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sim.Y()
	mu.Lock()
	p.fresh()
	p.items = append(p.items, x)
	mu.Unlock()
	sim.Y()
}

// Cond is a condition variable.
type Cond struct {
	L       Locker
	tickets int
	served  int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	mu.Lock()
	c.tickets++
	my := c.tickets
	mu.Unlock()
	c.L.Unlock()
	wait("cond", func() bool { mu.Lock(); defer mu.Unlock(); return c.served >= my })
	c.L.Lock()
}

func (c *Cond) Signal() {
	sim.Y()
	mu.Lock()
	if c.served < c.tickets {
		c.served++
	}
	mu.Unlock()
	sim.Y()
}

func (c *Cond) Broadcast() {
	sim.Y()
	mu.Lock()
	c.served = c.tickets
	mu.Unlock()
	sim.Y()
}
