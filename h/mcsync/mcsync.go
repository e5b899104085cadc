// Package mcsync stands in for package sync in instrumented code.
package mcsync

import (
	"sync"

	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Pool is sync.Pool.
type Pool = sync.Pool

// Map is sync.Map.
type Map = sync.Map

// Mutex is a controlled mutex.
type Mutex struct {
	real sync.Mutex
	held bool
}

// Lock locks.
func (m *Mutex) Lock() {
	if mcrt.Dying() {
		return
	}
	if !mcrt.Active() {
		m.real.Lock()
		return
	}
	mcrt.Wait("Lock", func() bool { return !m.held })
	m.held = true
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	if mcrt.Dying() {
		return true
	}
	if !mcrt.Active() {
		return m.real.TryLock()
	}
	mcrt.Point("TryLock")
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if mcrt.Dying() {
		return
	}
	if !mcrt.Active() {
		if !m.held {
			m.real.Unlock()
		}
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

// RWMutex is a controlled readers-writer lock.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if mcrt.Dying() {
		return
	}
	if !mcrt.Active() {
		m.real.Lock()
		return
	}
	mcrt.Wait("Lock", func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if mcrt.Dying() {
		return
	}
	if !mcrt.Active() {
		if !m.writer {
			m.real.Unlock()
		}
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if mcrt.Dying() {
		return
	}
	if !mcrt.Active() {
		m.real.RLock()
		return
	}
	mcrt.Wait("RLock", func() bool { return !m.writer })
	m.readers++
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if mcrt.Dying() {
		return
	}
	if !mcrt.Active() {
		if m.readers == 0 {
			m.real.RUnlock()
		}
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a controlled wait group.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	if mcrt.Dying() {
		return
	}
	if !mcrt.Active() {
		w.real.Add(d)
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() {
	w.Add(-1)
	mcrt.Point("Done")
}

// Wait waits.
func (w *WaitGroup) Wait() {
	if mcrt.Dying() {
		return
	}
	if !mcrt.Active() {
		if w.n == 0 {
			w.real.Wait()
		}
		return
	}
	mcrt.Wait("WaitGroup.Wait", func() bool { return w.n == 0 })
}

// Once is a controlled sync.Once.
type Once struct {
	mu   Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond is a controlled condition variable.
type Cond struct {
	L   Locker
	gen int
	sig int
}

// NewCond makes a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	woken := false
	mcrt.Wait("Cond.Wait", func() bool { return c.gen != g || c.sig > 0 })
	if c.gen == g && c.sig > 0 {
		c.sig--
		woken = true
	}
	_ = woken
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() { c.sig++ }

// Broadcast wakes all.
func (c *Cond) Broadcast() { c.gen++; c.sig = 0 }
