// Package sync stands for the sync package where threads are simulated: other
// threads may run before a lock is taken and after it is released.
package sync

import (
	"sync"

	"verif/sym"
)

type (
	Locker    = sync.Locker
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func()                                 { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T                     { return sync.OnceValue(f) }
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

// Mutex is a lock.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	sym.Yield()
	for m.held {
		sym.Block(&m.held)
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	sym.Yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("unlock of unlocked mutex")
	}
	m.held = false
	sym.Yield()
}

// RWMutex is a lock readers share.
type RWMutex struct {
	write, busy bool // held by a writer, or by anyone
	readers     int
}

func (m *RWMutex) Lock() {
	sym.Yield()
	for m.busy {
		sym.Block(&m.busy)
	}
	m.write, m.busy = true, true
}

func (m *RWMutex) TryLock() bool {
	sym.Yield()
	if m.busy {
		return false
	}
	m.write, m.busy = true, true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.write {
		panic("unlock of unlocked RWMutex")
	}
	m.write, m.busy = false, false
	sym.Yield()
}

func (m *RWMutex) RLock() {
	sym.Yield()
	for m.write {
		sym.Block(&m.write)
	}
	m.readers++
	m.busy = true
}

func (m *RWMutex) TryRLock() bool {
	sym.Yield()
	if m.write {
		return false
	}
	m.readers++
	m.busy = true
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("unlock of unlocked RWMutex")
	}
	m.readers--
	m.busy = m.readers > 0
	sym.Yield()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }
