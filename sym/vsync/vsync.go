// Package vsync stands for package sync in native replays that follow a
// schedule: the operations of sym.Par's threads hand over where the executor
// switches threads.
package vsync

import "sync"

type (
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// Point is called before an acquisition by the thread that runs, if any;
// can tells whether it is possible, come that a writer waits for readers.
var Point func(op byte, key any, can func() bool, come func() bool)

// Mutex is sync.Mutex.
type Mutex struct {
	mux  sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if Point != nil {
		Point('L', m, func() bool { return !m.held }, nil)
	}
	m.mux.Lock()
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if m.mux.TryLock() {
		m.held = true
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	m.held = false
	m.mux.Unlock()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	mux     sync.RWMutex
	held    bool
	readers int
}

func (m *RWMutex) Lock() {
	if Point != nil {
		Point('W', m, func() bool { return !m.held && m.readers == 0 }, func() bool { return !m.held && m.readers > 0 })
	}
	m.mux.Lock()
	m.held = true
}

func (m *RWMutex) Unlock() {
	m.held = false
	m.mux.Unlock()
}

func (m *RWMutex) RLock() {
	if Point != nil {
		Point('R', m, func() bool { return !m.held }, nil)
	}
	m.readers++
	m.mux.RLock()
}

func (m *RWMutex) RUnlock() {
	m.readers--
	m.mux.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	if m.mux.TryLock() {
		m.held = true
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	if m.mux.TryRLock() {
		m.readers++
		return true
	}
	return false
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }
func NewCond(l Locker) *Cond   { return sync.NewCond(l) }
