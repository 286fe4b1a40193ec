// Package zz_vsync stands in for package sync in instrumented builds: its locks tell the
// controlled scheduler of the harness when a thread has to wait. Without a scheduler they are
// ordinary locks.
package zz_vsync

import (
	"sync"
	"time"
)

// set by the harness
var (
	Stmt  func()                  // called before every instrumented statement
	Deep  func()                  // the same in the packages used by those
	Point func(what string) bool  // scheduling point; false: the caller is not controlled
	Wait  func(ready func() bool) // the controlled caller waits until ready
)

// P is called before every statement
func P() {
	if f := Stmt; f != nil {
		f()
	}
}

// D is called before every statement of the packages below
func D() {
	if f := Deep; f != nil {
		f()
	}
}

type (
	Locker    = sync.Locker
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
	Pool      = sync.Pool
)

func NewCond(l Locker) *Cond                                   { return sync.NewCond(l) }
func OnceFunc(f func()) func()                                 { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T                     { return sync.OnceValue(f) }
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

// acquire waits until try succeeds; failed is called once if the first attempt fails
func acquire(what string, try func() bool, ready func() bool, failed func()) {
	controlled := false
	if f := Point; f != nil {
		controlled = f(what)
	}
	first := true
	for !try() {
		if first && failed != nil {
			failed()
		}
		first = false
		if controlled {
			Wait(ready)
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

type Mutex struct {
	g    sync.Mutex
	held bool
}

func (m *Mutex) TryLock() bool {
	m.g.Lock()
	defer m.g.Unlock()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Lock() {
	acquire("lock", m.TryLock, func() bool {
		m.g.Lock()
		defer m.g.Unlock()
		return !m.held
	}, nil)
}

func (m *Mutex) Unlock() {
	m.g.Lock()
	defer m.g.Unlock()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	g       sync.Mutex
	writer  bool
	readers int
	pending int // writers which wait: they keep new readers out
}

func (m *RWMutex) TryLock() bool {
	m.g.Lock()
	defer m.g.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Lock() {
	waited := false
	acquire("lock", func() bool {
		if !m.TryLock() {
			return false
		}
		if waited {
			m.g.Lock()
			m.pending--
			m.g.Unlock()
		}
		return true
	}, func() bool {
		m.g.Lock()
		defer m.g.Unlock()
		return !m.writer && m.readers == 0
	}, func() {
		waited = true
		m.g.Lock()
		m.pending++
		m.g.Unlock()
	})
}

func (m *RWMutex) Unlock() {
	m.g.Lock()
	defer m.g.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
}

func (m *RWMutex) TryRLock() bool {
	m.g.Lock()
	defer m.g.Unlock()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RLock() {
	acquire("rlock", m.TryRLock, func() bool {
		m.g.Lock()
		defer m.g.Unlock()
		return !m.writer && m.pending == 0
	}, nil)
}

func (m *RWMutex) RUnlock() {
	m.g.Lock()
	defer m.g.Unlock()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }
