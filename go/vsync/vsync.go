// Package vsync stands in for sync in the files of the library while it is being verified: the same locks, with yield
// points before acquiring and after releasing them.  Builds made by lib/vlib.py replace the import in an overlay.
package vsync

import (
	"sync"

	"github.com/smart-core-os/sc-golang/internal/verifyield"
)

type (
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond   { return sync.NewCond(l) }
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T {
	return sync.OnceValue(f)
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	return sync.OnceValues(f)
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { verifyield.At("lock"); m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); verifyield.At("unlock") }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()          { verifyield.At("lock"); m.m.Lock() }
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); verifyield.At("unlock") }
func (m *RWMutex) RLock()         { verifyield.At("rlock"); m.m.RLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); verifyield.At("runlock") }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }
