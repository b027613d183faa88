// Package sync replaces the standard package in instrumented code: its locks block in the explorer's scheduler.
package sync

import (
	"sync"

	"verif.local/mc/hook"
)

type (
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	hook.P(-1)
	hook.Wait(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	hook.P(-2)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	hook.P(-3)
}

type RWMutex struct {
	writer  bool
	readers int
}

func (m *RWMutex) Lock() {
	hook.P(-4)
	hook.Wait(func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	hook.P(-5)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	hook.P(-6)
}

func (m *RWMutex) RLock() {
	hook.P(-7)
	hook.Wait(func() bool { return !m.writer })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	hook.P(-8)
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	hook.P(-9)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	hook.P(-10)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Pool hands out what was last put back, whoever put it
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	hook.P(-11)
	if l := len(p.items); l > 0 {
		x := p.items[l-1]
		p.items = p.items[:l-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	hook.P(-12)
	if x != nil {
		p.items = append(p.items, x)
	}
}
