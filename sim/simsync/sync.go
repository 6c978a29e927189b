// Package sync is the simulated replacement of the standard sync
// package.  Every acquisition is a scheduling point decided by the
// seeded scheduler, and the race detector is told the same
// happens-before edges the real primitives give.
package sync

import (
	std "sync"
	"unsafe"

	"verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker = std.Locker

// Mutex is a mutual exclusion lock.
type Mutex struct {
	held bool
	_    [7]byte
}

// Lock locks m.
func (m *Mutex) Lock() {
	t := simrt.Cur()
	if t == nil {
		if m.held {
			panic("sync: deadlock outside of the simulation")
		}
		m.held = true
		return
	}
	t.DoWhen("lock", func() bool { return !m.held }, func() { m.held = true })
	simrt.RaceAcquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	t := simrt.Cur()
	if t == nil {
		ok := !m.held
		m.held = true
		return ok
	}
	ok := false
	t.Do("trylock", func() {
		if !m.held {
			m.held, ok = true, true
		}
	})
	if ok {
		simrt.RaceAcquire(unsafe.Pointer(m))
	}
	return ok
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	t := simrt.Cur()
	if t == nil {
		m.held = false
		return
	}
	if t.Dead() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.held = false
	t.Point("unlock")
}

// RWMutex is a reader/writer lock with writer preference, like the
// real one.
type RWMutex struct {
	w       bool
	_       [7]byte
	r       int
	waiting int
}

// Lock locks rw for writing.
func (rw *RWMutex) Lock() {
	t := simrt.Cur()
	if t == nil {
		if rw.w || rw.r > 0 {
			panic("sync: deadlock outside of the simulation")
		}
		rw.w = true
		return
	}
	t.Do("wlock", func() { rw.waiting++ })
	t.DoWhen("wlock2", func() bool { return !rw.w && rw.r == 0 }, func() { rw.w = true; rw.waiting-- })
	simrt.RaceAcquire(unsafe.Pointer(&rw.r))
	simrt.RaceAcquire(unsafe.Pointer(&rw.waiting))
}

// TryLock tries to lock rw for writing.
func (rw *RWMutex) TryLock() bool {
	ok := false
	f := func() {
		if !rw.w && rw.r == 0 {
			rw.w, ok = true, true
		}
	}
	t := simrt.Cur()
	if t == nil {
		f()
		return ok
	}
	t.Do("trywlock", f)
	if ok {
		simrt.RaceAcquire(unsafe.Pointer(&rw.r))
		simrt.RaceAcquire(unsafe.Pointer(&rw.waiting))
	}
	return ok
}

// Unlock releases the write lock.
func (rw *RWMutex) Unlock() {
	t := simrt.Cur()
	if t == nil {
		rw.w = false
		return
	}
	if t.Dead() {
		return
	}
	if !rw.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&rw.r))
	rw.w = false
	t.Point("wunlock")
}

// RLock locks rw for reading.
func (rw *RWMutex) RLock() {
	t := simrt.Cur()
	if t == nil {
		if rw.w {
			panic("sync: deadlock outside of the simulation")
		}
		rw.r++
		return
	}
	t.DoWhen("rlock", func() bool { return !rw.w && rw.waiting == 0 }, func() { rw.r++ })
	simrt.RaceAcquire(unsafe.Pointer(&rw.r))
}

// TryRLock tries to lock rw for reading.
func (rw *RWMutex) TryRLock() bool {
	ok := false
	f := func() {
		if !rw.w && rw.waiting == 0 {
			rw.r++
			ok = true
		}
	}
	t := simrt.Cur()
	if t == nil {
		f()
		return ok
	}
	t.Do("tryrlock", f)
	if ok {
		simrt.RaceAcquire(unsafe.Pointer(&rw.r))
	}
	return ok
}

// RUnlock releases a read lock.
func (rw *RWMutex) RUnlock() {
	t := simrt.Cur()
	if t == nil {
		rw.r--
		return
	}
	if t.Dead() {
		return
	}
	if rw.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&rw.waiting))
	rw.r--
	t.Point("runlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

// Once runs an action once.
type Once struct {
	done bool
	m    Mutex
}

// Do calls f if it is the first call.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc returns a function that runs f once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue returns a function that computes f once.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues returns a function that computes f once.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	n int
	_ [8]byte
}

// Add adds delta.
func (wg *WaitGroup) Add(delta int) {
	t := simrt.Cur()
	if t != nil && t.Dead() {
		return
	}
	if delta < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(wg))
	}
	wg.n += delta
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Point("wg")
}

// Done decrements the counter.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait waits for zero.
func (wg *WaitGroup) Wait() {
	t := simrt.Cur()
	if t == nil {
		return
	}
	t.WaitFor("wgwait", func() bool { return wg.n <= 0 })
	simrt.RaceAcquire(unsafe.Pointer(wg))
}

// Go runs f in a counted goroutine.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	simrt.Go(func() {
		defer wg.Done()
		f()
	})
}

// Cond is a condition variable.
type Cond struct {
	L    Locker
	wait []*bool
	_    [8]byte
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a wakeup.
func (c *Cond) Wait() {
	t := simrt.Cur()
	woken := new(bool)
	c.wait = append(c.wait, woken)
	c.L.Unlock()
	if t != nil {
		t.WaitFor("cond", func() bool { return *woken })
	}
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	simrt.Point("signal")
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	for _, b := range c.wait {
		*b = true
	}
	c.wait = nil
	simrt.Point("signal")
}
