// Package simrt is the deterministic simulation runtime.  It owns the
// scheduler that decides every interleaving, the virtual clock, the
// seeded decision stream and the record of every deviation taken, so
// that a run is a pure function of (scenario, seed) and can be
// replayed, and minimised, from its recorded deviations alone.
//
// The scheduler is the root goroutine of a testing/synctest bubble:
// synctest.Wait gives it exact quiescence, so at most one task makes
// progress between two of its decisions, and the bubble's fake clock
// is the virtual clock.
package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"unsafe"
)

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

//go:linkname setProfLabel runtime/pprof.runtime_setProfLabel
func setProfLabel(unsafe.Pointer)

type label struct{ key, value string }

// Detach makes the calling goroutine none of a task's.  It must only
// talk to goroutines of its kind.
func Detach() { setProfLabel(nil) }

// Task is one simulated thread.  labels must stay the first field:
// the goroutine's profiler label pointer points at it, which is how a
// goroutine is mapped to its task.
type Task struct {
	labels []label
	ID     int
	Name   string
	Proc   *Proc
	w      *World

	wake  chan struct{}
	cond  func() bool
	wakeT int64 // virtual ns before which it is not runnable
	stall int   // scheduler step before which it is not preferred
	kind  string

	hard     uint64
	soft     uint64
	nextSoft uint64
	softRun  uint64
	seqs     Counter
	do       func()
	kids     int
	done     bool
	force    int
	noYield  int
	unwound  bool
}

// Proc is a simulated process: the unit that crashes.
type Proc struct {
	Name     string
	W        *World
	Dead     bool
	Exited   bool
	ExitCode int
	Panic    string
	ClockOff int64
	OnDeath  []func()
	Env      Bag
	sync     [8]byte
}

// SyncPtr is an address for happens-before edges of the process.
func (p *Proc) SyncPtr() unsafe.Pointer { return unsafe.Pointer(&p.sync) }

// Livelock is the panic value used when a task runs without ever
// reaching a scheduling point.
type Livelock struct{ Task string }

func (l Livelock) Error() string { return "task " + l.Task + " runs without end" }

// Cur returns the task of the calling goroutine, or nil outside of
// the simulation.
func Cur() *Task {
	p := getProfLabel()
	if p == nil {
		return nil
	}
	t := (*Task)(p)
	return t
}

// W returns the world of the calling task, or nil.
func W() *World {
	t := Cur()
	if t == nil {
		return nil
	}
	return t.w
}

// ProcOf returns the process of the calling task, or nil.
func ProcOf() *Proc {
	t := Cur()
	if t == nil {
		return nil
	}
	return t.Proc
}

// Done reports whether the task has ended.
func (t *Task) Done() bool { return t.done }

// World returns the world the task lives in.
func (t *Task) World() *World { return t.w }

// Dead reports whether the calling task belongs to a crashed process.
func (t *Task) Dead() bool { return t.Proc != nil && t.Proc.Dead || t.w.closed }

// CheckDead ends the calling goroutine if its process has crashed.
func (t *Task) CheckDead() {
	if t.Dead() {
		runtime.Goexit()
	}
}

func (w *World) newTask(p *Proc, name string) *Task {
	w.nextID++
	t := &Task{ID: w.nextID, Name: name, Proc: p, w: w, wake: make(chan struct{})}
	t.labels = []label{{"task", name}}
	t.armSoft()
	return t
}

func (w *World) start(t *Task, f func()) {
	raceDisable()
	w.mu.Lock()
	w.live++
	w.mu.Unlock()
	raceEnable()
	ready := make(chan struct{})
	go func() {
		setProfLabel(unsafe.Pointer(t))
		raceDisable()
		close(ready)
		raceEnable()
		defer func() {
			if r := recover(); r != nil {
				w.taskPanic(t, r, stack())
			}
			RaceReleaseMerge(unsafe.Pointer(&ends))
			raceDisable()
			w.mu.Lock()
			t.done = true
			w.live--
			w.mu.Unlock()
			raceEnable()
		}()
		t.park("start")
		f()
		t.unwound = true
	}()
	raceDisable()
	<-ready
	raceEnable()
}

// ends orders everything tasks did before what a new process does.
var ends [8]byte

// StartProc creates the first task of a process.
func (w *World) StartProc(p *Proc, name string, f func()) *Task {
	return w.Spawn(p, name, func() {
		RaceAcquire(unsafe.Pointer(&ends))
		f()
	})
}

func stack() string {
	s := string(debug.Stack())
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

// Spawn creates a task in process p.  It may be called by the
// scheduler goroutine or by a task.
func (w *World) Spawn(p *Proc, name string, f func()) *Task {
	raceDisable()
	w.mu.Lock()
	t := w.newTask(p, name)
	w.mu.Unlock()
	raceEnable()
	w.start(t, f)
	return t
}

// Go is what a go statement becomes.
func Go(f func()) {
	t := Cur()
	if t == nil {
		go f()
		return
	}
	if t.Dead() {
		return
	}
	t.kids++
	t.w.Spawn(t.Proc, fmt.Sprintf("%s/%d", t.Name, t.kids), f)
	t.Point("go")
}

// GoCall is what a go statement with arguments becomes.
func GoCall(fn interface{}, args ...interface{}) {
	v := reflect.ValueOf(fn)
	ft := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a)
			if !in[i].Type().AssignableTo(pt) {
				in[i] = in[i].Convert(pt)
			}
		}
	}
	Go(func() { v.Call(in) })
}

// Point is a scheduling point: any other task may run here.
func (t *Task) Point(kind string) {
	t.CheckDead()
	if t.noYield > 0 {
		return
	}
	t.hard++
	t.softRun = 0
	t.park(kind)
}

// Do is a scheduling point whose operation fn is executed by the
// scheduler goroutine, atomically, when the task is picked.  All
// simulated devices (disk, network, locks) work this way, so that
// their state is only ever touched by one goroutine.
func (t *Task) Do(kind string, fn func()) {
	t.CheckDead()
	t.hard++
	t.softRun = 0
	t.do = fn
	t.park(kind)
}

// DoWhen is Do, executed once cond holds.
func (t *Task) DoWhen(kind string, cond func() bool, fn func()) {
	t.CheckDead()
	t.hard++
	t.softRun = 0
	t.cond = cond
	t.do = fn
	t.park(kind)
}

// Counter is a small multiset of names.
type Counter struct {
	K []string
	V []uint64
}

// Inc adds one and returns the new value.
func (c *Counter) Inc(k string) uint64 {
	for i := range c.K {
		if c.K[i] == k {
			c.V[i]++
			return c.V[i]
		}
	}
	c.K = append(c.K, k)
	c.V = append(c.V, 1)
	return 1
}

// Get returns the count of k.
func (c *Counter) Get(k string) uint64 {
	for i := range c.K {
		if c.K[i] == k {
			return c.V[i]
		}
	}
	return 0
}

// WaitFor parks the task until cond holds.  cond is evaluated by the
// scheduler while every task is quiescent.
func (t *Task) WaitFor(kind string, cond func() bool) {
	t.CheckDead()
	t.hard++
	t.softRun = 0
	t.cond = cond
	t.park(kind)
}

// SleepFor parks the task for d virtual nanoseconds.
func (t *Task) SleepFor(d int64) {
	t.CheckDead()
	t.hard++
	t.softRun = 0
	t.wakeT = t.w.Now() + d
	t.park("sleep")
}

// WaitTimeout parks until cond holds or d virtual nanoseconds passed.
func (t *Task) WaitTimeout(kind string, d int64, cond func() bool) {
	t.CheckDead()
	t.hard++
	end := t.w.Now() + d
	w := t.w
	t.cond = func() bool { return cond() || w.Now() >= end }
	raceDisable()
	w.mu.Lock()
	w.alarms = append(w.alarms, end)
	w.mu.Unlock()
	raceEnable()
	t.park(kind)
}

func (t *Task) park(kind string) {
	raceDisable()
	w := t.w
	w.mu.Lock()
	t.kind = kind
	w.parked = append(w.parked, t)
	w.mu.Unlock()
	<-t.wake
	raceEnable()
	if t.Dead() {
		runtime.Goexit()
	}
}

// Point is a scheduling point for the calling goroutine.
func Point(kind string) {
	if t := Cur(); t != nil {
		t.Point(kind)
	}
}

// Y is inserted before every statement of the instrumented code.  It
// is nearly free unless the decision stream preempts the task here.
func Y() {
	p := getProfLabel()
	if p == nil {
		return
	}
	t := (*Task)(p)
	t.soft++
	t.softRun++
	if t.softRun&255 == 255 {
		t.deep()
	}
	if t.softRun > maxSoftRun {
		t.softRun = 0
		if !t.Dead() {
			panic(Livelock{t.Name})
		}
	}
	if t.soft < t.nextSoft {
		return
	}
	t.preempt()
}

const maxSoftRun = 3000000

// StackOverflow is the panic value used when a task recurses without
// end; the real runtime would end the process beyond recovery.
type StackOverflow struct{ Task string }

func (l StackOverflow) Error() string { return "stack overflow in task " + l.Task }

func (t *Task) deep() {
	var pc [1]uintptr
	if runtime.Callers(4000, pc[:]) > 0 && !t.Dead() {
		panic(StackOverflow{t.Name})
	}
}

func (t *Task) preempt() {
	w := t.w
	v := w.softDecision(t)
	t.armSoft()
	if v == 0 || t.noYield > 0 || t.Dead() {
		return
	}
	t.force = v
	t.park("pre")
}

// NoYield runs f without any preemption of the calling task.
func NoYield(f func()) {
	t := Cur()
	if t == nil {
		f()
		return
	}
	t.noYield++
	defer func() { t.noYield-- }()
	f()
}

// Inc counts on the task's own counters.
func (t *Task) Inc(k string) uint64 { return t.seqs.Inc(k) }

// Chan is inserted after channel operations: the task that was woken
// and the one that woke it both stop here for the scheduler.
func Chan() {
	if t := Cur(); t != nil && !t.Dead() {
		t.Point("chan")
	}
}
