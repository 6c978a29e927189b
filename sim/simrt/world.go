package simrt

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// Dev is one recorded deviation from the default behaviour.
type Dev struct {
	Task string `json:"task"`
	Kind string `json:"kind"`
	Seq  uint64 `json:"seq"`
	Val  int    `json:"val"`
	Note string `json:"note,omitempty"`
}

// Profile holds the probabilities (in 1/2^32) with which the random
// decider deviates.
type Profile struct {
	Switch float64            `json:"switch"` // scheduling point takes another task
	Stall  float64            `json:"stall"`  // scheduling point stalls the task
	Soft   float64            `json:"soft"`   // statement-level preemption
	P      map[string]float64 `json:"p"`      // per fault kind
}

// World is one simulated run.
type World struct {
	Seed    uint64
	Prof    Profile
	Tape    map[string]map[string]map[uint64]int // task, kind, seq
	tapeY   map[string][]uint64
	Devs    []Dev
	MaxStep int

	mu     sync.Mutex
	nextID int
	live   int
	parked []*Task
	prev   *Task
	alarms []int64
	closed bool

	t0      time.Time
	Steps   int
	Hash    uint64
	Counts  Counter
	seqs    Counter
	Faulty  bool // fault kinds other than scheduling are allowed to fire
	Enable  Bag
	Violate []string
	Log     []string
	Trace   bool
	TraceLn []string

	OnOp      func(t *Task, kind, path string, err error)
	FaultPath func(kind, path string) bool
	OnPoint   func(t *Task) // scheduler hook before a task proceeds

	Ext Bag
}

// NewWorld prepares a run.  It must be called by the root goroutine
// of a synctest bubble.
func NewWorld(seed uint64, prof Profile) *World {
	w := &World{Seed: seed, Prof: prof, MaxStep: 400000}
	// Align the bubble clock so that the sub-second phase is the
	// same in every run of a worker.
	n := time.Now()
	a := n.Truncate(time.Second).Add(2 * time.Second)
	time.Sleep(a.Sub(n))
	w.t0 = time.Now()
	return w
}

// UseTape replays exactly the given deviations.
func (w *World) UseTape(devs []Dev) {
	w.Tape = map[string]map[string]map[uint64]int{}
	w.tapeY = map[string][]uint64{}
	for _, d := range devs {
		a := w.Tape[d.Task]
		if a == nil {
			a = map[string]map[uint64]int{}
			w.Tape[d.Task] = a
		}
		if a[d.Kind] == nil {
			a[d.Kind] = map[uint64]int{}
		}
		a[d.Kind][d.Seq] = d.Val
		if d.Kind == "Y" {
			w.tapeY[d.Task] = append(w.tapeY[d.Task], d.Seq)
		}
	}
	for k := range w.tapeY {
		v := w.tapeY[k]
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	}
}

// Now is the virtual time since the start of the run in ns.
func (w *World) Now() int64 { return int64(time.Since(w.t0)) }

// Epoch is the wall-clock time at which every run starts.
var Epoch = time.Date(2026, 3, 1, 12, 0, 0, 0, time.UTC)

// Wall is the wall clock as seen by process p.
func (w *World) Wall(p *Proc) time.Time {
	d := w.Now()
	if p != nil {
		d += p.ClockOff
	}
	return Epoch.Add(time.Duration(d))
}

func mix(h uint64) uint64 {
	h += 0x9e3779b97f4a7c15
	h ^= h >> 30
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 27
	h *= 0x94d049bb133111eb
	h ^= h >> 31
	return h
}

func hstr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Rand returns a value that is a pure function of the seed and its
// arguments.
func (w *World) Rand(task, kind string, seq uint64) uint64 {
	return mix(mix(w.Seed^hstr(task)) ^ mix(hstr(kind)+seq*0x9e3779b97f4a7c15))
}

func frac(r uint64) float64 { return float64(r>>11) / (1 << 53) }

func (w *World) dev(task, kind string, seq uint64, v int, note string) {
	w.Devs = append(w.Devs, Dev{task, kind, seq, v, note})
}

// Choose asks the decision stream for a value in [0,n); 0 is the
// default behaviour.  p is the probability of deviating.
func (w *World) Choose(t *Task, kind string, n int, p float64, note string) int {
	name := "root"
	var seq uint64
	if t != nil {
		name = t.Name
		seq = t.seqs.Inc(kind)
	} else {
		seq = w.seqs.Inc(kind)
	}
	if w.Tape != nil {
		v := w.Tape[name][kind][seq]
		if v != 0 {
			if v >= n && n > 0 {
				v = 1 + (v-1)%(n-1)
			}
			w.Counts.Inc(kind)
			w.dev(name, kind, seq, v, note)
		}
		return v
	}
	if n < 2 || p <= 0 {
		return 0
	}
	r := w.Rand(name, kind, seq)
	if frac(r) >= p {
		return 0
	}
	v := 1 + int(mix(r)%uint64(n-1))
	w.Counts.Inc(kind)
	w.dev(name, kind, seq, v, note)
	return v
}

// Fault is Choose for a fault kind with the profile's probability,
// suppressed outside of the fault window.
func (w *World) Fault(t *Task, kind string, n int, note string) int {
	p := w.Prof.P[kind]
	if !w.Faulty || w.Enable.Get(kind) == nil {
		// Keep counting so that sequence numbers do not depend
		// on the window, but never deviate.
		if t != nil {
			t.seqs.Inc(kind)
		} else {
			w.seqs.Inc(kind)
		}
		return 0
	}
	return w.Choose(t, kind, n, p, note)
}

func (t *Task) armSoft() {
	w := t.w
	if w.Tape != nil {
		t.nextSoft = ^uint64(0)
		for _, s := range w.tapeY[t.Name] {
			if s > t.soft {
				t.nextSoft = s
				break
			}
		}
		return
	}
	if w.Prof.Soft <= 0 {
		t.nextSoft = ^uint64(0)
		return
	}
	r := w.Rand(t.Name, "Yarm", t.seqs.Inc("Yarm"))
	// Approximate geometric: uniform on [1, 2/p].
	span := uint64(2 / w.Prof.Soft)
	if span < 1 {
		span = 1
	}
	t.nextSoft = t.soft + 1 + r%span
}

func (w *World) softDecision(t *Task) int {
	if w.Tape != nil {
		v := w.Tape[t.Name]["Y"][t.soft]
		if v != 0 {
			w.Counts.Inc("Y")
			w.dev(t.Name, "Y", t.soft, v, "")
		}
		return v
	}
	v := 1 + int(w.Rand(t.Name, "Y", t.soft)%997)
	w.Counts.Inc("Y")
	w.dev(t.Name, "Y", t.soft, v, "")
	return v
}

// Outcome of RunUntil.
type Outcome int

// Outcomes.
const (
	OK Outcome = iota
	Stuck
	Budget
	Fatal
)

func (o Outcome) String() string { return [...]string{"ok", "stuck", "budget", "fatal"}[o] }

func (w *World) runnable() []*Task {
	now := w.Now()
	var r []*Task
	for _, t := range w.parked {
		if t.Dead() {
			r = append(r, t)
			continue
		}
		if t.wakeT > now {
			continue
		}
		if t.cond != nil && !t.cond() {
			continue
		}
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func (w *World) nextTime() int64 {
	now := w.Now()
	best := int64(-1)
	for _, t := range w.parked {
		if t.wakeT > now && (best < 0 || t.wakeT < best) {
			best = t.wakeT
		}
	}
	al := w.alarms[:0]
	for _, a := range w.alarms {
		if a > now {
			al = append(al, a)
			if best < 0 || a < best {
				best = a
			}
		}
	}
	w.alarms = al
	return best
}

func (w *World) resume(t *Task) {
	for i, x := range w.parked {
		if x == t {
			w.parked = append(w.parked[:i:i], w.parked[i+1:]...)
			break
		}
	}
	t.cond = nil
	t.wakeT = 0
	do := t.do
	t.do = nil
	if do != nil && !t.Dead() {
		do()
	}
	t.wake <- struct{}{}
}

// RunUntil lets tasks run until the predicate holds.
func (w *World) RunUntil(until func() bool) Outcome {
	budget := w.Steps + w.MaxStep
	idle := 0
	for {
		synctest.Wait()
		if w.reap() {
			continue
		}
		if until() {
			return OK
		}
		if len(w.Violate) > 0 {
			return Fatal
		}
		r := w.runnable()
		if len(r) == 0 {
			nt := w.nextTime()
			if nt > 0 {
				time.Sleep(time.Duration(nt - w.Now()))
				continue
			}
			// Foreign timers of the bubble may still fire.
			if idle < 3 {
				idle++
				time.Sleep(20 * time.Minute)
				continue
			}
			return Stuck
		}
		idle = 0
		if w.Steps >= budget {
			return Budget
		}
		w.Steps++
		t := w.pick(r)
		w.Hash = mix(w.Hash ^ hstr(t.Name+"\x00"+t.kind))
		if w.Trace {
			w.TraceLn = append(w.TraceLn, fmt.Sprintf("%d %s %s", w.Now(), t.Name, t.kind))
		}
		w.prev = t
		if w.OnPoint != nil && t.kind != "start" {
			w.OnPoint(t)
			if t.Dead() {
				continue
			}
		}
		// Every step takes a little virtual time.
		time.Sleep(time.Microsecond)
		w.resume(t)
	}
}

func (w *World) pick(r []*Task) *Task {
	prev := w.prev
	var def *Task
	for _, t := range r {
		if t == prev {
			def = t
			break
		}
	}
	force := 0
	if def != nil && def.force > 0 {
		force = def.force
		def.force = 0
		def.stall = 0
		if len(r) > 1 {
			var o []*Task
			for _, t := range r {
				if t != def {
					o = append(o, t)
				}
			}
			return o[(force-1)%len(o)]
		}
		return def
	}
	if def == nil || def.stall > w.Steps {
		def = nil
		for _, t := range r {
			if t.stall <= w.Steps {
				def = t
				break
			}
		}
		if def == nil {
			def = r[0]
		}
	}
	if prev != nil && !prev.done && len(r) > 1 {
		// Stall the task that just ran: others go first.
		if st := w.Choose(prev, "T", 400, w.Prof.Stall, ""); st != 0 {
			prev.stall = w.Steps + st
			for _, t := range r {
				if t != prev && t.stall <= w.Steps {
					return t
				}
			}
			return def
		}
		if v := w.Choose(prev, "S", 1000, w.Prof.Switch, ""); v != 0 {
			return r[(v-1)%len(r)]
		}
	}
	return def
}

// reap lets the tasks of dead processes unwind.
func (w *World) reap() bool {
	any := false
	for {
		var d *Task
		for _, t := range w.parked {
			if t.Dead() {
				d = t
				break
			}
		}
		if d == nil {
			return any
		}
		any = true
		w.resume(d)
		synctest.Wait()
	}
}

// NewProc creates a process.
func (w *World) NewProc(name string) *Proc {
	return &Proc{Name: name, W: w}
}

// Kill crashes the process: none of its tasks executes another
// simulated operation.
func (p *Proc) Kill() {
	if p.Dead {
		return
	}
	p.Dead = true
	for _, f := range p.OnDeath {
		f()
	}
}

// Exit ends the process in an orderly way with a status.
func (p *Proc) Exit(code int) {
	if p.Dead {
		return
	}
	p.Exited = true
	p.ExitCode = code
	p.Kill()
}

func (w *World) taskPanic(t *Task, r interface{}, stack string) {
	if t.Dead() {
		return
	}
	msg := fmt.Sprintf("panic in task %s: %v", t.Name, r)
	if t.Proc != nil {
		t.Proc.Panic = msg + "\n" + stack
		if h, ok := t.Proc.Env.Get("onpanic").(func(string)); ok {
			h(msg)
		}
		t.Proc.Kill()
		return
	}
	w.Violate = append(w.Violate, "harness: "+msg+"\n"+stack)
}

// Close ends the run; every remaining task unwinds.
func (w *World) Close() {
	w.closed = true
	synctest.Wait()
	w.reap()
}

// Parked describes the waiting tasks, for stuck reports.
func (w *World) Parked() string {
	var s []string
	for _, t := range w.parked {
		s = append(s, t.Name+":"+t.kind)
	}
	sort.Strings(s)
	return fmt.Sprintf("live=%d parked=[%s]", w.live, strings.Join(s, " "))
}

// Live is the number of tasks that have not ended.
func (w *World) Live() int { return w.live }

// Bag is a small association list; unlike a Go map it is invisible to
// the race detector.
type Bag struct {
	k []string
	v []interface{}
}

// Get returns the value of k, or nil.
func (b *Bag) Get(k string) interface{} {
	for i := range b.k {
		if b.k[i] == k {
			return b.v[i]
		}
	}
	return nil
}

// Set sets the value of k; nil removes it.
func (b *Bag) Set(k string, v interface{}) {
	for i := range b.k {
		if b.k[i] == k {
			b.v[i] = v
			return
		}
	}
	b.k = append(b.k, k)
	b.v = append(b.v, v)
}
