// Command simctl builds the simulator from /repo's working tree, runs
// seeds of a property's scenarios in worker processes, minimises what
// fails and writes the replay and evidence files.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Dev mirrors simrt.Dev.
type Dev struct {
	Task string `json:"task"`
	Kind string `json:"kind"`
	Seq  uint64 `json:"seq"`
	Val  int    `json:"val"`
	Note string `json:"note,omitempty"`
}

// Result mirrors the harness's Result.
type Result struct {
	Viol   string            `json:"viol,omitempty"`
	Class  string            `json:"class,omitempty"`
	Known  string            `json:"known,omitempty"`
	Devs   []Dev             `json:"devs,omitempty"`
	Steps  int               `json:"steps"`
	VTime  int64             `json:"vtime"`
	Hash   uint64            `json:"hash"`
	Faults map[string]uint64 `json:"faults,omitempty"`
	Ops    int               `json:"ops"`
	OKs    int               `json:"oks"`
	Nontr  bool              `json:"nontrivial"`
	Gave   bool              `json:"gave,omitempty"`
	Log    string            `json:"log,omitempty"`
	States int               `json:"states"`
	Marks  map[string]int    `json:"marks,omitempty"`
	Kind   string            `json:"kind,omitempty"`
}

// Job mirrors the harness's Job.
type Job struct {
	Prop  string          `json:"prop"`
	Seed  uint64          `json:"seed"`
	Sc    json.RawMessage `json:"sc,omitempty"`
	Tape  []Dev           `json:"tape,omitempty"`
	Use   bool            `json:"use,omitempty"`
	Trace bool            `json:"trace,omitempty"`
	Keep  bool            `json:"keep,omitempty"`
	Tier  string          `json:"tier,omitempty"`
	Fixed string          `json:"fixed,omitempty"`
}

// Reply mirrors the harness's Reply.
type Reply struct {
	Res  *Result         `json:"res"`
	Sc   json.RawMessage `json:"sc,omitempty"`
	Wall int64           `json:"wall"`
	RSS  uint64          `json:"rss"`
	Race int             `json:"race,omitempty"`
	died string
}

var (
	verif = "/verif"
	repo  = "/repo"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simctl: "+f+"\n", a...)
	os.Exit(3)
}

// build makes the worker binary and returns its path.
func build(work string, race bool) string {
	gen := filepath.Join(work, "gen")
	os.MkdirAll(work, 0755)
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	simgen := filepath.Join(filepath.Dir(self), "simgen")
	run := func(dir string, env []string, name string, args ...string) {
		c := exec.Command(name, args...)
		c.Dir = dir
		c.Env = append(os.Environ(), env...)
		out, err := c.CombinedOutput()
		if err != nil {
			fatal("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
		}
	}
	run("/", nil, simgen, gen)
	bin := filepath.Join(work, "simbin")
	args := []string{"build", "-modfile=" + gen + "/go.mod", "-overlay=" + gen + "/overlay.json", "-ldflags=-checklinkname=0"}
	env := []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GO111MODULE=on", "GOTOOLCHAIN=local", "CGO_ENABLED=0"}
	if race {
		bin += "-race"
		env[len(env)-1] = "CGO_ENABLED=1"
		// Specialized allocation escapes the race detector in packages
		// that are not instrumented.
		env = append(env, "GOEXPERIMENT=nosizespecializedmalloc")
		args = append(args, "-race", "-gcflags=verif.local/sim/...=-race=false -l", "-gcflags=github.com/netauth/netauth/internal/zzverif=-race=false -l")
	}
	args = append(args, "-o", bin, "./internal/zzverif")
	run(repo, env, "go", args...)
	return bin
}

// Worker is a worker process.
type Worker struct {
	bin  string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tail
	runs int
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<20 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) reset() {
	t.mu.Lock()
	t.b = nil
	t.mu.Unlock()
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func (w *Worker) start() {
	w.cmd = exec.Command(w.bin)
	// The worker must not see or touch anything real.
	dir, err := os.MkdirTemp("", "simworker")
	if err != nil {
		fatal("%v", err)
	}
	w.cmd.Dir = dir
	w.cmd.Env = []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "HOME=" + dir, "PATH=/usr/bin:/bin", "GORACE=halt_on_error=0 log_path=stderr history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0"}
	w.in, _ = w.cmd.StdinPipe()
	o, _ := w.cmd.StdoutPipe()
	w.out = bufio.NewReaderSize(o, 1<<20)
	w.errb = &tail{}
	w.cmd.Stderr = w.errb
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		fatal("worker: %v", err)
	}
	w.runs = 0
}

func (w *Worker) stop() {
	if w.cmd == nil {
		return
	}
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	os.Remove(w.cmd.Dir)
	w.cmd = nil
}

// do runs a job.
func (w *Worker) do(j *Job, limit time.Duration) *Reply {
	if w.cmd == nil {
		w.start()
	}
	b, _ := json.Marshal(j)
	w.errb.reset()
	t := time.AfterFunc(limit, func() {
		w.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(300 * time.Millisecond)
		w.cmd.Process.Kill()
	})
	_, err := w.in.Write(append(b, '\n'))
	var line []byte
	if err == nil {
		line, err = w.out.ReadBytes('\n')
	}
	timely := t.Stop()
	if err != nil {
		w.cmd.Wait()
		msg := w.errb.String()
		os.Remove(w.cmd.Dir)
		w.cmd = nil
		what := "the process died"
		if !timely {
			what = "the process hangs"
		}
		if len(msg) > 6000 {
			msg = msg[:6000]
		}
		return &Reply{died: what + "\n" + msg}
	}
	var r Reply
	if err := json.Unmarshal(line, &r); err != nil {
		fatal("worker answered %.300q: %v", line, err)
	}
	if r.Res.Class == "race" {
		for i := 0; i < 2000 && !strings.Contains(w.errb.String(), raceEnd); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		if msg := races(w.errb.String()); msg != "" {
			if len(msg) > 5000 {
				msg = msg[:5000]
			}
			r.Res.Viol += "\n" + msg
		} else {
			r.Res.Viol, r.Res.Class = "", ""
		}
	}
	w.runs++
	if w.runs >= 1500 || r.RSS > 1<<30 {
		w.stop()
	}
	return &r
}

// raceEnd follows the reports of one execution.
const raceEnd = "== end of reports =="

// races keeps the reports on accesses that the code under test made;
// the simulator's own code runs one task at a time.
func races(log string) string {
	var out []string
	for _, rep := range strings.Split(log, "==================\n") {
		if !strings.HasPrefix(rep, "WARNING: DATA RACE") {
			continue
		}
		mine := 0
		for _, sec := range strings.Split(rep, "\n\n") {
			ls := strings.Split(sec, "\n")
			if strings.HasPrefix(ls[0], "WARNING") {
				ls = ls[1:]
			}
			if !strings.Contains(ls[0], " at 0x") {
				continue
			}
			for _, l := range ls[1:] {
				if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   ") {
					continue
				}
				f := strings.TrimSpace(l)
				if strings.Contains(f, ".ZZReinit") || strings.Contains(f, ".zzv") {
					break
				}
				head := f
				if i := strings.Index(f, "/"); i >= 0 {
					head = f[:i]
				}
				if i := strings.Index(head, "("); i >= 0 {
					head = head[:i]
				}
				if strings.HasPrefix(f, "verif.local/") || strings.Contains(f, "/internal/zzverif") || strings.HasPrefix(f, "main.") {
					break
				}
				if strings.Contains(head, ".") && strings.Contains(f, "/") && !strings.HasPrefix(f, "internal/") {
					mine++
					break
				}
			}
		}
		if mine == 2 {
			out = append(out, rep)
		}
	}
	return strings.Join(out, "")
}

// asResult turns a reply into a result; a dead worker is one, too.
func (r *Reply) asResult() *Result {
	if r.died != "" {
		return &Result{Viol: r.died, Class: "death"}
	}
	return r.Res
}

// Pool is a set of workers.
type Pool struct {
	free chan *Worker
	all  []*Worker
	lim  time.Duration
}

func newPool(bin string, n int, lim time.Duration) *Pool {
	p := &Pool{free: make(chan *Worker, n), lim: lim}
	for i := 0; i < n; i++ {
		w := &Worker{bin: bin}
		p.all = append(p.all, w)
		p.free <- w
	}
	return p
}

func (p *Pool) do(j *Job) *Reply {
	w := <-p.free
	r := w.do(j, p.lim)
	p.free <- w
	return r
}

func (p *Pool) close() {
	for range p.all {
		(<-p.free).stop()
	}
}

// Fail is a violation found.
type Fail struct {
	Seed uint64          `json:"seed"`
	Sc   json.RawMessage `json:"scenario"`
	Res  *Result         `json:"-"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Seed     uint64          `json:"seed"`
	Race     bool            `json:"race,omitempty"`
	UseTape  bool            `json:"use_tape"`
	Scenario json.RawMessage `json:"scenario"`
	Tape     []Dev           `json:"tape"`
	Class    string          `json:"class"`
	Viol     string          `json:"violation"`
	Log      string          `json:"history"`
	Trace    []string        `json:"-"`
}

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	// Bugs are planted in copies.
	if v := os.Getenv("SIM_REPO"); v != "" {
		repo = v
	}
	args := os.Args[1:]
	if len(args) == 0 {
		fatal("usage: simctl check PROP [tier] | replay FILE | build | determinism PROP N")
	}
	switch args[0] {
	case "build":
		build(filepath.Join(verif, ".work", "build"), false)
		build(filepath.Join(verif, ".work", "build"), true)
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(args) > 2 {
			tier = args[2]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(args[1], tier))
	case "replay":
		os.Exit(replay(args[1]))
	case "determinism":
		n := 200
		if len(args) > 2 {
			n, _ = strconv.Atoi(args[2])
		}
		os.Exit(determinism(args[1], n))
	default:
		fatal("unknown command %s", args[0])
	}
}

func sorted(m map[string]uint64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func lock(work string) func() {
	os.MkdirAll(work, 0755)
	f, err := os.OpenFile(filepath.Join(work, "lock"), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		fatal("%v", err)
	}
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
		fatal("%v", err)
	}
	return func() { f.Close() }
}

func seedBase() (int, uint64) {
	s := os.Getenv("VERIF_SEED")
	n, err := strconv.Atoi(s)
	if err != nil {
		n = 1
	}
	return n, uint64(n) * 10_000_000
}

func ncpu() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	work := filepath.Join(verif, ".work", "build")
	unlock := lock(work)
	bin := build(work, r.Race)
	unlock()
	w := &Worker{bin: bin}
	defer w.stop()
	rep := w.do(&Job{Prop: r.Property, Seed: r.Seed, Sc: r.Scenario, Tape: r.Tape, Use: r.UseTape, Trace: true}, 5*time.Minute)
	res := rep.asResult()
	fmt.Println(res.Log)
	if res.Viol == "" {
		fmt.Printf("not reproduced: property %s held in this execution\n", r.Property)
		return 0
	}
	fmt.Printf("[%s] %s\n", res.Class, res.Viol)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

// determinism runs every seed several times in different processes and
// orders and compares the executions.
func determinism(prop string, n int) int {
	work := filepath.Join(verif, ".work", "build")
	unlock := lock(work)
	bin := build(work, false)
	unlock()
	type sum struct {
		h   uint64
		log string
	}
	runAll := func(workers int, rev, traced bool) []sum {
		out := make([]sum, n)
		p := newPool(bin, workers, 5*time.Minute)
		defer p.close()
		var wg sync.WaitGroup
		_, base := seedBase()
		for i := 0; i < n; i++ {
			k := i
			if rev {
				k = n - 1 - i
			}
			wg.Add(1)
			w := <-p.free
			go func() {
				defer wg.Done()
				r := w.do(&Job{Prop: prop, Seed: base + uint64(k), Trace: traced, Keep: true}, p.lim)
				p.free <- w
				res := r.asResult()
				b, _ := json.Marshal(res.Faults)
				d, _ := json.Marshal(res.Devs)
				out[k] = sum{res.Hash, res.Viol + string(b) + string(d) + res.Log}
			}()
		}
		wg.Wait()
		return out
	}
	a := runAll(8, false, true)
	bad := 0
	for _, o := range [][]sum{runAll(3, true, true), runAll(5, false, true), runAll(1, true, true)} {
		for i := range a {
			if a[i] != o[i] {
				bad++
				fmt.Printf("seed offset %d differs\n", i)
				la, lb := strings.Split(a[i].log, "\n"), strings.Split(o[i].log, "\n")
				for j := range la {
					if j >= len(lb) || la[j] != lb[j] {
						fmt.Printf("  line %d:\n  - %.300s\n  + %.300s\n", j, la[j], append(lb, make([]string, len(la))...)[j])
						break
					}
				}
			}
		}
	}
	fmt.Printf("%s: %d seeds, 4 executions each, %d differ\n", prop, n, bad)
	if bad > 0 {
		return 2
	}
	return 0
}
