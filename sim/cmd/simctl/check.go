package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Plan is how much a check does.
type Plan struct {
	runs  int
	cap   time.Duration
	race  int // runs with the race detector
	level string
}

func plan(prop, tier string) Plan {
	p := Plan{runs: 9000, cap: 150 * time.Second, level: "exploration"}
	switch prop {
	case "C03":
		p.race = 1200
	case "F01":
		p.race = 400
	case "L01": // short runs
		p.runs = 90000
	case "D04":
		p.runs = 14000
	}
	if tier == "thorough" {
		p.runs *= 40
		p.race *= 20
		p.cap = 780 * time.Second
		if p.race > 0 {
			p.cap = 390 * time.Second
		}
	}
	return p
}

// Stats collects what a batch covered.
type Stats struct {
	mu      sync.Mutex
	runs    int
	steps   int
	vtime   int64
	ops     int
	oks     int
	gave    int
	faults  map[string]uint64
	marks   map[string]int
	kinds   map[string]int
	hashes  map[uint64]bool
	nontr   int
	samples []json.RawMessage
	sampled map[string]bool
	known   map[string]int
}

func (s *Stats) add(r *Result, sc json.RawMessage) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs++
	s.steps += r.Steps
	s.vtime += r.VTime
	s.ops += r.Ops
	s.oks += r.OKs
	if r.Gave {
		s.gave++
	}
	for k, v := range r.Faults {
		s.faults[k] += v
	}
	for k, v := range r.Marks {
		s.marks[k] += v
	}
	s.kinds[r.Kind]++
	if r.Nontr && !s.hashes[r.Hash] {
		s.hashes[r.Hash] = true
	}
	if r.Known != "" {
		s.known[r.Known]++
	}
	if sc != nil && len(s.samples) < 3 && !s.sampled[r.Kind] && r.Nontr {
		s.sampled[r.Kind] = true
		s.samples = append(s.samples, sc)
	}
}

// batch runs seeds and returns the failing one with the lowest seed.
func batch(bin, prop, tier string, base uint64, n int, limit time.Duration, st *Stats) *Fail {
	pool := newPool(bin, ncpu(), 90*time.Second)
	defer pool.close()
	var mu sync.Mutex
	var fail *Fail
	var wg sync.WaitGroup
	deadline := time.Now().Add(limit)
	for i := 0; i < n && time.Now().Before(deadline); i++ {
		mu.Lock()
		stop := fail != nil
		mu.Unlock()
		if stop {
			break
		}
		w := <-pool.free
		wg.Add(1)
		seed := base + uint64(i)
		keep := i%61 == 0
		go func() {
			defer wg.Done()
			rep := w.do(&Job{Prop: prop, Seed: seed, Keep: keep, Tier: tier}, pool.lim)
			pool.free <- w
			r := rep.asResult()
			if rep.died != "" {
				// Only what happens again counts.
				f := &Worker{bin: bin}
				again := f.do(&Job{Prop: prop, Seed: seed, Tier: tier}, pool.lim)
				f.stop()
				if again.died == "" {
					fmt.Printf("seed %d: a worker died once and not again:\n%.1500s\n", seed, rep.died)
				}
				r = again.asResult()
				rep = again
			}
			st.add(r, rep.Sc)
			if r.Viol != "" {
				mu.Lock()
				if fail == nil || seed < fail.Seed {
					fail = &Fail{Seed: seed, Sc: rep.Sc, Res: r}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return fail
}

func check(prop, tier string) int {
	t0 := time.Now()
	seed, base := seedBase()
	pl := plan(prop, tier)
	work := filepath.Join(verif, ".work", "build")
	unlock := lock(work)
	bin := build(work, false)
	rbin := ""
	if pl.race > 0 {
		rbin = build(work, true)
	}
	// Later builds must not replace what this check runs.
	priv, err := os.MkdirTemp("", "simctl")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(priv)
	for _, b := range []*string{&bin, &rbin} {
		if *b != "" {
			d := filepath.Join(priv, filepath.Base(*b))
			data, err := os.ReadFile(*b)
			if err == nil {
				err = os.WriteFile(d, data, 0755)
			}
			if err != nil {
				fatal("%v", err)
			}
			*b = d
		}
	}
	unlock()
	tb := time.Since(t0)
	st := &Stats{faults: map[string]uint64{}, marks: map[string]int{}, kinds: map[string]int{}, hashes: map[uint64]bool{}, sampled: map[string]bool{}, known: map[string]int{}}
	t1 := time.Now()
	fail := batch(bin, prop, tier, base, pl.runs, pl.cap, st)
	raced := false
	nrace := 0
	if fail == nil && rbin != "" {
		n0 := st.runs
		fail = batch(rbin, prop, tier, base+5_000_000, pl.race, pl.cap, st)
		raced = fail != nil
		nrace = st.runs - n0
	}
	el := time.Since(t1)
	known := 0
	for _, k := range loadKnown(prop) {
		known++
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
	}
	viol := 0
	rc := 0
	if fail != nil {
		b := bin
		if raced {
			b = rbin
		}
		path, ok := report(b, prop, tier, fail, raced)
		if !ok {
			fmt.Fprintf(os.Stderr, "simctl: seed %d failed and did not fail again; this is trouble with the simulator\n", fail.Seed)
			rc = 3
		} else {
			viol = 1
			rc = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
	}
	evidence(prop, tier, seed, pl, st, el, tb, time.Since(t0), nrace, viol, known)
	fmt.Printf("%s %s: %d runs (%d with the race detector), %d distinct, %d steps, %.0f s simulated, %d requests, faults %v, marks %v, gave up %d; %.0f runs/s; wall %.1fs (build %.1fs)\n",
		prop, tier, st.runs, nrace, len(st.hashes), st.steps, float64(st.vtime)/1e9, st.ops, st.faults, st.marks, st.gave, float64(st.runs)/el.Seconds(), time.Since(t0).Seconds(), tb.Seconds())
	return rc
}

// Known is an entry of the known-findings file.
type Known struct {
	Prop, ID, What string
}

func loadKnown(prop string) []Known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[1] == "property="+prop {
			out = append(out, Known{prop, strings.TrimPrefix(f[2], "id="), f[3]})
		}
	}
	return out
}

// report minimises a failure and writes its replay file.
func report(bin, prop, tier string, f *Fail, race bool) (string, bool) {
	fmt.Printf("seed %d violates the property [%s]; minimising\n", f.Seed, f.Res.Class)
	m := &minimizer{prop: prop, tier: tier, seed: f.Seed, class: f.Res.Class, bin: bin, deadline: time.Now().Add(75 * time.Second)}
	m.pool = newPool(bin, ncpu(), 60*time.Second)
	defer m.pool.close()
	rp := &Replay{Property: prop, Seed: f.Seed, Race: race, Class: f.Res.Class}
	// A dead worker left no scenario behind.
	if f.Sc == nil {
		w := &Worker{bin: bin}
		r := w.do(&Job{Prop: prop, Seed: f.Seed, Keep: true, Tier: tier, Fixed: "gen"}, 60*time.Second)
		w.stop()
		f.Sc = r.Sc
	}
	fresh := func(sc json.RawMessage, tape []Dev, use bool) *Result {
		for i := 0; i < 3; i++ {
			w := &Worker{bin: bin}
			r := w.do(&Job{Prop: prop, Seed: f.Seed, Sc: sc, Tape: tape, Use: use, Tier: tier, Keep: true}, 90*time.Second).asResult()
			w.stop()
			if r.Viol != "" {
				return r
			}
		}
		return nil
	}
	r0 := fresh(f.Sc, nil, false)
	if r0 == nil {
		return "", false
	}
	rp.Scenario, rp.UseTape = f.Sc, false
	rp.Viol, rp.Log, rp.Class = r0.Viol, r0.Log, r0.Class
	m.class = r0.Class
	if r0.Class != "death" {
		if r1 := fresh(f.Sc, r0.Devs, true); r1 != nil && r1.Class == r0.Class {
			sc, tape := m.run(f.Sc, r0.Devs)
			if r2 := fresh(sc, tape, true); r2 != nil && r2.Class == r0.Class {
				rp.Scenario, rp.Tape, rp.UseTape = sc, tape, true
				rp.Viol, rp.Log = r2.Viol, r2.Log
			}
		}
	}
	os.MkdirAll(filepath.Join(verif, "replays"), 0755)
	path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", prop, f.Seed))
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("[%s] %s\nhistory (%d forced decisions, %d attempts to shrink):\n%s", rp.Class, rp.Viol, len(rp.Tape), m.tries, rp.Log)
	for _, d := range rp.Tape {
		fmt.Printf("  decision %s %s#%d=%d %s\n", d.Task, d.Kind, d.Seq, d.Val, d.Note)
	}
	return path, true
}

func evidence(prop, tier string, seed int, pl Plan, st *Stats, el, tb, wall time.Duration, nrace, viol, known int) {
	samples := []interface{}{}
	for _, s := range st.samples {
		samples = append(samples, s)
	}
	perHour := 0.0
	if el > 0 {
		perHour = float64(st.runs) / el.Hours()
	}
	kinds := []string{}
	for k := range st.kinds {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	fk := map[string]interface{}{}
	names := map[string]string{"S": "schedule: other task chosen", "T": "schedule: task stalled", "Y": "schedule: preemption between statements",
		"F.eio": "disk I/O error", "F.enospc": "disk full", "F.emfile": "out of file descriptors", "F.short": "short write", "N.delay": "message delay",
		"N.lost": "reply lost", "P.start": "plugin fails to start", "P.kill": "plugin dies before a call", "P.killafter": "plugin dies after a call", "crash": "server crash at a chosen point",
		"map": "order of a map iteration", "power": "choice of what survives a power loss"}
	for k, v := range st.faults {
		n := names[k]
		if n == "" {
			n = k
		}
		fk[n] = v
	}
	for k, v := range st.marks {
		fk["event "+k] = v
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": pl.level, "wall_s": wall.Seconds(), "violations": viol,
		"coverage": map[string]interface{}{
			"evaluations":         st.runs,
			"distinct_nontrivial": len(st.hashes),
			"rule": "each evaluation is one simulated run of a seeded scenario (configuration, requests, faults, schedule); runs are distinct if the hash over the sequence of " +
				"(task, scheduling point) differs, and non-trivial if at least one decision deviated from the default schedule or a fault, crash or restart took place, and at least three requests succeeded",
			"samples":                         samples,
			"runs_per_scenario_kind":          st.kinds,
			"runs_with_race_detector":         nrace,
			"seeds_per_hour":                  int(perHour),
			"simulated_runs_per_hour":         int(perHour),
			"simulated_seconds":               float64(st.vtime) / 1e9,
			"scheduling_steps":                st.steps,
			"requests":                        st.ops,
			"requests_answered_ok":            st.oks,
			"faults_and_schedule_decisions":   fk,
			"oracle_gave_up":                  st.gave,
			"known_findings":                  known,
			"build_s":                         tb.Seconds(),
			"components_running_real_code":    realParts,
			"components_replaced_by_stand_in": stubParts,
		},
		"assumptions": []string{
			"the stand-ins for operating system, network transport, clock, signals, plugin processes and synchronization behave like the real ones in what NetAuth uses of them",
			"scheduling is decided at operations of the stand-ins and at sampled statements of NetAuth's own packages",
			"seeded search samples executions; it does not enumerate them",
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644); err != nil {
		fatal("%v", err)
	}
}

var realParts = []string{
	"all packages of NetAuth that run in the check (server, RPC layer, tree, resolver, database layer and backends, crypto, tokens, health, plugins, nsutil, client caches), rebuilt from /repo's working tree",
	"bitcask, bleve, afero, viper, cobra, jwt-go, bcrypt, protobuf and the other dependencies",
}
var stubParts = []string{
	"file system (in-memory, with power-loss and error model)", "gRPC transport (in-process, messages are marshalled)", "net/rpc and plugin processes",
	"clock and timers", "goroutine scheduling, sync and channels", "signals and process exit", "randomness", "RSA key generation (pool of fixed keys)",
}
