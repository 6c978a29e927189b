package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"syscall"
	"time"
	_ "unsafe"

	"github.com/golang/protobuf/proto"

	"verif.local/sim/simrt"
)

type protoMsg = proto.Message

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

// Job is a line the orchestrator sends to a worker.
type Job struct {
	Prop  string      `json:"prop"`
	Seed  uint64      `json:"seed"`
	Sc    *Scenario   `json:"sc,omitempty"`
	Tape  []simrt.Dev `json:"tape,omitempty"`
	Use   bool        `json:"use,omitempty"`
	Trace bool        `json:"trace,omitempty"`
	Keep  bool        `json:"keep,omitempty"` // send the scenario back
	Tier  string      `json:"tier,omitempty"`
	Fixed string      `json:"fixed,omitempty"` // "gen": only generate
}

// Reply is the worker's answer.
type Reply struct {
	Res  *Result   `json:"res"`
	Sc   *Scenario `json:"sc,omitempty"`
	Wall int64     `json:"wall"`
	RSS  uint64    `json:"rss"`
	Race int       `json:"race,omitempty"`
}

func generate(prop string, seed uint64) *Scenario {
	h := kinds[prop]
	r := &rng{seed*0x9e3779b97f4a7c15 + 12345}
	r.u()
	tot := 0
	for _, k := range h {
		tot += k.w
	}
	x := r.n(tot)
	name := ""
	for _, k := range h {
		if x < k.w {
			name = k.name
			break
		}
		x -= k.w
	}
	sc := &Scenario{Prop: prop, Kind: name, Seed: seed, Prof: defaultProfile(), Num: map[string]int64{}, Str: map[string]string{}}
	handlers[name].Gen(r, sc)
	return sc
}

func serve(in *bufio.Reader, out *bufio.Writer) {
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	for {
		var j Job
		if dec.Decode(&j) != nil {
			return
		}
		t0 := wall()
		sc := j.Sc
		if sc == nil {
			sc = generate(j.Prop, j.Seed)
		}
		if j.Fixed == "gen" {
			enc.Encode(Reply{Res: &Result{}, Sc: sc})
			out.Flush()
			continue
		}
		var keep *Scenario
		orig := sc.clone()
		race0 := simrt.RaceErrors()
		res := execute(sc, j.Tape, j.Use, j.Trace)
		if n := simrt.RaceErrors() - race0; n > 0 && res.Viol == "" {
			res.Viol = "shared memory is accessed without synchronization"
			res.Class = "race"
			syscall.Write(2, []byte("== end of reports ==\n"))
		}
		if j.Keep || res.Viol != "" {
			keep = orig
		}
		if res.Viol == "" && !j.Keep {
			res.Devs = nil
		}
		rep := Reply{Res: res, Sc: keep, Wall: wall() - t0, RSS: rss()}
		enc.Encode(rep)
		out.Flush()
	}
}

// wall is the real clock; inside the bubble time.Now is virtual.
//
//go:linkname nanotime runtime.nanotime1
func nanotime() int64

func wall() int64 { return nanotime() }

func rss() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.Sys - m.HeapReleased
}

func main() {
	one := flag.String("one", "", "run one seed of this property")
	seed := flag.Uint64("seed", 1, "seed")
	count := flag.Int("count", 1, "number of seeds")
	trace := flag.Bool("trace", false, "print the trace")
	show := flag.Bool("show", false, "print the scenario")
	flag.Parse()
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	a1, a2, a3, a4, a5 := *one, *seed, *count, *trace, *show
	_ = time.Now
	synctestRun(func() {
		globalInit()
		if a1 == "" {
			serve(in, out)
			os.Exit(0)
		}
		t0 := wall()
		bad := 0
		for i := 0; i < a3; i++ {
			sc := generate(a1, a2+uint64(i))
			if a5 {
				b, _ := json.MarshalIndent(sc, "", " ")
				fmt.Fprintln(stdout, string(b))
			}
			res := execute(sc, nil, false, a4)
			if res.Viol != "" || a4 || a5 {
				fmt.Fprintf(stdout, "seed %d kind %s: [%s] %s\n%s\n", a2+uint64(i), sc.Kind, res.Class, res.Viol, res.Log)
				bad++
			}
			if a3 == 1 {
				b, _ := json.Marshal(res)
				fmt.Fprintln(stdout, string(b))
			}
		}
		fmt.Fprintf(stdout, "%d runs, %d bad, %.2fs, %dMB\n", a3, bad, float64(wall()-t0)/1e9, rss()>>20)
		os.Exit(0)
	})
}
