package main

import (
	"encoding/json"
	"sync"
	"time"
)

// minimizer shrinks a failing scenario and its decisions.
type minimizer struct {
	prop, tier, class, bin string
	seed                   uint64
	pool                   *Pool
	deadline               time.Time
	tries                  int
}

type cand struct {
	sc   json.RawMessage
	tape []Dev
}

// first returns the first candidate (in order) that still fails the
// same way; candidates are tried in parallel.
func (m *minimizer) first(cs []cand) int {
	n := ncpu()
	for lo := 0; lo < len(cs); lo += n {
		if time.Now().After(m.deadline) {
			return -1
		}
		hi := lo + n
		if hi > len(cs) {
			hi = len(cs)
		}
		ok := make([]bool, hi-lo)
		devs := make([][]Dev, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			i := i
			m.tries++
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := m.pool.do(&Job{Prop: m.prop, Seed: m.seed, Sc: cs[i].sc, Tape: cs[i].tape, Use: true, Tier: m.tier, Keep: true})
				if r.died == "" && r.Res.Viol != "" && r.Res.Class == m.class {
					ok[i-lo] = true
					devs[i-lo] = r.Res.Devs
				}
			}()
		}
		wg.Wait()
		for i := range ok {
			if ok[i] {
				// What did not fire is not needed.
				if len(devs[i]) <= len(cs[lo+i].tape) {
					cs[lo+i].tape = devs[i]
				}
				return lo + i
			}
		}
	}
	return -1
}

func (m *minimizer) run(sc json.RawMessage, tape []Dev) (json.RawMessage, []Dev) {
	for round := 0; round < 6; round++ {
		before := len(tape) + len(sc)
		sc, tape = m.scenario(sc, tape)
		tape = m.tape(sc, tape)
		if len(tape)+len(sc) == before || time.Now().After(m.deadline) {
			break
		}
	}
	return sc, tape
}

// tape removes decisions (delta debugging).
func (m *minimizer) tape(sc json.RawMessage, tape []Dev) []Dev {
	size := (len(tape) + 1) / 2
	for size >= 1 && len(tape) > 0 {
		var cs []cand
		for lo := 0; lo < len(tape); lo += size {
			hi := lo + size
			if hi > len(tape) {
				hi = len(tape)
			}
			t := append(append([]Dev{}, tape[:lo]...), tape[hi:]...)
			cs = append(cs, cand{sc, t})
		}
		i := m.first(cs)
		if i >= 0 {
			tape = cs[i].tape
			if size > len(tape) {
				size = (len(tape) + 1) / 2
			}
			continue
		}
		if size == 1 {
			break
		}
		size = (size + 1) / 2
	}
	return tape
}

// scenario removes parts of the scenario: any element of any list of
// objects, and any optional setting.
func (m *minimizer) scenario(sc json.RawMessage, tape []Dev) (json.RawMessage, []Dev) {
	for {
		var cs []cand
		for _, v := range variants(sc) {
			cs = append(cs, cand{v, tape})
		}
		i := m.first(cs)
		if i < 0 {
			return sc, tape
		}
		sc, tape = cs[i].sc, cs[i].tape
	}
}

func variants(sc json.RawMessage) []json.RawMessage {
	var out []json.RawMessage
	load := func() map[string]interface{} {
		var v map[string]interface{}
		json.Unmarshal(sc, &v)
		return v
	}
	emit := func(v map[string]interface{}) {
		b, err := json.Marshal(v)
		if err == nil && len(b) < len(sc) {
			out = append(out, b)
		}
	}
	list := func(v map[string]interface{}, k string) []interface{} {
		l, _ := v[k].([]interface{})
		return l
	}
	cut := func(l []interface{}, i int) []interface{} {
		return append(append([]interface{}{}, l[:i]...), l[i+1:]...)
	}
	v := load()
	np := len(list(v, "phases"))
	for i := 0; i < np; i++ {
		w := load()
		w["phases"] = cut(list(w, "phases"), i)
		emit(w)
	}
	for i := 0; i < np; i++ {
		ph, _ := list(v, "phases")[i].(map[string]interface{})
		for c := range list(ph, "clients") {
			w := load()
			p := list(w, "phases")[i].(map[string]interface{})
			p["clients"] = cut(list(p, "clients"), c)
			emit(w)
		}
		for c, cl := range list(ph, "clients") {
			ops, _ := cl.([]interface{})
			for o := range ops {
				if len(ops) == 1 {
					continue
				}
				w := load()
				p := list(w, "phases")[i].(map[string]interface{})
				cls := list(p, "clients")
				cls[c] = cut(cls[c].([]interface{}), o)
				emit(w)
			}
		}
		for _, k := range []string{"crash", "crashstart", "faultstart", "restart", "clock", "faults", "boot", "tls", "imposter"} {
			if _, ok := ph[k]; ok {
				w := load()
				delete(list(w, "phases")[i].(map[string]interface{}), k)
				emit(w)
			}
		}
	}
	for i := range list(v, "setup") {
		w := load()
		w["setup"] = cut(list(w, "setup"), i)
		emit(w)
	}
	for i := range list(v, "list") {
		w := load()
		w["list"] = cut(list(w, "list"), i)
		emit(w)
	}
	return out
}
