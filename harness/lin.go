package main

import (
	"fmt"
	"sort"
	"strings"
)

// lin searches for an order of the recorded requests that explains
// every answer (Wing & Gong, with memoisation).  An op consists of one
// or more atomic steps.  An op that was cut off by a crash may have
// done any number of its steps, all before the crash.
type lin struct {
	m     *Model
	recs  []*Rec
	seen  map[string]bool
	steps int
	max   int
	best  int
	bestP []int
	bestS *St
	// accept is asked about the final state.
	accept func(st *St) bool
	final  *St
}

type linResult struct {
	OK      bool
	Gave    bool // ran out of steps
	Final   *St
	Explain string
}

// linearize checks a history.  Records must have Ret set; for ops cut
// off by a crash Ret is the time of the crash and Crash is set.
func linearize(m *Model, start *St, recs []*Rec, accept func(st *St) bool) linResult {
	l := &lin{m: m, recs: recs, seen: map[string]bool{}, max: 400000, best: -1, accept: accept}
	sort.SliceStable(l.recs, func(i, j int) bool { return l.recs[i].Inv < l.recs[j].Inv })
	stage := make([]int, len(recs))
	ok := l.search(start, stage, 0, nil)
	if ok {
		return linResult{OK: true, Final: l.final}
	}
	if l.steps >= l.max {
		return linResult{Gave: true}
	}
	var b strings.Builder
	if l.best < 0 {
		return linResult{Explain: "no order explains the history"}
	}
	b.WriteString("explained in order:")
	for _, i := range l.bestP {
		fmt.Fprintf(&b, " #%d", l.recs[i].Op.ID)
	}
	b.WriteString("\nmodel state there:\n" + l.bestS.String())
	b.WriteString("not explained:")
	done := map[int]bool{}
	for _, i := range l.bestP {
		done[i] = true
	}
	for i, r := range l.recs {
		if !done[i] {
			fmt.Fprintf(&b, "\n  #%d %s -> %s", r.Op.ID, r.Op, r.Out)
		}
	}
	return linResult{Explain: b.String()}
}

const stDone = 1 << 20

func (l *lin) search(st *St, stage []int, ndone int, path []int) bool {
	l.steps++
	if l.steps >= l.max {
		return false
	}
	// The earliest return time of an unfinished op bounds what may
	// come next.
	minRet := pending
	left := 0
	for i, r := range l.recs {
		if stage[i] == stDone {
			continue
		}
		left++
		if r.Ret < minRet {
			minRet = r.Ret
		}
	}
	if left == 0 {
		if l.accept == nil || l.accept(st) {
			l.final = st
			return true
		}
	}
	var kb strings.Builder
	kb.WriteString(st.key())
	for _, s := range stage {
		if s == stDone {
			kb.WriteByte(255)
		} else {
			kb.WriteByte(byte(s))
		}
	}
	k := kb.String()
	if l.seen[k] {
		return false
	}
	l.seen[k] = true
	if ndone > l.best {
		l.best = ndone
		l.bestP = append([]int(nil), path...)
		l.bestS = st
	}
	for i, r := range l.recs {
		if stage[i] == stDone {
			continue
		}
		if r.Inv > minRet {
			break
		}
		old := stage[i]
		if r.Never {
			stage[i] = stDone
			if l.search(st, stage, ndone+1, path) {
				return true
			}
			stage[i] = old
			return false
		}
		for _, n := range l.m.step(r, st, old) {
			p := path
			nd := ndone
			if n.done {
				stage[i] = stDone
				p = append(path[:len(path):len(path)], i)
				nd++
			} else {
				stage[i] = n.stage
			}
			if l.search(n.st, stage, nd, p) {
				return true
			}
			stage[i] = old
		}
		if r.Crash && r.Ret == minRet {
			// It stopped here.
			stage[i] = stDone
			if l.search(st, stage, ndone+1, path) {
				return true
			}
			stage[i] = old
		}
	}
	return false
}
