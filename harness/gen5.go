package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/fs"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"

	"verif.local/sim/simrt"
)

// cacheRec is a use of the token cache.
type cacheRec struct {
	op       *Op
	inv, ret int
	val      string
	none     bool // no token
	err      string
	fault    bool
	cut      bool // its process died
	epoch    int
	proc     *simrt.Proc
}

func (r *cacheRec) String() string {
	o := "ok"
	switch {
	case r.cut:
		o = "(process died)"
	case r.err != "":
		o = "error: " + r.err
	case r.none:
		o = "none"
	case r.op.K == "CacheGet":
		o = short(r.val)
	}
	return fmt.Sprintf("#%d [%d,%d] %s %q %s -> %s", r.op.ID, r.inv, r.ret, r.op.K, r.op.E, short(r.op.S), o)
}

func short(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%s…(%d)", s[:24], len(s))
	}
	return s
}

// explain searches an order of the uses of one owner's entry, which
// holds v (nil: nothing) at first, that explains what they returned.
func explain(recs []*cacheRec, v *string) bool {
	type key struct {
		mask uint64
		v    string
	}
	seen := map[key]bool{}
	full := uint64(1)<<uint(len(recs)) - 1
	var rec func(mask uint64, v *string) bool
	rec = func(mask uint64, v *string) bool {
		// What may be left out is left out in the end.
		rest := false
		min := 1 << 60
		for i, r := range recs {
			if mask&(1<<uint(i)) == 0 {
				if !r.cut && r.err == "" {
					rest = true
				}
				if r.ret < min {
					min = r.ret
				}
			}
		}
		if !rest || mask == full {
			return true
		}
		k := key{mask, "-"}
		if v != nil {
			k.v = "+" + *v
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, r := range recs {
			b := uint64(1) << uint(i)
			if mask&b != 0 || r.inv > min {
				continue
			}
			may := r.cut || r.err != ""
			switch r.op.K {
			case "CachePut":
				if rec(mask|b, &r.op.S) {
					return true
				}
			case "CacheDel":
				if rec(mask|b, nil) {
					return true
				}
			case "CacheGet":
				ok := may || r.none && v == nil || !r.none && v != nil && r.val == *v
				if ok && rec(mask|b, v) {
					return true
				}
				continue
			}
			if may && rec(mask|b, v) {
				return true
			}
		}
		return false
	}
	return rec(0, v)
}

func init() {
	add := func(prop, name string, w int, h Handler) {
		handlers[name] = h
		kinds[prop] = append(kinds[prop], kindW{name, w})
	}

	run := func(s *session) {
		l, w := s.l, s.l.W
		simrt.NoYield(func() { l.boot("netauth") })
		var recs []*cacheRec
		epoch := 0
		kind := s.sc.Str["cache"]
		held, err := cache.NewTokenCache(kind)
		if err != nil {
			panic(err)
		}
		defer func() {
			for _, r := range recs {
				s.hist = append(s.hist, &Rec{Op: r.op, Inv: r.inv, Ret: r.ret, Out: Out{Unknown: r.cut}})
			}
		}()
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			var procs []*simrt.Proc
			var tasks []*simrt.Task
			ended := func() bool {
				for i := range procs {
					if !procs[i].Dead && !tasks[i].Done() {
						return false
					}
				}
				return true
			}
			var p *simrt.Proc
			for ci, ops := range ph.Clients {
				if p == nil || kind == "fs" {
					p = l.proc(fmt.Sprintf("cli%d.%d", s.phase, ci))
					p.Env.Set("faults", true)
				}
				ops, p := ops, p
				procs = append(procs, p)
				var t *simrt.Task
				t = w.StartProc(p, fmt.Sprintf("p%d.c%d", s.phase, ci), func() {
					c := held
					if kind == "fs" {
						var err error
						if c, err = cache.NewTokenCache(kind); err != nil {
							panic(err)
						}
					}
					for _, op := range ops {
						r := &cacheRec{op: op, cut: true, epoch: epoch, ret: pending, proc: p}
						t := simrt.Cur()
						t.Do("call", func() {
							r.inv = l.tick()
							recs = append(recs, r)
						})
						dev0 := len(w.Devs)
						var e error
						switch op.K {
						case "CachePut":
							e = c.PutToken(op.E, op.S)
						case "CacheGet":
							r.val, e = c.GetToken(op.E)
							if e == cache.ErrNoCachedToken {
								r.none, e = true, nil
							}
						case "CacheDel":
							e = c.DelToken(op.E)
						}
						t.Do("return", func() {
							r.ret = l.tick()
							r.cut = false
							if e != nil {
								r.err = e.Error()
							}
							for _, d := range w.Devs[dev0:] {
								r.fault = r.fault || d.Task == t.Name && strings.HasPrefix(d.Kind, "F.")
							}
						})
					}
				})
				tasks = append(tasks, t)
			}
			for _, k := range ph.Faults {
				w.Enable.Set(k, true)
			}
			w.Faulty = len(ph.Faults) > 0
			npt, victim := 0, ph.Crash%(len(procs)+1)
			w.OnPoint = func(t *simrt.Task) {
				if ph.Crash == 0 || victim < len(procs) && t.Proc != procs[victim] {
					return
				}
				if npt++; npt == ph.CrashStart {
					for i, p := range procs {
						if i == victim || victim == len(procs) {
							p.Kill()
							w.Counts.Inc("crash")
						}
					}
					for _, r := range recs {
						if r.cut && r.ret == pending && r.proc.Dead {
							r.ret = l.tick()
						}
					}
				}
			}
			o := w.RunUntil(ended)
			w.OnPoint = nil
			w.Faulty = false
			for _, k := range ph.Faults {
				w.Enable.Set(k, nil)
			}
			for _, p := range procs {
				if p.Panic != "" {
					s.fail("panic", "a client died: %s", p.Panic)
					return
				}
			}
			if o != simrt.OK {
				s.fail("wedge", "the cache does not answer (%s): %s", o, w.Parked())
				return
			}
			for _, r := range recs {
				if r.ret == pending {
					r.ret = l.tick()
				}
			}
			if ph.Restart == "power" {
				for _, p := range procs {
					p.Kill()
				}
				l.FS.PowerLoss(func(kind string, n int) int { return w.Choose(nil, kind, n, 0.5, "") })
				epoch++
				s.mark("powerloss")
			}
			s.mark("phase")
		}
		// Judge every owner alone.
		owners := map[string][]*cacheRec{}
		var names []string
		for _, r := range recs {
			if owners[r.op.E] == nil {
				names = append(names, r.op.E)
			}
			owners[r.op.E] = append(owners[r.op.E], r)
			bad := strings.IndexByte(r.op.E, 0) >= 0 || len(r.op.E) > 60
			if r.err != "" && !r.fault && !bad {
				s.fail("error", "%s fails without a reason", r)
				return
			}
		}
		sort.Strings(names)
		for _, n := range names {
			var put []*string
			put = append(put, nil)
			for ep := 0; ep <= epoch; ep++ {
				var rs []*cacheRec
				for _, r := range owners[n] {
					if r.epoch == ep {
						rs = append(rs, r)
					}
				}
				ok := false
				for i, v := range put {
					if ep == 0 && i > 0 {
						break
					}
					ok = ok || explain(rs, v)
				}
				if !ok {
					var b strings.Builder
					for _, r := range owners[n] {
						fmt.Fprintf(&b, "\n  %v %s", r.epoch, r)
					}
					s.fail("cache", "what the cache returns for %q can not be explained:%s", n, b.String())
					return
				}
				for _, r := range rs {
					if r.op.K == "CachePut" {
						v := r.op.S
						put = append(put, &v)
					}
				}
			}
		}
	}

	gen := func(kind string) func(r *rng, sc *Scenario) {
		return func(r *rng, sc *Scenario) {
			sc.Str = map[string]string{"cache": kind}
			g := newGen(r, sc)
			g.schedule()
			sc.Boot = ""
			sc.Setup = nil
			long := strings.Repeat("o", 60)
			pool := []string{"alice", "bob", "Alice", "", ".", "..", "a/b", "a%2Fb", "a\\b", "a%5Cb", "alice.nt", "./alice", "../tmp/alice", "alice/", "%", "%25", "%2F",
				"*", "netauth-1.tmp", "netauth-1", "ä", " alice", "alice ", "a\nb", "-", "~", "$HOME", "a:b", "a%252Fb", "a%25", "a%", "nt", ".nt", "x/../alice", "/tmp/alice", "a\x00b", "a", long, long + "x", strings.Repeat("l", 252), strings.Repeat("l", 253), strings.Repeat("/", 90)}
			var owners []string
			for i := 0; i < 1+r.n(4); i++ {
				owners = append(owners, r.of(pool...))
			}
			if r.p(0.3) {
				owners = []string{"alice"}
			}
			if r.p(0.2) {
				owners = append(owners, r.of("a/b", "a\\b"), r.of("a%2Fb", "a%5Cb", "a%252Fb", "b"))
			}
			faulty, power := r.p(0.3), false
			if faulty {
				for _, k := range []string{"F.eio", "F.enospc", "F.short", "F.emfile"} {
					sc.Prof.P[k] = []float64{0.02, 0.1, 0.3}[r.n(3)]
				}
			} else if kind == "fs" {
				power = r.p(0.5)
				sc.Cfg.Disk = r.of("", "strict")
			}
			per := map[string]int{}
			for i := 0; i < 1+r.n(4); i++ {
				ph := &Phase{}
				for c := 0; c < 1+r.n(4); c++ {
					var ops []*Op
					for j := 0; j < 1+r.n(5); j++ {
						op := &Op{ID: g.next(), E: r.of(owners...)}
						if per[op.E]++; per[op.E] > 40 {
							continue
						}
						switch r.n(6) {
						case 0, 1, 2:
							op.K = "CacheGet"
						case 3, 4:
							op.K = "CachePut"
							n := []int{0, 10, 100, 700, 4096, 5000}[r.n(6)]
							op.S = fmt.Sprintf("%d.", op.ID) + strings.Repeat("abcdefghi.", n/10)
							if n == 0 && r.p(0.3) {
								op.S = ""
							}
						case 5:
							op.K = "CacheDel"
						}
						ops = append(ops, op)
					}
					ph.Clients = append(ph.Clients, ops)
				}
				if kind == "fs" && r.p(0.5) {
					ph.Crash = 1 + r.n(6)
					ph.CrashStart = 1 + r.n(60)
				}
				if faulty {
					ph.Faults = []string{"F.eio", "F.enospc", "F.short", "F.emfile"}
				}
				if power && r.p(0.6) {
					ph.Restart = "power"
				}
				sc.Phases = append(sc.Phases, ph)
			}
			// In the end everything is read.
			var ops []*Op
			done := map[string]bool{}
			for _, o := range owners {
				if !done[o] {
					done[o] = true
					ops = append(ops, &Op{ID: g.next(), K: "CacheGet", E: o})
				}
			}
			sc.Phases = append(sc.Phases, &Phase{Clients: [][]*Op{ops}})
		}
	}
	add("L01", "l01", 4, Handler{Run: run, Gen: gen("fs")})
	add("L01", "l01mem", 1, Handler{Run: run, Gen: gen("memory")})
}
