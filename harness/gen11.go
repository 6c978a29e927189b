package main

import (
	"fmt"
	"hash"
	"sort"
	"strings"

	types "github.com/netauth/protocol"
)

// The fail2lock plugin.

// fails is what the plugin of the running server remembers.
type fails struct {
	srv int
	at  map[string][]int64 // when, by entity
}

func (f *fails) sum(h hash.Hash) {
	if f == nil {
		return
	}
	fmt.Fprintf(h, "srv%d", f.srv)
	var l []string
	for n := range f.at {
		l = append(l, n)
	}
	sort.Strings(l)
	for _, n := range l {
		fmt.Fprintf(h, "%q%v", n, f.at[n])
	}
}

func (f *fails) with(srv int, n string, l []int64) *fails {
	c := &fails{srv: srv, at: map[string][]int64{}}
	if f != nil && f.srv == srv {
		for k, v := range f.at {
			c.at[k] = v
		}
	}
	delete(c.at, n)
	if len(l) > 0 {
		c.at[n] = l
	}
	return c
}

func (s *St) withF(f *fails) *St { return &St{E: s.E, G: s.G, F: f} }

func (c *SrvCfg) fail2lock() (int, int64) {
	n, i := c.Fails, c.Interval
	if n == 0 {
		n = 3
	}
	if i == 0 {
		i = 15 * 60
	}
	return n, i
}

// withFail2lock amends what a request may do by what the plugin does:
// who has failed too often of late counts as locked.
func (m *Model) withFail2lock(r *Rec, st *St, stage int, acts []string) []Next {
	op := r.Op
	e := st.E[op.E]
	var out []Next
	if r.plug0.dead || !r.plug0.dead && r.plug1.dead {
		if r.Out.Unknown || r.Out.Code == cInt || r.Out.Code == cUnauth && strings.HasPrefix(op.K, "Auth") {
			out = append(out, Next{st: st, done: true})
		}
		if r.plug0.dead {
			for _, n := range m.step1(r, st, 0) {
				if r.Out.Code != cOK && !r.Out.Unknown {
					out = append(out, n)
				}
			}
			return out
		}
	}
	if acts[0] != "PreAuthCheck" || e == nil {
		return append(out, m.step1(r, st, stage)...)
	}
	if stage == 1 {
		// The secret was right, now it's replaced.
		switch {
		case m.unfit(op.S):
			if m.match(r, cInt, "", false) {
				out = append(out, Next{st: st, done: true})
			}
		case m.match(r, cOK, "*", false):
			out = append(out, Next{st: st.editE(op.E, func(e *types.Entity) { e.Secret = sp(op.S) }), done: true})
		}
		return out
	}
	allowed, interval := m.f2l.fail2lock()
	var l []int64
	if st.F != nil && st.F.srv == r.Srv {
		l = st.F.at[op.E]
	}
	n, maybe := 0, 0
	for _, t := range l {
		switch age := r.clk0 - t; {
		case age < interval-20:
			n++
		case age < interval+20:
			maybe++
		}
	}
	var flags []string
	for _, kv := range e.GetMeta().GetUntypedMeta() {
		if k := strings.SplitN(kv, ":", 2)[0]; k == "fail2lock" {
			flags = append(flags, kv)
		}
	}
	reset := len(flags) == 1 && flags[0] == "fail2lock:RESET"
	locked := func() {
		x := st.editE(op.E, func(e *types.Entity) { t := true; e.Meta.Locked = &t })
		for _, n := range m.step1(r, x, 0) {
			if r.Out.Unknown || r.Out.Code != cOK {
				out = append(out, Next{st: st, done: true})
				return
			}
			_ = n
		}
	}
	open := func(f *fails) {
		right := !e.GetMeta().GetLocked()
		if op.K == "AuthChangeSecret" {
			right = right && m.same(e.GetSecret(), op.S2)
		} else {
			right = right && m.same(e.GetSecret(), op.S)
		}
		if !right {
			if len(m.step1(r, st, 0)) > 0 {
				out = append(out, Next{st: st.withF(f), done: true})
			}
			return
		}
		x := st
		if reset {
			x = st.editE(op.E, func(e *types.Entity) {
				var l []string
				for _, kv := range e.Meta.UntypedMeta {
					if kv != "fail2lock:RESET" {
						l = append(l, kv)
					}
				}
				e.Meta.UntypedMeta = l
			})
		}
		x = x.withF(st.F.with(r.Srv, op.E, nil))
		if op.K == "AuthChangeSecret" {
			out = append(out, Next{st: x, stage: 1})
			return
		}
		for range m.step1(r, st, 0) {
			out = append(out, Next{st: x, done: true})
			break
		}
	}
	if reset {
		open(st.F.with(r.Srv, op.E, nil))
		return out
	}
	if n+maybe >= allowed {
		locked()
	}
	if n < allowed {
		open(st.F.with(r.Srv, op.E, append(l[:len(l):len(l)], r.clk0)))
	}
	return out
}

func init() {
	kinds["F01"] = []kindW{{"f01", 1}}
	handlers["f01"] = Handler{Run: func(s *session) {
		s.m.f2l = &s.l.Cfg
		s.l.installPlugins()
		s.standard(true)
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.schedule()
		if r.p(0.2) {
			sc.Cfg.Backend = "bitcask"
		}
		sc.Cfg.Lifetime = "1000h"
		if r.p(0.6) {
			sc.Cfg.Fails = 1 + r.n(4)
		}
		if r.p(0.6) {
			sc.Cfg.Interval = []int64{200, 1000, 7200}[r.n(3)]
		}
		_, interval := sc.Cfg.fail2lock()
		g.ents = []string{"alice", "bob", "carol"}[:1+r.n(3)]
		if r.p(0.15) {
			g.ents[len(g.ents)-1] = "Alice"
		}
		g.groups = []string{"g1"}
		g.secrets = g.secrets[:2]
		g.umKeys = []string{"fail2lock", "fail2lock", "fail2loc"}
		g.vals = []string{"RESET", "RESET", "reset", "x"}
		g.nearS = 0.1
		g.world(0.9, W{"EntityUpdate": 1, "EntityUM": 1}, r.n(3))
		if r.p(0.5) {
			g.login()
		}
		g.rootP = 0.8
		w := W{"AuthEntity": 12, "AuthGetToken": 3, "AuthChangeSecret/self": 2, "AuthChangeSecret": 1, "EntityUM": 3, "EntityLock": 1, "EntityUnlock": 1, "EntityInfo": 1}
		if r.p(0.3) {
			w["EntityDestroy"], w["EntityCreate"] = 1, 2
		}
		sc.Phases = append(sc.Phases, &Phase{Restart: r.of("stop", "kill"), Plugins: []string{"fail2lock.treeplugin"}})
		kill := r.p(0.15)
		for i := 0; i < 2+r.n(4); i++ {
			ph := &Phase{Clients: g.clients(w, 1+r.n(3), 6)}
			if r.p(0.6) {
				ph.Wait = interval * int64(2*(1+r.n(3))) / 5
			}
			if kill {
				sc.Prof.P["P.kill"], sc.Prof.P["P.killafter"] = 0.03, 0.03
				ph.Faults = []string{"P.kill", "P.killafter"}
			}
			if r.p(0.15) {
				ph.Restart = r.of("stop", "kill")
				if r.p(0.4) {
					ph.Crash = r.logn(300)
				}
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}}
}
