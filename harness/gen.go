package main

import (
	"fmt"
	"sort"

	types "github.com/netauth/protocol"
)

type kindW struct {
	name string
	w    int
}

// kinds lists the scenario kinds of every property.
var kinds = map[string][]kindW{
	"C01": {{"c01", 1}},
	"C02": {{"c02", 1}},
	"S01": {{"s01", 1}},
	"S02": {{"s02", 1}},
	"S03": {{"s03", 1}},
	"S06": {{"s06", 1}},
	"M01": {{"m01", 1}},
	"M02": {{"m02", 1}},
	"M03": {{"m03", 1}},
	"X01": {{"x01", 1}},
	"K01": {{"k01", 1}},
	"D01": {{"d01", 1}},
	"D02": {{"d02", 1}},
	"D03": {{"d03", 1}},
}

const rootBoot = "root:rootpw"

func standardRun(s *session) { s.standard(true) }

// wAll is every kind of request.
var wAll = W{"EntityCreate": 3, "EntityUpdate": 2, "EntityInfo": 2, "EntitySearch": 1, "EntityUM": 2, "EntityKVGet": 1, "EntityKVAdd": 2, "EntityKVDel": 1,
	"EntityKVReplace": 1, "EntityKeys": 2, "EntityDestroy": 2, "EntityLock": 1, "EntityUnlock": 1, "EntityGroups": 2, "AuthEntity": 2, "AuthGetToken": 1,
	"AuthValidateToken": 1, "AuthChangeSecret": 2, "GroupCreate": 3, "GroupUpdate": 1, "GroupInfo": 1, "GroupUM": 1, "GroupKVGet": 1, "GroupKVAdd": 1,
	"GroupKVDel": 1, "GroupKVReplace": 1, "GroupUpdateRules": 3, "GroupAddMember": 4, "GroupDelMember": 2, "GroupDestroy": 2, "GroupMembers": 2,
	"GroupSearch": 1, "SystemCapabilities": 2, "SystemPing": 1, "SystemStatus": 1}

// wWrite is every kind of change.
var wWrite = W{"EntityCreate": 3, "EntityUpdate": 2, "EntityUM": 2, "EntityKVAdd": 2, "EntityKVDel": 1, "EntityKVReplace": 1, "EntityKeys": 2,
	"EntityDestroy": 2, "EntityLock": 1, "EntityUnlock": 1, "AuthChangeSecret": 2, "GroupCreate": 3, "GroupUpdate": 1, "GroupUM": 1,
	"GroupKVAdd": 1, "GroupKVDel": 1, "GroupKVReplace": 1, "GroupUpdateRules": 3, "GroupAddMember": 4, "GroupDelMember": 2, "GroupDestroy": 1, "SystemCapabilities": 2}

func plus(ws ...W) W {
	o := W{}
	for _, w := range ws {
		for k, n := range w {
			o[k] += n
		}
	}
	return o
}

func init() {
	// Concurrent changes of a few shared records.
	handlers["c01"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		if r.p(0.1) {
			sc.Cfg.Log = "TRACE"
		}
		g.ents, g.groups = g.ents[:1+r.n(2)], g.groups[:1+r.n(2)]
		g.secrets = g.secrets[:2]
		w := plus(wAll)
		switch r.n(4) {
		case 0: // one record, different parts of it
			w = W{"EntityUpdate": 3, "EntityUM": 2, "EntityKVAdd": 2, "EntityKVReplace": 1, "EntityKVDel": 1, "EntityKeys": 2, "EntityLock": 2, "EntityUnlock": 1, "AuthChangeSecret": 2,
				"GroupAddMember": 2, "GroupDelMember": 1, "SystemCapabilities": 2, "AuthEntity": 3, "AuthGetToken": 1, "EntityInfo": 2, "EntityDestroy": 1, "EntityCreate": 1}
		case 1:
			w = W{"GroupUpdate": 3, "GroupUM": 2, "GroupKVAdd": 2, "GroupKVReplace": 1, "GroupKVDel": 1, "GroupUpdateRules": 2, "SystemCapabilities": 2, "GroupInfo": 2, "GroupDestroy": 1, "GroupCreate": 1}
		}
		if r.p(0.15) {
			sc.Cfg.Crypto = "bcrypt"
		}
		g.world(0.8, nil, 0)
		g.login()
		g.rootP = 0.9
		for i := 0; i < 1+r.n(2); i++ {
			ph := &Phase{Clients: g.clients(w, 2+r.n(3), 3)}
			if r.p(0.15) {
				ph.Restart = r.of("stop", "kill")
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}}

	// Creations, deletions and numbers.
	handlers["c02"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.ents, g.groups = g.ents[:2+r.n(2)], g.groups[:1+r.n(3)]
		if r.p(0.7) {
			g.ents, g.groups = []string{"a", "b", "c", "d", "e"}[:2+r.n(4)], []string{"g", "h", "i", "j"}[:1+r.n(4)]
		}
		g.nums = []int32{-1, -1, -1, -1, -1, -1, 3, 5, 0, -7}
		if r.p(0.1) {
			g.nums = append(g.nums, 2147483646, 2147483647)
		}
		w := W{"EntityCreate": 8, "EntityDestroy": 3, "GroupCreate": 6, "GroupDestroy": 2, "EntityInfo": 1, "EntityLock": 1, "EntityUpdate": 1, "GroupUpdate": 1, "AuthChangeSecret": 1}
		g.world(0.4, nil, 0)
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{Clients: g.clients(w, 2+r.n(3), 3)}
			switch r.n(5) {
			case 0:
				ph.Restart = "stop"
			case 1:
				ph.Restart = r.of("kill", "power")
				if r.p(0.7) {
					ph.Crash = r.logn(400)
				}
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}}

	// Authentication against administrative changes.
	handlers["s01"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.ents, g.groups = g.ents[:1+r.n(2)], g.groups[:1]
		g.secrets = g.secrets[:2+r.n(2)]
		if r.p(0.2) {
			sc.Cfg.Crypto = "bcrypt"
		}
		w := W{"AuthEntity": 8, "AuthGetToken": 4, "EntityLock": 4, "EntityUnlock": 2, "AuthChangeSecret": 3, "AuthChangeSecret/self": 4, "EntityDestroy": 2, "EntityCreate": 2,
			"EntityUpdate": 2, "EntityUM": 1, "EntityInfo": 1, "GroupAddMember": 1, "SystemCapabilities": 1}
		g.world(1, nil, 0)
		g.login()
		for i := 0; i < 1+r.n(2); i++ {
			ph := &Phase{Clients: g.clients(w, 2+r.n(3), 3)}
			switch r.n(5) {
			case 0:
				ph.Restart = "stop"
			case 1:
				ph.Restart = r.of("kill", "power")
				if r.p(0.7) {
					ph.Crash = r.logn(300)
				}
			}
			sc.Phases = append(sc.Phases, ph)
		}
		if r.p(0.15) {
			// A change meets the end of the entity and the next one of
			// that name.
			e := g.ents[0]
			n, u := g.secrets[len(g.secrets)-1], g.tok()
			chg := &Op{ID: g.next(), K: "AuthChangeSecret", E: e, S: n, S2: g.secrets[0], Tok: "t:" + e}
			sc.Phases = []*Phase{{Clients: [][]*Op{
				{chg, {ID: g.next(), K: "AuthEntity", E: e, S: n}},
				{{ID: g.next(), K: "EntityDestroy", E: e, Tok: "root"}, {ID: g.next(), K: "EntityCreate", E: e, S: g.secrets[1], N: np(-1), Tok: "root"}, {ID: g.next(), K: "AuthEntity", E: e, S: g.secrets[1]}},
			}}}
			if r.p(0.3) {
				sc.Phases[0].Clients = append(sc.Phases[0].Clients, []*Op{{ID: g.next(), K: "EntityLock", E: e, Tok: u}})
			}
			sc.Prof.Switch = []float64{0.05, 0.2, 0.5}[r.n(3)]
		}
		// Every secret is tried at the end.
		ph := &Phase{Note: "probe"}
		var ops []*Op
		for _, e := range g.ents {
			for _, s := range g.secrets {
				ops = append(ops, &Op{ID: g.next(), K: "AuthEntity", E: e, S: s})
			}
		}
		ph.Clients = [][]*Op{ops}
		sc.Phases = append(sc.Phases, ph)
	}}

	// Authority of all kinds.
	handlers["s02"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.world(0.9, W{"SystemCapabilities": 5, "GroupAddMember": 3, "GroupUpdateRules": 1, "GroupUpdate": 2, "EntityKVAdd": 1, "GroupKVAdd": 1, "EntityUM": 1, "EntityKeys": 1}, 4+r.n(8))
		g.login()
		g.toks = append(g.toks, "", "", "none", "bad:x.y.z", "bad:", "mut:sig:root", "mut:claims:root", "mut:alg:root", "mut:foreign:root", "mut:trunc:root", "mut:hs:root")
		g.rootP = 0.15
		if r.p(0.08) {
			g.toks = append(g.toks, "t:old")
			g.mk(&Op{K: "AuthGetToken", E: "root", S: "rootpw", Save: "t:old"})
			sc.Phases = append(sc.Phases, &Phase{Clients: g.clients(plus(wWrite, W{"AuthValidateToken": 2}), 1, 2), Clock: int64(r.n(1300))})
		}
		nc := 1
		if r.p(0.4) {
			nc = 2 + r.n(2)
		}
		for i := 0; i < 1+r.n(2); i++ {
			ph := &Phase{Clients: g.clients(plus(wWrite, W{"AuthValidateToken": 2, "AuthGetToken": 2}), nc, 5)}
			if r.p(0.1) {
				ph.Restart = r.of("stop", "kill")
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}}

	// Delegated management and self service.
	handlers["s03"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.groups = g.moreGroups(4)
		g.world(1, W{"GroupAddMember": 5, "GroupUpdateRules": 3, "GroupUpdate": 5, "GroupDelMember": 1}, 5+r.n(10))
		g.login()
		g.rootP = 0.12
		w := W{"GroupUpdate": 4, "GroupUM": 3, "GroupUpdateRules": 4, "GroupAddMember": 4, "GroupDelMember": 3, "GroupKVAdd": 1, "GroupDestroy": 1, "EntityKeys": 3, "EntityUpdate": 1,
			"AuthChangeSecret/self": 3, "AuthChangeSecret": 1, "GroupInfo": 1, "EntityLock": 1}
		if r.p(0.35) {
			g.authority()
		}
		nc := 1
		if r.p(0.3) {
			nc = 2
		}
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{Clients: g.clients(w, nc, 5)}
			if r.p(0.15) {
				ph.Restart = r.of("stop", "kill")
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}}

	// Capabilities in tokens.
	handlers["s06"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.secrets = g.secrets[:1]
		w := W{"SystemCapabilities": 6, "GroupAddMember": 4, "GroupDelMember": 3, "GroupUpdateRules": 4, "GroupDestroy": 1, "GroupCreate": 1, "EntityDestroy": 1, "EntityCreate": 1, "AuthGetToken": 5}
		g.world(0.95, W{"SystemCapabilities": 5, "GroupAddMember": 4, "GroupUpdateRules": 3}, 2+r.n(8))
		if r.p(0.15) {
			// One holder of many capabilities.
			for _, c := range someOf(r, allCaps, 4+r.n(7)) {
				o := &Op{K: "SystemCapabilities", Act: "ADD", Cap: c}
				if r.p(0.7) {
					o.G = g.groups[0]
				} else {
					o.E = g.ents[0]
				}
				g.mk(o)
			}
			g.mk(&Op{K: "GroupAddMember", E: g.ents[0], Gs: []string{g.groups[0]}})
		}
		if r.p(0.15) {
			g.groups = g.moreGroups(5 + r.n(4))
			for _, x := range g.groups[len(g.groups)-4:] {
				g.mk(&Op{K: "GroupCreate", G: x, N: np(-1)})
			}
			g.shape()
		}
		probe := func() *Phase {
			var ops []*Op
			for _, e := range g.ents {
				ops = append(ops, &Op{ID: g.next(), K: "AuthGetToken", E: e, S: g.secrets[0], Save: "t:" + e})
			}
			return &Phase{Note: "probe", Clients: [][]*Op{ops}}
		}
		for i := 0; i < 1+r.n(3); i++ {
			nc := 1
			if r.p(0.4) {
				nc = 2 + r.n(2)
			}
			ph := &Phase{Clients: g.clients(w, nc, 4)}
			if r.p(0.3) {
				ph.Restart = r.of("stop", "kill", "settle")
			}
			sc.Phases = append(sc.Phases, ph, probe())
		}
		if r.p(0.5) {
			// Requests with whatever tokens were issued.
			g.toks = []string{"t:alice", "t:bob", "t:carol"}
			g.rootP = 0
			sc.Phases = append(sc.Phases, &Phase{Clients: g.clients(wWrite, 1, 6)})
		}
	}}

	member := func(name string, conc float64, restart float64, hist int) {
		handlers[name] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
			g := newGen(r, sc)
			g.backend()
			g.schedule()
			g.groups = g.moreGroups(2 + r.n(4))
			shape := r.p(0.3)
			if shape {
				g.groups = g.moreGroups(5 + r.n(7))
			}
			w := W{"GroupAddMember": 6, "GroupDelMember": 3, "GroupUpdateRules": 8, "GroupDestroy": 1, "GroupCreate": 2, "EntityDestroy": 1, "EntityCreate": 1, "EntityGroups": 1, "GroupMembers": 1, "GroupUpdate": 1, "EntityUpdate": 1}
			g.world(0.9, W{"GroupAddMember": 6, "GroupUpdateRules": 6}, 2+r.n(hist))
			if shape {
				g.shape()
			}
			for i := 0; i < 1+r.n(3); i++ {
				nc := 1
				if r.p(conc) {
					nc = 2 + r.n(3)
				}
				ph := &Phase{Clients: g.clients(w, nc, 4)}
				if r.p(restart) {
					ph.Restart = r.of("stop", "kill", "settle")
				}
				sc.Phases = append(sc.Phases, ph)
			}
		}}
	}
	member("m01", 0.5, 0.15, 12)

	// Restarts.
	handlers["m02"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.groups = g.moreGroups(3 + r.n(3))
		g.searchE, g.searchG = searches(g)
		w := plus(wWrite, W{"GroupUpdateRules": 6, "GroupAddMember": 6})
		g.world(0.9, plus(W{"GroupAddMember": 6, "GroupUpdateRules": 6, "EntityUpdate": 2, "GroupUpdate": 2, "SystemCapabilities": 2}), 4+r.n(12))
		if r.p(0.2) {
			g.groups = g.moreGroups(5 + r.n(5))
			for _, x := range g.groups[3:] {
				g.mk(&Op{K: "GroupCreate", G: x, N: np(-1)})
			}
			g.shape()
		}
		g.login()
		var probe []*Op
		for _, e := range g.ents {
			probe = append(probe, &Op{ID: g.next(), K: "AuthGetToken", E: e, S: g.secrets[0]})
			probe = append(probe, &Op{ID: g.next(), K: "AuthValidateToken", Tok: "t:" + e})
		}
		for i := 0; i < 3; i++ {
			probe = append(probe, g.op("EntitySearch"), g.op("GroupSearch"))
		}
		cp := func() [][]*Op {
			var l []*Op
			for _, o := range probe {
				c := *o
				c.ID = g.next()
				l = append(l, &c)
			}
			return [][]*Op{l}
		}
		for i := 0; i < 1+r.n(2); i++ {
			ph := &Phase{Clients: g.clients(w, 1+r.n(2), 4)}
			sc.Phases = append(sc.Phases, ph, &Phase{Note: "probe", Clients: cp(), Restart: r.of("stop", "kill", "settle")}, &Phase{Note: "probe", Clients: cp()})
		}
		startFaults(r, sc, 0.3)
	}}

	// Rules.
	handlers["m03"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		if r.p(0.3) {
			sc.Prof.Switch, sc.Prof.Stall = 0.3, 0.2
		}
		g.groups = g.moreGroups(2 + r.n(4))
		if r.p(0.5) {
			g.groups = []string{"g", "gg", "g1", "G", "og"}[:2+r.n(4)]
		}
		g.ents = g.ents[:1]
		w := W{"GroupUpdateRules": 12, "GroupDestroy": 1, "GroupCreate": 1, "GroupInfo": 1, "GroupUpdate": 1}
		shape := r.p(0.25)
		if shape {
			g.groups = g.moreGroups(4 + r.n(6))
		}
		g.world(0.95, W{"GroupUpdateRules": 1}, r.n(4))
		if shape {
			g.shape()
		}
		for i := 0; i < 1+r.n(2); i++ {
			nc := 1
			if r.p(0.6) {
				nc = 2 + r.n(3)
			}
			ph := &Phase{Clients: g.clients(w, nc, 4)}
			if r.p(0.1) {
				ph.Restart = r.of("stop", "kill")
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}}

	// Search.
	handlers["x01"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.searchE, g.searchG = searches(g)
		w := W{"EntityCreate": 4, "EntityUpdate": 5, "EntityDestroy": 3, "GroupCreate": 4, "GroupUpdate": 5, "GroupDestroy": 3, "EntityLock": 1, "EntityUM": 1, "GroupUM": 1,
			"EntityKeys": 1, "EntitySearch": 3, "GroupSearch": 3, "AuthEntity": 1, "GroupAddMember": 1}
		g.world(0.7, W{"EntityUpdate": 3, "GroupUpdate": 3}, r.n(8))
		if r.p(0.01) {
			// Very many records with something in common.
			dn := g.pick(g.dns)
			for i := 0; i < 101+r.n(30); i++ {
				if r.p(0.5) {
					g.mk(&Op{K: "GroupCreate", G: fmt.Sprintf("x%03d", i), DN: dn, N: np(int32(1000 + i))})
				} else {
					e := fmt.Sprintf("x%03d", i)
					g.mk(&Op{K: "EntityCreate", E: e, S: "x", N: np(int32(1000 + i))}, &Op{K: "EntityUpdate", E: e, Ent: &types.Entity{Meta: &types.EntityMeta{DisplayName: sp(dn)}}})
				}
			}
			g.searchE = append(g.searchE, "*|", "*|", "*|", "*|")
			g.searchG = append(g.searchG, "*|", "*|", "*|", "*|")
		}
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{Clients: g.clients(w, 1+r.n(3), 3)}
			if r.p(0.25) {
				ph.Restart = r.of("stop", "kill", "settle")
			}
			probe := &Phase{Note: "probe"}
			var ops []*Op
			for j := 0; j < 4; j++ {
				ops = append(ops, g.op("EntitySearch"), g.op("GroupSearch"))
			}
			probe.Clients = [][]*Op{ops}
			sc.Phases = append(sc.Phases, ph, probe)
		}
		startFaults(r, sc, 0.2)
	}}

	// Attached data.
	handlers["k01"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.ents, g.groups = g.ents[:1+r.n(2)], g.groups[:1+r.n(2)]
		if r.p(0.3) {
			g.ents, g.groups = []string{"alice", "alic"}[:1+r.n(2)], []string{"g1", "alice"}[:1+r.n(2)]
		}
		g.bulk = 0
		w := W{"EntityUM": 6, "EntityUM/R": 2, "GroupUM": 5, "GroupUM/R": 2, "EntityKVGet": 2, "EntityKVAdd": 5, "EntityKVDel": 3, "EntityKVReplace": 3, "EntityKeys": 7,
			"GroupKVGet": 2, "GroupKVAdd": 4, "GroupKVDel": 3, "GroupKVReplace": 3, "EntityUpdate": 1, "GroupUpdate": 1, "EntityInfo": 1, "GroupInfo": 1}
		switch r.n(5) {
		case 0:
			w = W{"EntityUM": 6, "EntityUM/R": 2, "GroupUM": 5, "GroupUM/R": 2}
			if r.p(0.5) {
				g.umKeys = someOf(r, []string{"k", "k{0}", "k{1}", "k{}", "k{a}", "k{1}x", "{1}k", "k{1}{2}", "k{12}", "k{-1}", "k{1,2}", "k{ 1}", "k{1", "k1}", "kx", "K{1}"}, 4)
			}
		case 1:
			w = W{"EntityKeys": 7, "EntityInfo": 1}
		case 2:
			w = W{"EntityKVGet": 2, "EntityKVAdd": 5, "EntityKVDel": 3, "EntityKVReplace": 3, "GroupKVGet": 2, "GroupKVAdd": 4, "GroupKVDel": 3, "GroupKVReplace": 3}
		}
		g.world(1, nil, 0)
		if r.p(0.2) {
			g.manyOf(5 + r.n(3))
		}
		for i := 0; i < 1+r.n(2); i++ {
			nc, no := 1, 10
			if r.p(0.4) {
				nc, no = 2+r.n(2), 4
			}
			ph := &Phase{Clients: g.clients(w, nc, no)}
			if r.p(0.15) {
				ph.Restart = r.of("stop", "kill")
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}}

	// Crashes.
	crash := func(name string, mid, start float64) {
		handlers[name] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
			g := newGen(r, sc)
			g.backend()
			g.schedule()
			// The bitcask library relies on fsync making a new
			// file permanent along with its contents.
			sc.Cfg.Disk = r.of("", "strict", "strict", "relaxed")
			if sc.Cfg.Backend == "bitcask" && sc.Cfg.Disk == "strict" {
				sc.Cfg.Disk = "relaxed"
			}
			g.ents, g.groups = g.ents[:1+r.n(3)], g.groups[:1+r.n(3)]
			g.world(0.5, nil, 0)
			if r.p(0.04) {
				g.heavy()
			}
			for i := 0; i < 1+r.n(3); i++ {
				w := wWrite
				if r.p(0.3) {
					w = W{"EntityCreate": 2, "EntityDestroy": 2, "GroupCreate": 2, "GroupDestroy": 2, "EntityLock": 1, "GroupUpdate": 1, "AuthChangeSecret": 1}
				}
				ph := &Phase{Clients: g.clients(w, 1+r.n(3), 4), Restart: r.of("kill", "power", "power", "power")}
				if r.p(mid) {
					ph.Crash = r.logn(500)
					if r.p(0.5) {
						ph.Crash = 1 + r.n(150)
					}
				}
				if r.p(start) {
					ph.CrashStart = r.logn(400)
				}
				sc.Phases = append(sc.Phases, ph)
			}
		}}
	}
	crash("d01", 0.5, 0.1)
	crash("d02", 0.9, 0.3)

	// Device faults.
	handlers["d03"] = Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.ents, g.groups = g.ents[:1+r.n(3)], g.groups[:1+r.n(3)]
		g.world(0.7, W{"GroupAddMember": 2, "SystemCapabilities": 2, "GroupUpdateRules": 1}, r.n(10))
		g.login()
		if r.p(0.02) {
			g.heavy()
		}
		g.rootP = 0.9
		f := []string{"F.eio", "F.enospc", "F.emfile", "F.short"}
		on := sc.Cfg.backend() == "filesystem" && r.p(0.5)
		for i := 0; i < 1+r.n(2); i++ {
			w := wAll
			if r.p(0.4) {
				w = g.focus()
			}
			ph := &Phase{Clients: g.clients(w, 1+r.n(3), 4)}
			for _, k := range f {
				if r.p(0.5) {
					ph.Faults = append(ph.Faults, k)
					sc.Prof.P[k] = []float64{0.01, 0.04, 0.15}[r.n(3)]
				}
			}
			if on {
				ph.FaultOn = r.of("/groups", "/entities", "/groups/"+g.pick(g.groups), "/entities/"+g.pick(g.ents), "/groups/"+g.pick(g.groups), "/entities/"+g.pick(g.ents))
				for _, k := range f {
					if sc.Prof.P[k] > 0 {
						sc.Prof.P[k] = []float64{0.05, 0.15, 0.4}[r.n(3)]
					}
				}
			}
			if r.p(0.3) {
				ph.Restart = r.of("stop", "kill", "settle")
				ph.FaultStart = r.p(0.7)
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}}
}

// heavy makes some records large, and has enough written that the store
// has to use several files.
func (g *gen) heavy() {
	r := g.r
	e, gr := g.ents[0], g.groups[0]
	g.mk(&Op{K: "EntityCreate", E: e, S: g.secrets[0], N: np(-1)}, &Op{K: "GroupCreate", G: gr, N: np(-1)})
	n, rep := 0, 30000+r.n(60000)
	for n < 2*(500000+r.n(700000)) {
		o := &Op{K: "EntityUM", E: e, Act: "UPSERT", Key: r.of("big", "big2"), Val: r.of("v", "w"), Rep: rep}
		if r.p(0.3) {
			o.K, o.E, o.G = "GroupUM", "", gr
		}
		g.mk(o)
		n += 2 * rep
	}
}

// focus is a mixture in which one kind of request dominates.
func (g *gen) focus() W {
	r := g.r
	var ks []string
	for k := range wAll {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	k := ks[r.n(len(ks))]
	if r.p(0.25) {
		k = r.of("EntityCreate", "GroupCreate")
		for i := 0; i < 4; i++ {
			g.ents = append(g.ents, fmt.Sprintf("n%d", i))
			g.groups = append(g.groups, fmt.Sprintf("n%d", i))
		}
		g.ents, g.groups = uniq(g.ents, 99), uniq(g.groups, 99)
	}
	if r.p(0.2) {
		// Tokens whose capabilities come from several places.
		k = "AuthGetToken"
		g.secrets = g.secrets[:1]
		for _, e := range g.ents {
			g.mk(&Op{K: "AuthChangeSecret", E: e, S: g.secrets[0]})
		}
		for _, x := range g.groups {
			g.mk(&Op{K: "SystemCapabilities", Act: "ADD", G: x, Cap: g.pick(g.caps)})
		}
		for _, e := range g.ents {
			g.mk(&Op{K: "SystemCapabilities", Act: "ADD", E: e, Cap: g.pick(g.caps)}, &Op{K: "GroupAddMember", E: e, Gs: []string{g.group()}})
		}
	}
	n := 0
	for _, x := range wAll {
		n += x
	}
	return plus(wAll, W{k: n * 2})
}

// startFaults has the device fail while the server starts after some of
// the phases.  Either it refuses to start or it serves what is stored.
func startFaults(r *rng, sc *Scenario, p float64) {
	for _, ph := range sc.Phases {
		if ph.Restart == "" || !r.p(p) {
			continue
		}
		ph.FaultStart = true
		for _, k := range []string{"F.eio", "F.emfile", "F.short"} {
			if r.p(0.6) {
				sc.Prof.P[k] = []float64{0.005, 0.02, 0.1}[r.n(3)]
			}
		}
	}
}
