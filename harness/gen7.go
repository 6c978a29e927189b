package main

import (
	"reflect"
	"strings"

	"github.com/golang/protobuf/proto"

	"verif.local/sim/simrt"
)

// rawGen fills messages with whatever the wire protocol permits.
type rawGen struct {
	r     *rng
	names []string
	miss  float64 // how often an optional field is missing
}

func (g *rawGen) str() string {
	r := g.r
	if r.p(0.6) {
		return g.names[r.n(len(g.names))]
	}
	if r.p(0.1) {
		return strings.Repeat(r.of("a", "/", "é", " ", "*", "(", ":"), r.logn(3000))
	}
	return r.of("", " ", ".", "..", "/", "a/b", "../x", "*", "?", "[", "\\", ":", "{", "}", "k{0}", "k:v", "\x00", "\n", "\"", "+", "-", "~", "^", "AND", "a AND", "(", "((a", "/[/", "/a{1,2/", "ID:", "ID:>3", "Name:/.*/", "a~9", "a^x", "+-a", "meta.GECOS:x", "*a", "?*", "ä", "\xff", "%", "$2a$04$", strings.Repeat("x", 73))
}

func (g *rawGen) num() int64 {
	return []int64{-2147483648, -2, -1, 0, 1, 2, 3, 7, 99, 2147483647}[g.r.n(10)]
}

func (g *rawGen) fill(v reflect.Value, depth int) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || strings.HasPrefix(f.Name, "XXX_") {
			continue
		}
		req := strings.Contains(f.Tag.Get("protobuf"), ",req,")
		if !req && g.r.p(g.miss) {
			continue
		}
		v.Field(i).Set(g.value(f.Type, depth))
	}
}

func (g *rawGen) value(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr:
		if t.Elem().Kind() == reflect.Struct && depth > 5 {
			return v
		}
		v.Set(reflect.New(t.Elem()))
		if t.Elem().Kind() == reflect.Struct {
			g.fill(v.Elem(), depth+1)
		} else {
			v.Elem().Set(g.value(t.Elem(), depth+1))
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(g.str()))
			break
		}
		n := g.r.n(4)
		s := reflect.MakeSlice(t, 0, n)
		for i := 0; i < n; i++ {
			s = reflect.Append(s, g.value(t.Elem(), depth+1))
		}
		v.Set(s)
	case reflect.String:
		v.SetString(g.str())
	case reflect.Bool:
		v.SetBool(g.r.p(0.5))
	case reflect.Int32, reflect.Int64:
		v.SetInt(g.num())
	}
	return v
}

var allKinds = []string{"EntityCreate", "EntityUpdate", "EntityInfo", "EntitySearch", "EntityUM", "EntityKVGet", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKeys",
	"EntityDestroy", "EntityLock", "EntityUnlock", "EntityGroups", "AuthEntity", "AuthGetToken", "AuthValidateToken", "AuthChangeSecret", "GroupCreate", "GroupUpdate", "GroupInfo",
	"GroupUM", "GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules", "GroupAddMember", "GroupDelMember", "GroupDestroy", "GroupMembers", "GroupSearch",
	"SystemCapabilities", "SystemPing", "SystemStatus"}

// raw builds a request of any kind with any content.
func (g *gen) raw(rg *rawGen, kind string) *Op {
	for {
		m := newReq(kind)
		rg.fill(reflect.ValueOf(m).Elem(), 0)
		b, err := proto.Marshal(m)
		if err != nil {
			continue
		}
		o := &Op{ID: g.next(), K: kind, Raw: append([]byte{}, b...)}
		switch {
		case g.r.p(0.7):
			o.Tok = "root"
		case g.r.p(0.8):
			o.Tok = g.pick(g.toks)
		case g.r.p(0.5):
			o.Tok = "bad:" + g.r.of("x", "a.b.c", "..", " ")
		}
		return o
	}
}

func init() {
	add := func(prop, name string, w int, h Handler) {
		handlers[name] = h
		kinds[prop] = append(kinds[prop], kindW{name, w})
	}

	// Whatever arrives, every request is answered, and the server goes
	// on.
	run := func(s *session) {
		l := s.l
		l.installPlugins()
		if !s.setup() {
			return
		}
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			if !s.clients(ph) {
				return
			}
			if ph.StopAt > 0 && !l.Srv.Dead {
				if l.Srv.Env.Get("signals") != nil && s.marks["stop-while-serving"] > 0 {
					o := l.W.RunUntil(func() bool { return l.Srv.Dead })
					if l.Srv.Panic != "" {
						s.fail("panic", "the server process died: %s", l.Srv.Panic)
						return
					}
					if o != simrt.OK {
						s.fail("wedge", "the server does not stop (%s): %s", o, l.W.Parked())
						return
					}
				}
			}
			if l.Srv.Dead && l.Srv.Exited && l.Srv.ExitCode != 0 {
				s.fail("exit", "the server ended with status %d", l.Srv.ExitCode)
				return
			}
			delete(s.marks, "stop-while-serving")
			if !s.restart(ph) {
				return
			}
			base := 10000 * (i + 1)
			n := len(s.hist)
			if !s.seq("probe", []*Op{
				{ID: base, K: "SystemStatus"}, {ID: base + 1, K: "SystemPing"}, {ID: base + 2, K: "EntityInfo", E: "root"}, {ID: base + 3, K: "EntitySearch", X: "*"}, {ID: base + 4, K: "GroupSearch", X: "*"},
				{ID: base + 5, K: "AuthGetToken", E: "root", S: "rootpw"}, {ID: base + 6, K: "EntityGroups", E: "alice"}, {ID: base + 7, K: "GroupMembers", G: "g1"}, {ID: base + 8, K: "GroupMembers", G: "ALL"}}) {
				return
			}
			for _, r := range s.hist[n:] {
				if r.Out.Unknown {
					s.fail("unanswered", "request #%d %s is not answered", r.Op.ID, r.Op.K)
					return
				}
				if strings.HasPrefix(r.Op.K, "System") && r.Out.Code != cOK {
					s.fail("status", "request #%d %s is answered with %s", r.Op.ID, r.Op.K, r.Out)
					return
				}
			}
			for _, r := range s.hist {
				if r.Out.Unknown && !r.Never && !r.Crash && !r.Call.Cut && r.Srv == l.nsrv {
					s.fail("unanswered", "request #%d %s is not answered", r.Op.ID, r.Op.K)
					return
				}
			}
		}
		if e := l.Stop(); e != "" {
			s.fail("wedge", "the server does not stop: %s", e)
		}
	}

	base := func(r *rng, sc *Scenario) *gen {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		if r.p(0.2) {
			sc.Cfg.Crypto = "bcrypt"
		}
		if r.p(0.25) {
			pool := []string{"null-a", "mark-b", "shell-d", "veto-e", "lock-g", "markauth-h"}
			for _, p := range pool {
				if r.p(0.35) {
					sc.Cfg.Plugins = append(sc.Cfg.Plugins, p+".treeplugin")
				}
			}
			if r.p(0.15) {
				sc.Cfg.Plugins = append(sc.Cfg.Plugins, "broken-x.treeplugin")
			}
		}
		g.world(0.8, W{"GroupUpdateRules": 5, "GroupAddMember": 4, "EntityKVAdd": 1, "GroupKVAdd": 1, "EntityUM": 1, "GroupUM": 1, "EntityKeys": 1, "SystemCapabilities": 2}, r.n(14))
		g.login()
		g.toks = append(g.toks, "root")
		return g
	}
	ending := func(r *rng, ph *Phase) {
		switch {
		case r.p(0.15):
			ph.StopAt = r.logn(600)
		case r.p(0.15):
			ph.Restart = r.of("stop", "kill", "settle")
		}
		if (ph.StopAt > 0 || ph.Restart != "") && r.p(0.15) {
			ph.RO = true
		}
	}

	add("C03", "c03raw", 3, Handler{Run: run, Gen: func(r *rng, sc *Scenario) {
		g := base(r, sc)
		rg := &rawGen{r: r, names: append(append([]string{"root", "ALL", "new"}, g.ents...), g.groups...), miss: []float64{0.02, 0.15, 0.5}[r.n(3)]}
		ks := allKinds
		if r.p(0.5) {
			ks = nil
			for i := 0; i < 2+r.n(4); i++ {
				ks = append(ks, r.of(allKinds...))
			}
		}
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{}
			for c := 0; c < 1+r.n(5); c++ {
				var ops []*Op
				for j := 0; j < 1+r.n(7); j++ {
					ops = append(ops, g.raw(rg, r.of(ks...)))
				}
				ph.Clients = append(ph.Clients, ops)
			}
			ending(r, ph)
			sc.Phases = append(sc.Phases, ph)
		}
	}})

	add("C03", "c03mix", 3, Handler{Run: run, Gen: func(r *rng, sc *Scenario) {
		g := base(r, sc)
		g.rootP = 0.8
		g.protectedData = r.p(0.3)
		w := W{}
		for _, k := range allKinds {
			w[k] = []int{0, 1, 1, 4}[r.n(4)]
		}
		w["EntityInfo"]++
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{Clients: g.clients(w, 2+r.n(7), 5)}
			if r.p(0.3) {
				// Everyone does the same.
				k := g.of(w).K
				ph.Clients = g.clients(W{k: 1}, 2+r.n(7), 4)
			}
			if len(sc.Cfg.Plugins) > 0 && r.p(0.3) {
				sc.Prof.P["P.kill"], sc.Prof.P["P.killafter"] = 0.05, 0.05
				ph.Faults = []string{"P.kill", "P.killafter"}
			}
			if r.p(0.15) {
				for _, k := range []string{"F.eio", "F.enospc", "F.short", "F.emfile"} {
					sc.Prof.P[k] = 0.02
					ph.Faults = append(ph.Faults, k)
				}
			}
			if r.p(0.15) {
				sc.Prof.P["N.delay"], sc.Prof.P["N.lost"] = 0.1, 0.1
				ph.Faults = append(ph.Faults, "N.delay", "N.lost")
			}
			ending(r, ph)
			sc.Phases = append(sc.Phases, ph)
		}
	}})

	// Rules that form knots, and everything that walks along them.
	add("C03", "c03rules", 2, Handler{Run: run, Gen: func(r *rng, sc *Scenario) {
		g := base(r, sc)
		g.groups = []string{"g1", "g2", "g3", "g4", "g5"}[:3+r.n(3)]
		for _, x := range g.groups {
			g.mk(&Op{K: "GroupCreate", G: x, N: np(-1)})
		}
		w := W{"GroupUpdateRules": 12, "GroupMembers": 3, "EntityGroups": 2, "GroupAddMember": 3, "GroupDelMember": 1, "GroupDestroy": 2, "GroupCreate": 2, "EntityDestroy": 1, "EntityCreate": 1, "AuthGetToken": 1, "SystemCapabilities": 1}
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{Clients: g.clients(w, 1+r.n(6), 7)}
			ending(r, ph)
			sc.Phases = append(sc.Phases, ph)
		}
	}})
}
