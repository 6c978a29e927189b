package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	types "github.com/netauth/protocol"
)

func (s *session) lifetime() int64 {
	lt := s.sc.Cfg.Lifetime
	if lt == "" {
		lt = "10m"
	}
	d, err := time.ParseDuration(lt)
	if err != nil {
		panic(err)
	}
	return int64(d / time.Second)
}

// checkTokens verifies what tokens say about their time and holder.
func (s *session) checkTokens() {
	lt := s.lifetime()
	for _, r := range s.hist {
		t := r.New
		if t == nil || r.Call.Cut {
			continue
		}
		switch {
		case !t.OK:
			s.fail("token", "request #%d was answered with something that is no token: %q", r.Op.ID, t.Str)
		case t.E != r.Op.E:
			s.fail("token", "request #%d by %q was answered with a token of %q", r.Op.ID, r.Op.E, t.E)
		case t.Nbf < r.clk0 || t.Nbf > r.clk1:
			s.fail("token", "request #%d: token issued between %d and %d is valid from %d", r.Op.ID, r.clk0, r.clk1, t.Nbf)
		case t.Exp != t.Nbf+lt:
			s.fail("token", "request #%d: token with a lifetime of %d s instead of %d s", r.Op.ID, t.Exp-t.Nbf, lt)
		}
	}
}

var hashed = regexp.MustCompile(`\$2[a-z]?\$[0-9]{2}\$`)

// secretsIn looks for secrets in what was sent or stored.
func (s *session) secretsIn(b []byte, hashes bool) string {
	if hashes {
		if m := hashed.Find(b); m != nil {
			return "a secured secret " + string(m)
		}
	}
	for _, x := range s.sc.List {
		if bytes.Contains(b, []byte(x)) {
			return "the secret " + x
		}
	}
	return ""
}

func (s *session) checkSent() {
	for _, r := range s.hist {
		if r.reply == nil {
			continue
		}
		t := r.Out.Resp + "\n" + r.Out.Msg
		if r.New != nil {
			t += tokenText(r.New.Str)
		}
		if x := s.secretsIn([]byte(t), true); x != "" {
			s.fail("leak", "the answer to #%d %s contains %s: %.300s", r.Op.ID, r.Op, x, t)
		}
	}
}

func (s *session) checkStored() {
	for _, e := range s.l.FS.Dump("/") {
		if x := s.secretsIn([]byte(e.Data), false); x != "" {
			s.fail("leak", "the file %s contains %s", e.Path, x)
		}
	}
	if x := s.secretsIn([]byte(s.l.Out.String()), true); x != "" {
		s.fail("leak", "the server prints %s", x)
	}
}

func (s *session) checkLog() {
	for _, t := range strings.Split(s.l.Log.String(), "\n") {
		if x := s.secretsIn([]byte(t), true); x != "" {
			s.fail("leak", "the log contains %s: %.300s", x, t)
			return
		}
	}
}

// stored is what the backend keeps, for comparison.
func (s *session) stored() string {
	m := s.l.records()
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q %x\n", k, m[k])
	}
	return b.String()
}

// records reads the records from the disk, independently of the code
// that wrote them.
func (l *Lab) records() map[string]string { return l.recordsOf("") }

// recordsOf is the same for one backend only, or for all of them.
func (l *Lab) recordsOf(backend string) map[string]string {
	m := map[string]string{}
	es := l.FS.Dump(home)
	sort.Slice(es, func(i, j int) bool { return es[i].Path < es[j].Path })
	for _, e := range es {
		switch {
		case e.Dir:
		case backend == "bitcask" && !strings.HasPrefix(e.Path, home+"/bc/"):
		case backend == "filesystem" && !strings.HasPrefix(e.Path, home+"/kv/"):
		case strings.HasPrefix(e.Path, home+"/kv/entities/"), strings.HasPrefix(e.Path, home+"/kv/groups/"):
			// Others are what an interrupted write left behind.
			m[e.Path[len(home)+3:]] = e.Data
		case strings.HasPrefix(e.Path, home+"/bc/") && strings.HasSuffix(e.Path, ".data"):
			d := e.Data
			for len(d) >= 12 {
				k := int(binary.BigEndian.Uint32([]byte(d)))
				v := int(binary.BigEndian.Uint64([]byte(d[4:])))
				n := 12 + k + v + 4
				if k < 0 || v < 0 || n > len(d) {
					break
				}
				if key := d[12 : 12+k]; v == 0 {
					delete(m, key)
				} else {
					m[key] = d[12+k : 12+k+v]
				}
				d = d[n:]
			}
		}
	}
	return m
}

func init() {
	add := func(prop, name string, h Handler) {
		handlers[name] = h
		kinds[prop] = append(kinds[prop], kindW{name, 1})
	}

	// Updates that carry more than descriptive data.
	add("S04", "s04", Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.world(0.9, W{"SystemCapabilities": 2, "GroupAddMember": 3, "GroupUpdateRules": 2, "EntityKeys": 2, "EntityKVAdd": 2, "EntityUM": 1, "GroupUM": 1, "GroupKVAdd": 1, "EntityLock": 1, "GroupUpdate": 1}, 4+r.n(8))
		g.login()
		g.protectedData = true
		g.rootP = 0.85
		w := W{"EntityUpdate": 10, "GroupUpdate": 8, "EntityUM": 2, "GroupUM": 2}
		if r.p(0.4) {
			w = plus(w, W{"EntityLock": 1, "EntityUnlock": 1, "GroupAddMember": 1, "SystemCapabilities": 1, "EntityKeys": 1, "AuthChangeSecret": 1, "EntityKVAdd": 1, "GroupUpdateRules": 1})
		}
		probe := func() *Phase {
			var ops []*Op
			for _, e := range g.ents {
				for _, x := range append([]string{"smuggled", ""}, g.secrets...) {
					ops = append(ops, &Op{ID: g.next(), K: "AuthEntity", E: e, S: x})
				}
				ops = append(ops, &Op{ID: g.next(), K: "AuthGetToken", E: e, S: g.secrets[0]})
			}
			return &Phase{Note: "probe", Clients: [][]*Op{ops}}
		}
		for i := 0; i < 1+r.n(2); i++ {
			nc := 1
			if r.p(0.3) {
				nc = 2
			}
			ph := &Phase{Clients: g.clients(w, nc, 5)}
			for _, c := range ph.Clients {
				for _, o := range c {
					if o.K == "EntityUpdate" && r.p(0.2) {
						o.Alt = g.ent()
					}
				}
			}
			if r.p(0.2) {
				ph.Restart = r.of("stop", "kill", "settle")
			}
			sc.Phases = append(sc.Phases, ph, probe())
		}
	}})

	// Validity of tokens in time.
	add("S05", "s05", Handler{Run: func(s *session) {
		s.standard(true)
		s.checkTokens()
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		sc.Cfg.Lifetime = r.of("1s", "30s", "10m", "10m", "1h", "24h")
		lt := map[string]int64{"1s": 1, "30s": 30, "10m": 600, "1h": 3600, "24h": 86400}[sc.Cfg.Lifetime]
		g.ents, g.groups = g.ents[:1+r.n(2)], g.groups[:1+r.n(2)]
		g.secrets = g.secrets[:1]
		// With a short lifetime set-up takes no simulated time.
		g.world(1, W{"SystemCapabilities": 3, "GroupAddMember": 1}, r.n(4))
		g.login()
		var slots []string
		for _, b := range append([]string{"root"}, g.toks...) {
			slots = append(slots, b, b, b)
			for _, m := range []string{"sig", "claims", "exp", "ent", "alg", "trunc", "foreign", "hs"} {
				if r.p(0.4) {
					slots = append(slots, "mut:"+m+":"+b)
				}
			}
		}
		g.toks = append(slots, "bad:x", "bad:a.b.c", "bad:..")
		g.rootP = 0.15
		w := W{"AuthValidateToken": 10, "AuthGetToken": 3, "EntityLock": 1, "EntityUpdate": 2, "EntityCreate": 1, "EntityKeys": 1, "AuthChangeSecret/self": 1, "GroupUpdate": 1, "SystemCapabilities": 1}
		jump := func() int64 {
			switch r.n(7) {
			case 0:
				return lt
			case 1:
				return lt + int64(r.n(3)) - 1
			case 2:
				return -lt - int64(r.n(3)) + 1
			case 3:
				return int64(r.n(int(2*lt) + 2))
			case 4:
				return -int64(r.n(int(2*lt) + 2))
			case 5:
				return int64(r.n(400 * 86400))
			}
			return 0
		}
		for i := 0; i < 2+r.n(4); i++ {
			ph := &Phase{Clients: g.clients(w, 1+r.n(2), 5), Clock: jump()}
			if r.p(0.3) {
				// Time also passes while requests are on their way.
				for _, c := range ph.Clients {
					for _, o := range c {
						if r.p(0.3) {
							o.At = int64(r.n(int(2*lt)*1000)) * 1e6
						}
					}
				}
			}
			if r.p(0.3) {
				ph.Restart = r.of("stop", "kill", "power", "settle")
				ph.NewKeys = r.p(0.2)
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}})

	// A read-only server.
	add("S07", "s07", Handler{Run: func(s *session) {
		if !s.setup() {
			return
		}
		ro := false
		was := ""
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			if !s.clients(ph) {
				return
			}
			if ro && s.stored() != was {
				s.fail("state", "the stored state of a read-only server changed:\n%s---\n%s", was, s.stored())
				return
			}
			if !s.restart(ph) {
				return
			}
			ro = s.l.Cfg.ReadOnly
			if !s.seq(fmt.Sprintf("dump%d", i), s.dumpOps(10000*(i+1), true)) {
				return
			}
			was = s.stored()
		}
		for _, r := range s.hist {
			if r.RO && !r.Out.Unknown && r.Op.mutating() && r.Op.K != "Bootstrap" && r.Out.Code != cRO {
				s.fail("answer", "a read-only server answers #%d %s with %s", r.Op.ID, r.Op, r.Out)
			}
		}
		s.judge()
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		g.world(0.8, plus(wWrite), r.n(12))
		g.rootP = 0.6
		if r.p(0.5) {
			// Groups managed by others.
			m := g.group()
			g.mk(&Op{K: "GroupCreate", G: m, N: np(-1)})
			for _, x := range g.groups {
				if r.p(0.6) {
					g.mk(&Op{K: "GroupDestroy", G: x}, &Op{K: "GroupCreate", G: x, MB: m, N: np(-1)})
				}
			}
			e := g.ent()
			g.mk(&Op{K: "EntityCreate", E: e, S: g.secrets[0], N: np(-1)}, &Op{K: "GroupAddMember", E: e, Gs: []string{m}})
			g.rootP = 0.3
		}
		g.login()
		g.toks = append(g.toks, "", "bad:x", "mut:sig:root")
		sc.Phases = append(sc.Phases, &Phase{Clients: g.clients(wWrite, 1, 3), Restart: r.of("stop", "kill", "power"), RO: true})
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{Clients: g.clients(plus(wAll, wWrite, W{"AuthEntity": 3, "AuthGetToken": 3}), 1+r.n(3), 5)}
			if r.p(0.5) {
				ph.Crash = r.logn(300)
			}
			ph.Restart = r.of("", "stop", "kill", "power")
			if r.p(0.25) {
				ph.RW = true
				ph.Restart = "kill"
			} else {
				ph.RO = true
			}
			sc.Phases = append(sc.Phases, ph)
			if ph.RW {
				sc.Phases = append(sc.Phases, &Phase{Clients: g.clients(wWrite, 1, 3), Restart: "kill", RO: true})
			}
		}
		sc.Phases = append(sc.Phases, &Phase{Clients: g.clients(wAll, 1, 4)})
	}})

	// Secrets.
	add("S08", "s08", Handler{Run: func(s *session) {
		if !s.setup() {
			return
		}
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			if !s.clients(ph) {
				return
			}
			if s.sc.Cfg.Crypto == "bcrypt" {
				s.checkStored()
			}
			if !s.restart(ph) {
				return
			}
			if !s.seq(fmt.Sprintf("dump%d", i), s.dumpOps(10000*(i+1), true)) {
				return
			}
		}
		s.checkSent()
		s.checkLog()
		if s.sc.Cfg.Crypto == "bcrypt" {
			s.checkStored()
		}
		s.judge()
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		if r.p(0.75) {
			sc.Cfg.Crypto = "bcrypt"
		}
		sc.Cfg.Log = r.of("TRACE", "DEBUG", "INFO", "WARN")
		g.secrets = []string{"pL4in-one", "pL4in-two", "pL4in-three", "pL4in-" + strings.Repeat("x", 66), "pL4in-" + strings.Repeat("y", 70)}[:2+r.n(4)]
		if r.p(0.4) {
			// Ones that look like something else.
			g.secrets = someOf(r, []string{"$2a$04$pL4in-abcdefghijklmnopqrst", "$2a$10$pL4in-", "$2b$12$pL4in-vwxyz", "$2pL4in-", "{bcrypt}pL4in-", " pL4in-", "pL4in-\n", "<REDACTED>pL4in-", "$6$pL4in-$x", "PL4IN:pL4in-", "pL4in-:x"}, 4)
		}
		sc.List = append([]string{"pL4in-", "smuggled", "rootpw"}, g.secrets...)
		g.searchE, g.searchG = searches(g)
		g.world(0.8, W{"GroupAddMember": 4, "EntityUpdate": 2, "EntityKeys": 1, "EntityUM": 1}, r.n(6))
		g.login()
		g.protectedData = r.p(0.3)
		if g.protectedData {
			// Those are attached data that are shown and no secrets.
			sc.List = append([]string{"pL4in-", "rootpw"}, g.secrets...)
		}
		g.rootP = 0.8
		w := plus(wAll, W{"EntityCreate": 5, "AuthChangeSecret": 5, "AuthChangeSecret/self": 4, "EntitySearch": 3, "EntityInfo": 3, "GroupMembers": 3, "AuthEntity": 3, "AuthGetToken": 3})
		for i := 0; i < 1+r.n(2); i++ {
			ph := &Phase{Clients: g.clients(w, 1+r.n(3), 5)}
			if r.p(0.25) {
				for _, k := range []string{"F.eio", "F.enospc", "F.short"} {
					ph.Faults = append(ph.Faults, k)
					sc.Prof.P[k] = 0.03
				}
			}
			if r.p(0.3) {
				ph.Restart = r.of("stop", "kill", "settle")
			}
			if r.p(0.2) {
				ph.Restart = "kill"
				ph.Boot = g.ent() + ":" + g.secrets[0]
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}})

	// Bootstrap.
	add("S09", "s09", Handler{Run: standardRun, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		if r.p(0.15) {
			sc.Cfg.Crypto = "bcrypt"
		}
		g.ents = append(g.ents, "dora")
		g.world(0.6, plus(wWrite), r.n(14))
		if r.p(0.2) {
			// A first start without any option.
			sc.Boot = ""
			sc.Setup = nil
		}
		g.login()
		g.rootP = 0.6
		boot := func() string {
			e := r.of(append([]string{"root", "root", "new", "x y"}, g.ents...)...)
			b := e + ":" + r.of(append([]string{"boots", "rootpw", "", "a:b"}, g.secrets...)...)
			if r.p(0.2) {
				b = r.of("nocolon", "root", ":", ":x", "a/b:x", "../x:y", ".:s", "/:s", " ")
			}
			return b
		}
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{Clients: g.clients(plus(wWrite, W{"AuthEntity": 3, "AuthGetToken": 4}), 1+r.n(2), 4)}
			ph.Restart = r.of("stop", "kill", "power", "settle")
			if r.p(0.75) {
				ph.Boot = boot()
			}
			if r.p(0.25) {
				ph.CrashStart = r.logn(500)
				ph.BootOnce = r.p(0.5)
			} else if r.p(0.25) {
				ph.FaultStart = true
				ph.BootOnce = r.p(0.5)
				for _, k := range []string{"F.eio", "F.enospc", "F.short"} {
					sc.Prof.P[k] = []float64{0.01, 0.04}[r.n(2)]
				}
				ph.Restart = r.of("stop", "kill", "settle")
			}
			sc.Phases = append(sc.Phases, ph)
			// What the named entity, and everyone else, can do.
			var ops []*Op
			for _, e := range append([]string{"root", "new", "x y"}, g.ents...) {
				for _, x := range append([]string{"boots", "rootpw", "", "a:b"}, g.secrets...) {
					ops = append(ops, &Op{ID: g.next(), K: "AuthGetToken", E: e, S: x, Save: "t:" + e})
				}
			}
			sc.Phases = append(sc.Phases, &Phase{Note: "probe", Clients: [][]*Op{ops}})
		}
	}})

	// Names.
	add("I01", "i01", Handler{Run: func(s *session) {
		l := s.l
		if !s.setup() {
			return
		}
		outside := func() string {
			var b strings.Builder
			for _, e := range l.FS.Dump("/") {
				p := e.Path
				if strings.HasPrefix(p, home+"/kv/entities/") || strings.HasPrefix(p, home+"/kv/groups/") || strings.HasPrefix(p, home+"/bc/") ||
					p == home+"/kv" || p == home+"/bc" || p == home+"/kv/entities" || p == home+"/kv/groups" {
					continue
				}
				fmt.Fprintf(&b, "%s %x\n", p, e.Data)
			}
			return b.String()
		}
		was := outside()
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			if !s.clients(ph) {
				return
			}
			if now := outside(); now != was {
				s.fail("files", "files other than records changed: %s became %s", was, now)
				return
			}
			if !s.restart(ph) {
				return
			}
			if !s.seq(fmt.Sprintf("dump%d", i), s.dumpOps(10000*(i+1), true)) {
				return
			}
		}
		s.judge()
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		pool := []string{"a", "A", "a ", " a", "a/b", "../groups/a", "../a", "..", ".", "", "/", "/a", "a/", "*", "?", "[a", "[a]", "[!a]", "{a}", "a*", "a\\b", "\\", "\\*", "a:b", "INCLUDE:a", "INCLUDE:*",
			"ä", "a\u0308", "名前", "\u202ea", "a\nb", "a\tb", "%s", "%00", "a%2fb", "~", "-1", "-", ".a", "..a", "a..", "...", "entities", "groups", "kv", "token.key",
			"a.dat", "lock", ".tmp", "./a", "a/../a", "//a", "a\x00", "\x00", strings.Repeat("n", 200), strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("ab/", 100), strings.Repeat("n", 1020), strings.Repeat("n", 5000),
			"*a", "**", "a?", "?*", "<REDACTED>", "null", "true", "0", "\"a\"", "'a'", "a,b", "a|b", "a&b", "$HOME", "`a`", "ID:a", "+a", "^a", "a~1"}
		pickN := func(n int) []string {
			out := []string{"a"}
			for i := 0; i < n; i++ {
				x := pool[r.n(len(pool))]
				if !has(out, x) {
					out = append(out, x)
				}
			}
			return out
		}
		g.ents, g.groups = pickN(2+r.n(4)), pickN(1+r.n(4))
		if r.p(0.3) {
			g.ents, g.groups = append(g.ents, g.groups...), append(g.groups, g.ents...)
		}
		w := plus(wAll, W{"EntityCreate": 6, "GroupCreate": 6, "EntityInfo": 2, "GroupInfo": 2, "EntityDestroy": 2, "GroupDestroy": 2, "EntityLock": 2, "GroupUpdate": 2, "EntityUpdate": 2})
		g.world(0.6, nil, 0)
		g.toks = []string{"root"}
		for i := 0; i < 1+r.n(2); i++ {
			ph := &Phase{Clients: g.clients(w, 1+r.n(2), 10)}
			if r.p(0.3) {
				ph.Restart = r.of("stop", "kill", "settle")
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}})
}

// tokenText is the readable part of a token.
func tokenText(t string) string {
	var b strings.Builder
	for _, p := range strings.Split(t, ".") {
		b.Write(b64(p))
		b.WriteByte('\n')
	}
	return b.String()
}

var _ = types.Entity{}
