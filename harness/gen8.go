package main

import (
	types "github.com/netauth/protocol"
	"strings"
)

// The command line client: commands run one after the other as
// processes of their own, next to other clients, against the server.

func init() {
	kinds["N01"] = []kindW{{"n01", 1}}
	handlers["n01"] = Handler{Run: func(s *session) {
		l := s.l
		l.Calm = true
		l.setHosts()
		l.FS.MustMkdirAll("/home/operator")
		s.standard(true)
	}, Gen: genN01}
}

var wCLI = W{"EntityCreate": 4, "EntityUpdate": 3, "EntityInfo": 3, "EntitySearch": 2, "EntityUM": 4, "EntityUM/R": 4, "EntityKVGet": 3, "EntityKVAdd": 3, "EntityKVDel": 1,
	"EntityKVReplace": 2, "EntityKeys": 4, "EntityDestroy": 2, "EntityLock": 2, "EntityUnlock": 1, "EntityGroups": 2, "AuthEntity": 3, "AuthGetToken": 2,
	"AuthValidateToken": 2, "AuthChangeSecret": 4, "GroupCreate": 3, "GroupUpdate": 3, "GroupInfo": 4, "GroupUM": 2, "GroupUM/R": 3, "GroupKVGet": 2, "GroupKVAdd": 2,
	"GroupKVDel": 1, "GroupKVReplace": 1, "GroupUpdateRules": 3, "GroupAddMember": 4, "GroupDelMember": 2, "GroupDestroy": 1, "GroupMembers": 2,
	"GroupSearch": 2, "SystemCapabilities": 4, "SystemPing": 1, "SystemStatus": 1}

var badCLI = []string{
	"entity create", "entity create a b", "entity create --number=x a", "entity create --frob a", "entity info", "entity info a b", "entity destroy", "entity destroy a b",
	"entity lock", "entity lock a b", "entity unlock", "entity search", "entity update", "entity update a b", "entity memberships",
	"entity kv alice", "entity kv alice FROB k", "entity kv alice UPSERT k", "entity kv alice CLEAREXACT", "group kv g1 FROB k", "group kv g1 UPSERT k", "group kv g1",
	"entity key", "entity key FROB", "entity key ADD", "entity key ADD SSH", "entity key DROP", "entity key READ a b", "entity key ADD SSH k l",
	"entity membership alice", "entity membership alice ADD", "entity membership alice FROB g1", "entity membership alice ADD g1 g2", "entity membership alice ADD",
	"group create", "group create a b", "group create --number=1x g1", "group destroy", "group destroy g1 g2", "group info", "group members", "group rule g1 INCLUDE", "group rule g1 FROB g2",
	"group rule g1 INCLUDE g2 g3", "group update", "group search",
	"kv2 get entity alice", "kv2 get frob alice k", "kv2 add entity alice k", "kv2 add frob alice k v", "kv2 del entity alice", "kv2 del frob alice k", "kv2 replace entity alice k", "kv2 replace frob alice k v",
	"system capability alice ADD", "system capability alice FROB GLOBAL_ROOT", "system capability alice ADD FROB", "system capability alice DROP FROB", "system capability alice ADD", "entity key READ a b c", "entity key ADD SSH k l m", "entity key DROP a b c", "system capability --direct alice ADD FROB", "system capability --direct alice FROB GLOBAL_ROOT", "frobnicate", "--frob entity info a",
}

// argWord tells whether x can be an argument of a program and a line
// that is typed.
func argWord(x string) bool { return !strings.ContainsAny(x, "\x00\n\r") }

func argWords(l []string) []string {
	var out []string
	for _, x := range l {
		if argWord(x) {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		out = []string{"x"}
	}
	return out
}

func genN01(r *rng, sc *Scenario) {
	g := newGen(r, sc)
	g.backend()
	g.schedule()
	g.ents, g.groups = argWords(g.ents), argWords(g.groups)
	g.umKeys, g.vals, g.kvKeys, g.keyVals, g.keyTypes, g.secrets = argWords(g.umKeys), argWords(g.vals), argWords(g.kvKeys), argWords(g.keyVals), argWords(g.keyTypes), argWords(g.secrets)
	if r.p(0.5) {
		g.searchE, g.searchG = searches(g)
	}
	g.kvN = 3
	if r.p(0.3) {
		g.kvN = 12
	}
	if r.p(0.25) {
		sc.Cfg.Lifetime = r.of("1m", "30s")
	}
	g.world(0.8, W{"EntityUM": 4, "GroupUM": 3, "EntityKVAdd": 2, "GroupKVAdd": 1, "EntityKeys": 2, "GroupAddMember": 3, "GroupUpdateRules": 1, "SystemCapabilities": 1, "EntityUpdate": 1}, r.n(16))
	for i, gr := range g.groups {
		if i > 0 && r.p(0.3) {
			g.mk(&Op{K: "GroupUpdate", G: gr, Grp: groupMB(g.group())})
		}
	}
	g.login()
	g.rootP = 0.7
	if r.p(0.3) {
		sc.Num = map[string]int64{"cliskew": int64(r.n(1500)) - 750}
	}
	if r.p(0.15) {
		sc.Cfg.ReadOnly = false
	}
	mode := r.n(6)
	fails := mode == 3
	for i := 0; i < 1+r.n(3); i++ {
		ph := &Phase{}
		quiet := mode == 0 || mode == 1 && i == 0
		var cs []*Op
		for n := 1 + r.n(8); n > 0; n-- {
			cs = append(cs, g.cli(quiet))
		}
		if mode < 2 && r.p(0.15) {
			// The server is not well for a while.
			o := &Op{ID: g.next(), K: "CLI", E: "root", S: "rootpw", Sub: &Op{K: "SystemStatus"}}
			o.Sub.ID = o.ID
			cs = append(cs, &Op{ID: g.next(), K: "Do", X: "chmod token.key " + r.of("640", "600", "000")}, o, &Op{ID: g.next(), K: "Do", X: "restore token.key"})
		}
		ph.Clients = append(ph.Clients, cs)
		if !quiet {
			ph.Clients = append(ph.Clients, g.clients(wAll, r.n(3), 4)...)
		}
		switch mode {
		case 2:
			ph.Faults = []string{"N.lost", "N.delay"}
		case 3:
			ph.Faults = []string{r.of("F.eio", "F.enospc", "F.emfile", "F.short")}
		case 4:
			ph.Crash = 1 + r.logn(3000)
		case 5:
			for _, o := range cs {
				if r.p(0.4) {
					o.KillAt = r.logn(200)
				}
			}
		}
		for _, f := range ph.Faults {
			p := 0.05
			if f == "N.delay" {
				p = 0.2
			}
			sc.Prof.P[f] = p
		}
		if r.p(0.3) {
			ph.Restart = r.of("stop", "kill")
			if fails {
				ph.Restart = "stop"
			}
			if r.p(0.15) {
				ph.NewKeys = true
			}
			if r.p(0.1) {
				ph.RO = true
			} else if r.p(0.5) {
				ph.RW = true
			}
		}
		if r.p(0.1) {
			ph.Clock = int64(r.n(1500)) - 750
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

// cli is a command.
func (g *gen) cli(quiet bool) *Op {
	r := g.r
	o := &Op{ID: g.next(), K: "CLI", E: "root", S: "rootpw", Style: r.n(128) & r.n(128)}
	if r.p(0.08) {
		o.List = strings.Fields(g.pick(badCLI))
		o.List = append(o.List, "--entity=root", "--secret=rootpw")
		o.E, o.S = "", ""
		return o
	}
	if r.p(0.35) {
		o.E, o.S = g.ent(), g.secret()
		if r.p(0.6) {
			o.S = g.secrets[0]
		}
		for !argWord(o.S) {
			o.S = g.pick(g.secrets)
		}
	}
	switch r.n(4) {
	case 0: // typed
		o.Tty = []string{o.S}
		o.S = ""
	case 1:
		if r.p(0.3) { // neither
			o.S = ""
		}
	}
	k := r.of("AuthGetToken", "inspect", "destroy", "", "", "", "", "", "", "", "", "", "")
	if k == "inspect" || k == "destroy" {
		o.Sub = &Op{ID: o.ID, K: k}
	} else if k != "" {
		o.Sub = g.op(k)
	} else {
		o.Sub = g.of(wCLI)
	}
	s := o.Sub
	s.ID = o.ID
	if !argWord(s.S) {
		s.S = "s1"
	}
	typed := func(x string) {
		// What is asked for first.
		o.Tty = append([]string{x}, o.Tty...)
	}
	switch s.K {
	case "EntityUpdate", "GroupUpdate":
	case "EntityKeys":
		if s.Act == "READ" && r.p(0.5) {
			s.Key = g.pick(g.keyTypes)
		}
		if s.Act == "DROP" && s.Val == "" {
			s.Val = g.pick(g.keyVals)
		}
		if s.Act == "ADD" && s.Key == "" {
			s.Key = "SSH"
		}
		if r.p(0.5) {
			s.E = o.E
		}
	case "EntityCreate":
		if r.p(0.3) {
			typed(s.S)
			s.S = ""
			o.Style &^= 1 << 5
		} else if r.p(0.1) {
			s.S = ""
			o.Style |= 1 << 5
		}
	case "AuthChangeSecret":
		if r.p(0.5) {
			s.E = o.E
		}
		if s.S == "" || r.p(0.3) {
			o.Style |= 1 << 5
		} else {
			o.Style &^= 1 << 5
		}
		if o.style(5) {
			again := s.S
			if r.p(0.1) {
				again += "x"
			}
			if s.E == o.E && o.S == "" && len(o.Tty) > 0 {
				// The old one is asked for first and once more
				// where a token is needed.
				o.Tty = []string{o.Tty[0], s.S, again, o.Tty[0]}
			} else {
				typed(again)
				typed(s.S)
			}
		} else if s.E == o.E && o.S == "" && len(o.Tty) > 0 {
			o.Tty = append(o.Tty, o.Tty[0])
		}
	case "EntityInfo", "EntitySearch", "EntityGroups", "GroupSearch", "GroupMembers", "GroupInfo":
		if r.p(0.2) {
			l := []string{"ID", "number", "GECOS", "displayName", "capabilities", "homedir"}
			if s.K == "GroupInfo" || s.K == "GroupSearch" || s.K == "EntityGroups" {
				l = []string{"name", "displayName", "number", "managedBy", "rules", "capabilities"}
			}
			o.Fields = strings.Join(someOf(r, l, 1+r.n(3)), ",")
		}
		if s.K == "GroupInfo" && quiet {
			o.Note = "quiet"
			o.Gs = append(o.Gs, g.groups...)
			for _, x := range g.sc.Setup {
				if x.K == "GroupCreate" && !has(o.Gs, x.G) {
					o.Gs = append(o.Gs, x.G)
				}
			}
		}
	}
	if r.p(0.1) && g.sc.Cfg.Lifetime != "" {
		o.At = int64(r.n(90)) * 1e9
	}
	return o
}

func groupMB(n string) *types.Group { return &types.Group{ManagedBy: &n} }
