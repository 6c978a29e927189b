package main

import (
	"fmt"
	"sort"
	"strings"

	types "github.com/netauth/protocol"
)

// gen builds scenarios from weighted mixtures of requests over a small
// universe of names and values.
type gen struct {
	r  *rng
	sc *Scenario
	id int

	ents, groups  []string // records that may exist
	secrets       []string
	toks          []string // slots requests may use
	rootP         float64  // how often the superuser's token is used
	umKeys        []string
	vals          []string
	kvKeys        []string
	keyTypes      []string
	keyVals       []string
	caps          []string
	nums          []int32
	multi         float64 // membership requests that name several groups
	dns           []string
	searchE       []string
	searchG       []string
	protectedData bool    // updates try to smuggle protected fields
	nearS         float64 // how often almost the right secret is presented
	idx           []int32 // indices of key/value data
	kvN           int     // how many values a key has at most
	bulk          float64 // how often there are many records or items
}

var allCaps = []string{"CREATE_ENTITY", "DESTROY_ENTITY", "MODIFY_ENTITY_META", "MODIFY_ENTITY_KEYS", "CHANGE_ENTITY_SECRET",
	"LOCK_ENTITY", "UNLOCK_ENTITY", "CREATE_GROUP", "DESTROY_GROUP", "MODIFY_GROUP_META", "MODIFY_GROUP_MEMBERS", "GLOBAL_ROOT"}

func newGen(r *rng, sc *Scenario) *gen {
	g := &gen{r: r, sc: sc, id: 1, rootP: 1,
		ents: []string{"alice", "bob", "carol"}, groups: []string{"g1", "g2", "g3"},
		secrets:  []string{"s1", "s2", "s3"},
		umKeys:   []string{"k", "k{0}", "k{1}", "kk", "K", "other"},
		vals:     []string{"v", "w", "v:w", "", "x{1}", ":v:"},
		kvKeys:   []string{"a", "aa", "A", "b", "a:b"},
		keyTypes: []string{"ssh", "SSH", "pgp", "ss"},
		keyVals:  []string{"k1", "k12", "k", "k1 user@host", "a:b"},
		caps:     allCaps,
		nums:     []int32{-1, -1, -1, -1, -1, 1, 2, 7},
		multi:    0.3,
		dns:      []string{"d1", "d2", "one two", "D1"},
		idx:      []int32{0, 1, 2},
		kvN:      3,
		nearS:    0.05,
	}
	g.rich()
	return g
}

func (g *gen) next() int { g.id++; return g.id }

func (g *gen) ent() string { return g.ents[g.r.n(len(g.ents))] }

// secret is one that is presented.
func (g *gen) secret() string {
	x := g.pick(g.secrets)
	if g.r.p(g.nearS) {
		return near(g.r, x)
	}
	return x
}

func (g *gen) group() string { return g.groups[g.r.n(len(g.groups))] }

// other is a group, or by that chance one that there is not.
func (g *gen) other(p float64) string {
	if g.r.p(p) {
		return g.r.of("ghost", g.group()+"x")
	}
	return g.group()
}

func (g *gen) pick(l []string) string {
	return l[g.r.n(len(l))]
}

func (g *gen) tok() string {
	if len(g.toks) == 0 || g.r.p(g.rootP) {
		return "root"
	}
	return g.pick(g.toks)
}

func (g *gen) kvs() []KVV {
	var l []KVV
	for i, n := 0, 1+g.r.n(g.kvN); i < n; i++ {
		l = append(l, KVV{V: g.pick(g.vals), I: g.idx[g.r.n(len(g.idx))]})
	}
	return l
}

var fieldsE = []string{"meta.PrimaryGroup", "meta.GECOS", "meta.LegalName", "meta.DisplayName", "meta.Home", "meta.Shell", "meta.GraphicalShell", "meta.BadgeNumber"}

func (g *gen) meta() *types.EntityMeta {
	m := &types.EntityMeta{}
	for i := 0; i < 1+g.r.n(2); i++ {
		v := sp(g.pick(g.dns))
		switch g.r.n(8) {
		case 0:
			m.PrimaryGroup = v
		case 1:
			m.GECOS = v
		case 2:
			m.LegalName = v
		case 3:
			m.DisplayName = v
		case 4:
			m.Home = v
		case 5:
			m.Shell = v
		case 6:
			m.GraphicalShell = v
		case 7:
			m.BadgeNumber = v
		}
	}
	return m
}

// op builds one request of the given kind.  A kind may carry a
// variation after a slash.
func (g *gen) op(kind string) *Op {
	r := g.r
	v := ""
	if i := strings.IndexByte(kind, '/'); i >= 0 {
		kind, v = kind[:i], kind[i+1:]
	}
	o := &Op{ID: g.next(), K: kind}
	if o.authenticated() {
		o.Tok = g.tok()
	}
	switch kind {
	case "EntityCreate":
		o.E, o.S, o.N = g.ent(), g.pick(g.secrets), np(g.nums[r.n(len(g.nums))])
	case "EntityUpdate":
		o.E = g.ent()
		o.Ent = &types.Entity{Meta: g.meta()}
		if g.protectedData {
			g.smuggleE(o.Ent)
		}
	case "EntityInfo", "EntityDestroy", "EntityLock", "EntityUnlock", "EntityGroups":
		o.E = g.ent()
	case "EntitySearch":
		if len(g.searchE) > 0 {
			o.X, o.Want = splitSearch(g.pick(g.searchE))
		} else {
			o.X = "*"
		}
	case "GroupSearch":
		if len(g.searchG) > 0 {
			o.X, o.Want = splitSearch(g.pick(g.searchG))
		} else {
			o.X = "*"
		}
	case "EntityUM", "GroupUM":
		o.E = g.ent()
		if kind == "GroupUM" {
			o.E, o.G = "", g.group()
		}
		o.Act = r.of("UPSERT", "UPSERT", "UPSERT", "CLEAREXACT", "CLEARFUZZY")
		if v == "R" || v == "" && r.p(0.2) {
			o.Act = "READ"
		}
		o.Key, o.Val = g.pick(g.umKeys), g.pick(g.vals)
		if o.Act == "READ" {
			o.Val, o.Tok = "", ""
			if r.p(0.3) {
				o.Key = "*"
			}
		}
	case "EntityKVAdd", "EntityKVDel", "EntityKVReplace":
		o.E, o.Key, o.Vals = g.ent(), g.pick(g.kvKeys), g.kvs()
	case "GroupKVAdd", "GroupKVDel", "GroupKVReplace":
		o.G, o.Key, o.Vals = g.group(), g.pick(g.kvKeys), g.kvs()
	case "EntityKVGet":
		o.E, o.Key = g.ent(), g.pick(append([]string{"*", "*"}, g.kvKeys...))
	case "GroupKVGet":
		o.G, o.Key = g.group(), g.pick(append([]string{"*", "*"}, g.kvKeys...))
	case "EntityKeys":
		o.E = g.ent()
		o.Act = r.of("ADD", "ADD", "ADD", "DROP", "DROP", "READ")
		o.Key, o.Val = g.pick(g.keyTypes), g.pick(g.keyVals)
		if o.Act == "READ" {
			o.Key, o.Val, o.Tok = "", "", ""
		} else if o.Act == "DROP" && r.p(0.3) {
			if r.p(0.5) {
				o.Val = ""
			} else {
				o.Key = ""
			}
		}
	case "AuthEntity", "AuthGetToken":
		o.E, o.S = g.ent(), g.secret()
		if kind == "AuthGetToken" {
			o.Save = "t:" + o.E
		}
	case "AuthValidateToken":
		o.Tok = g.tok()
	case "AuthChangeSecret":
		o.E, o.S, o.S2 = g.ent(), g.pick(g.secrets), g.secret()
		if r.p(g.nearS / 3) {
			o.S = near(r, o.S)
		}
		if v == "self" {
			o.Tok = "t:" + o.E
		}
	case "GroupCreate":
		o.G, o.N = g.group(), np(g.nums[r.n(len(g.nums))])
		if r.p(0.4) {
			o.DN = g.pick(g.dns)
		}
		if r.p(0.25) {
			o.MB = g.other(0.2)
		}
	case "GroupUpdate":
		o.G = g.group()
		o.Grp = &types.Group{}
		if r.p(0.7) {
			o.Grp.DisplayName = sp(g.pick(g.dns))
		}
		if r.p(0.3) {
			o.Grp.ManagedBy = sp(g.other(0.1))
		}
		if g.protectedData {
			g.smuggleG(o.Grp)
		}
	case "GroupInfo", "GroupDestroy", "GroupMembers":
		o.G = g.group()
	case "GroupUpdateRules":
		o.G, o.T = g.group(), g.other(0.05)
		o.Act = r.of("INCLUDE", "INCLUDE", "INCLUDE", "EXCLUDE", "EXCLUDE", "REMOVE_RULE", "REMOVE_RULE")
	case "GroupAddMember", "GroupDelMember":
		o.E = g.ent()
		o.Gs = []string{g.group()}
		for r.p(g.multi) && len(o.Gs) < 4 {
			o.Gs = append(o.Gs, g.other(0.05))
		}
	case "SystemCapabilities":
		o.Act, o.Cap = r.of("ADD", "ADD", "DROP"), g.pick(g.caps)
		if r.p(0.5) {
			o.E = g.ent()
		} else {
			o.G = g.group()
		}
	case "SystemPing", "SystemStatus":
	default:
		panic("gen: " + kind)
	}
	return o
}

func splitSearch(s string) (x, want string) {
	i := strings.IndexByte(s, '|')
	return s[:i], s[i+1:]
}

// authenticated tells whether requests of this kind carry a token.
func (o *Op) authenticated() bool {
	switch o.K {
	case "EntityInfo", "EntitySearch", "EntityGroups", "EntityKVGet", "GroupKVGet", "GroupInfo", "GroupMembers",
		"GroupSearch", "AuthEntity", "AuthGetToken", "SystemPing", "SystemStatus":
		return false
	}
	return true
}

func (g *gen) smuggleE(e *types.Entity) {
	r := g.r
	m := e.Meta
	for i := 0; i < 1+r.n(3); i++ {
		switch r.n(9) {
		case 0:
			e.Number = np(int32(r.n(100)))
		case 1:
			e.Secret = sp("smuggled")
		case 2:
			b := r.p(0.5)
			m.Locked = &b
		case 3:
			m.Capabilities = append(m.Capabilities, *capOf(g.pick(allCaps)))
		case 4:
			m.Groups = append(m.Groups, g.group())
		case 5:
			m.Keys = append(m.Keys, "SSH:smuggled")
		case 6:
			m.UntypedMeta = append(m.UntypedMeta, "smuggled:1")
		case 7:
			m.KV = append(m.KV, &types.KVData{Key: sp("smuggled"), Values: []*types.KVValue{{Value: sp("v")}}})
		case 8:
			m.Groups = append(m.Groups, "")
		}
	}
	if r.p(0.05) {
		e.Meta = nil
	}
}

func (g *gen) smuggleG(x *types.Group) {
	r := g.r
	for i := 0; i < 1+r.n(3); i++ {
		switch r.n(5) {
		case 0:
			x.Number = np(int32(r.n(100)))
		case 1:
			x.Capabilities = append(x.Capabilities, *capOf(g.pick(allCaps)))
		case 2:
			x.Expansions = append(x.Expansions, r.of("INCLUDE:", "EXCLUDE:", "")+g.group())
		case 3:
			x.UntypedMeta = append(x.UntypedMeta, "smuggled:1")
		case 4:
			x.KV = append(x.KV, &types.KVData{Key: sp("smuggled")})
		}
	}
}

// W is a weighted choice of request kinds.
type W map[string]int

func (g *gen) of(w W) *Op {
	var ks []string
	tot := 0
	for k, n := range w {
		if n > 0 {
			ks = append(ks, k)
			tot += n
		}
	}
	sort.Strings(ks)
	x := g.r.n(tot)
	for _, k := range ks {
		if x < w[k] {
			return g.op(k)
		}
		x -= w[k]
	}
	panic("unreachable")
}

// ops builds n requests.
func (g *gen) ops(w W, n int) []*Op {
	var l []*Op
	for i := 0; i < n; i++ {
		l = append(l, g.of(w))
	}
	return l
}

// clients builds the concurrent part of a phase.
func (g *gen) clients(w W, nc, no int) [][]*Op {
	var out [][]*Op
	for c := 0; c < nc; c++ {
		out = append(out, g.ops(w, 1+g.r.n(no)))
	}
	return out
}

// mk appends set-up requests by the superuser.
func (g *gen) mk(ops ...*Op) {
	for _, o := range ops {
		o.ID = g.next()
		if o.Tok == "" && o.authenticated() {
			o.Tok = "root"
		}
		g.sc.Setup = append(g.sc.Setup, o)
	}
}

// world sets up the superuser and a random part of the universe.
func (g *gen) world(p float64, extra W, n int) {
	sc, r := g.sc, g.r
	sc.Boot = rootBoot
	g.mk(&Op{K: "AuthGetToken", E: "root", S: "rootpw", Save: "root"})
	for _, e := range g.ents {
		if r.p(p) {
			g.mk(&Op{K: "EntityCreate", E: e, S: g.secrets[0], N: np(-1)})
		}
	}
	for _, gr := range g.groups {
		if r.p(p) {
			g.mk(&Op{K: "GroupCreate", G: gr, N: np(-1)})
		}
	}
	if r.p(g.bulk) {
		g.many()
	}
	if extra != nil {
		old := g.rootP
		g.rootP = 1
		for i := 0; i < n; i++ {
			g.sc.Setup = append(g.sc.Setup, g.of(extra))
		}
		g.rootP = old
	}
}

// login obtains tokens for all entities.
func (g *gen) login() {
	for _, e := range g.ents {
		g.mk(&Op{K: "AuthGetToken", E: e, S: g.secrets[0], Save: "t:" + e})
		g.toks = append(g.toks, "t:"+e)
	}
}

// authority lets one entity manage a group, and then changes what that
// rests on while the entity goes on to use it.
func (g *gen) authority() {
	r := g.r
	m, a, b, e := g.groups[0], g.groups[1], g.groups[2], g.ents[r.n(len(g.ents))]
	rule := r.p(0.4)
	g.mk(&Op{K: "GroupUpdate", G: m, Grp: &types.Group{ManagedBy: sp(a)}})
	if rule {
		g.mk(&Op{K: "GroupUpdateRules", G: a, T: b, Act: "INCLUDE"}, &Op{K: "GroupAddMember", E: e, Gs: []string{b}})
	} else {
		g.mk(&Op{K: "GroupAddMember", E: e, Gs: []string{a}})
	}
	var ops []*Op
	add := func(tok string, o *Op) {
		o.ID, o.Tok = g.next(), tok
		ops = append(ops, o)
	}
	use := func() {
		o := g.op(r.of("GroupAddMember", "GroupDelMember", "GroupUpdate", "GroupUM", "GroupUpdateRules"))
		if o.Gs != nil {
			o.Gs[0] = m
		} else {
			o.G = m
		}
		add("t:"+e, o)
	}
	for n := 1 + r.n(4); n > 0; n-- {
		if r.p(0.4) {
			use()
		}
		by := r.of("root", "root", "root", "t:"+e)
		switch r.n(10) {
		case 0, 1:
			add(by, &Op{K: "GroupDestroy", G: g.pick([]string{a, a, b, m})})
		case 2:
			add(by, &Op{K: "GroupDelMember", E: e, Gs: []string{r.of(a, b)}})
		case 3:
			add(by, &Op{K: "GroupUpdate", G: m, Grp: &types.Group{ManagedBy: sp(r.of(m, b, a))}})
		case 4:
			add(by, &Op{K: "GroupUpdateRules", G: a, T: b, Act: r.of("INCLUDE", "EXCLUDE", "REMOVE_RULE", "REMOVE_RULE")})
		case 5:
			add(by, &Op{K: "EntityDestroy", E: e})
		case 6:
			add(by, &Op{K: "EntityCreate", E: e, S: g.secrets[0], N: np(-1)})
		case 7:
			add(by, &Op{K: "GroupCreate", G: r.of(a, b, m), MB: r.of("", a), N: np(-1)})
		case 8:
			add(by, &Op{K: "GroupAddMember", E: e, Gs: []string{r.of(a, b)}})
		case 9:
			add(by, &Op{K: "EntityLock", E: e})
		}
		use()
	}
	ph := &Phase{Clients: [][]*Op{ops}}
	if r.p(0.15) {
		ph.Restart = r.of("stop", "kill")
	}
	g.sc.Phases = append(g.sc.Phases, ph)
}

func (g *gen) backend() {
	g.sc.Cfg.Backend = g.r.of("filesystem", "bitcask")
}

// schedule picks how eagerly the scheduler interleaves.
func (g *gen) schedule() {
	p := &g.sc.Prof
	switch g.r.n(4) {
	case 0:
		p.Switch, p.Stall, p.Soft = 0.02, 0.01, 0.0005
	case 1:
		p.Switch, p.Stall, p.Soft = 0.1, 0.02, 0.002
	case 2:
		p.Switch, p.Stall, p.Soft = 0.3, 0.05, 0.01
	case 3:
		p.Switch, p.Stall, p.Soft = 0.02, 0.1, 0.002
	}
}

// restarts decides what ends a phase.
func (g *gen) ending(ph *Phase, w W) {
	var ks []string
	tot := 0
	for k, n := range w {
		ks = append(ks, k)
		tot += n
	}
	sort.Strings(ks)
	x := g.r.n(tot)
	for _, k := range ks {
		if x < w[k] {
			if k != "none" {
				ph.Restart = k
			}
			return
		}
		x -= w[k]
	}
}

func (g *gen) String() string { return fmt.Sprint(g.ents, g.groups) }
