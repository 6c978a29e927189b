package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	rpc "github.com/netauth/protocol/v2"

	types "github.com/netauth/protocol"

	"github.com/netauth/netauth/pkg/plugin/tree"

	grpc "verif.local/sim/simgrpc"
	simos "verif.local/sim/simos"
	"verif.local/sim/simplugin"
	"verif.local/sim/simrt"
)

// A simulated plugin behaves as its name says: "veto-…" objects to
// everything about records called v…, "veto<action>-…" to one action
// on any record, "mark-…" notes the last action in the record's
// metadata, "shell-…" sets a field, "null-…" does nothing, "broken-…"
// cannot be started.
type simPlugin struct {
	name string
}

var errVeto = errors.New("the plugin objects")

func (p simPlugin) vetoes(action, record string) bool {
	k := strings.SplitN(p.name, "-", 2)[0]
	switch {
	case k == "veto":
		return strings.HasPrefix(record, "v")
	case strings.HasPrefix(k, "veto"):
		return k[4:] == strings.ToLower(action)
	}
	return false
}

// editE and editG are what a plugin does to a record; the model uses
// them, too.
func (p simPlugin) editE(action string, e *types.Entity) {
	if e.Meta == nil {
		e.Meta = &types.EntityMeta{}
	}
	switch strings.SplitN(p.name, "-", 2)[0] {
	case "mark":
		if action != "PreAuthCheck" && action != "PostAuthCheck" {
			e.Meta.UntypedMeta = umEdit(e.Meta.UntypedMeta, "UPSERT", "p-"+p.name, action)
		}
	case "markauth":
		if action == "PostAuthCheck" {
			e.Meta.UntypedMeta = umEdit(e.Meta.UntypedMeta, "UPSERT", "p-"+p.name, action)
		}
	case "shell":
		if action == "EntityCreate" || action == "EntityUpdate" {
			e.Meta.Shell = sp("/bin/" + p.name)
		}
	case "lock":
		if action == "EntityCreate" {
			t := true
			e.Meta.Locked = &t
		}
	}
}

func (p simPlugin) editG(action string, g *types.Group) {
	switch strings.SplitN(p.name, "-", 2)[0] {
	case "mark":
		g.UntypedMeta = umEdit(g.UntypedMeta, "UPSERT", "p-"+p.name, action)
	case "shell":
		g.DisplayName = sp("dn " + p.name)
	}
}

func (p simPlugin) e(action string, e types.Entity) (types.Entity, error) {
	if p.vetoes(action, e.GetID()) {
		// What it returns besides the error must not matter.
		e.Meta = &types.EntityMeta{}
		return e, errVeto
	}
	p.editE(action, &e)
	return e, nil
}

func (p simPlugin) g(action string, g types.Group) (types.Group, error) {
	if p.vetoes(action, g.GetName()) {
		return g, errVeto
	}
	p.editG(action, &g)
	return g, nil
}

func (p simPlugin) EntityCreate(e, d types.Entity) (types.Entity, error) {
	return p.e("EntityCreate", e)
}
func (p simPlugin) EntityUpdate(e types.Entity) (types.Entity, error) { return p.e("EntityUpdate", e) }
func (p simPlugin) EntityLock(e types.Entity) (types.Entity, error)   { return p.e("EntityLock", e) }
func (p simPlugin) EntityUnlock(e types.Entity) (types.Entity, error) { return p.e("EntityUnlock", e) }
func (p simPlugin) EntityDestroy(e types.Entity) (types.Entity, error) {
	return p.e("EntityDestroy", e)
}
func (p simPlugin) GroupCreate(g types.Group) (types.Group, error)  { return p.g("GroupCreate", g) }
func (p simPlugin) GroupUpdate(g types.Group) (types.Group, error)  { return p.g("GroupUpdate", g) }
func (p simPlugin) GroupDestroy(g types.Group) (types.Group, error) { return p.g("GroupDestroy", g) }
func (p simPlugin) PreSecretChange(e, d types.Entity) (types.Entity, error) {
	return p.e("PreSecretChange", e)
}
func (p simPlugin) PostSecretChange(e, d types.Entity) (types.Entity, error) {
	return p.e("PostSecretChange", e)
}

// Before the record is loaded only the request names it.
func (p simPlugin) PreAuthCheck(e, d types.Entity) (types.Entity, error) {
	return p.e("PreAuthCheck", e)
}
func (p simPlugin) PostAuthCheck(e, d types.Entity) (types.Entity, error) {
	return p.e("PostAuthCheck", e)
}

func pluginName(p string) string { return strings.TrimSuffix(path.Base(p), ".treeplugin") }

// plugins returns the plugin processes the running server has loaded.
func (l *Lab) plugins() []*simrt.Proc {
	var out []*simrt.Proc
	ps, _ := l.W.Ext.Get("pluginprocs").([]*simrt.Proc)
	for _, p := range ps {
		if p.Env.Get("gen") == l.nsrv && !strings.HasPrefix(pluginName(p.Name), "odd") {
			out = append(out, p)
		}
	}
	return out
}

func (l *Lab) installPlugins() {
	l.W.Ext.Set("pluginmain", plugin.Start(func(p string) func() {
		for _, n := range l.Cfg.Plugins {
			if "/opt/plugins/"+n == p && !strings.HasPrefix(n, "broken") {
				gen := l.nsrv
				return func() {
					simrt.ProcOf().Env.Set("gen", gen)
					if strings.HasPrefix(n, "odd") {
						// A plugin for something else.
						plugin.Serve(&plugin.ServeConfig{})
						return
					}
					if n == "fail2lock.treeplugin" {
						simrt.NoYield(func() { reinit("/plugins/tree/fail2lock") })
						mains["fail2lock"]()
						simos.Exit(0)
					}
					tree.PluginMain(simPlugin{pluginName(p)})
				}
			}
		}
		return nil
	}))
}

// pluginState is what a request could see of the plugins.
type pluginState struct {
	loaded []string
	dead   bool
}

func (l *Lab) pluginState() pluginState {
	var s pluginState
	for _, p := range l.plugins() {
		s.loaded = append(s.loaded, pluginName(p.Name))
		s.dead = s.dead || p.Dead
	}
	sort.Strings(s.loaded)
	return s
}

// actions lists what plugins are asked about in the course of a
// request.
func (o *Op) actions(self bool) []string {
	switch o.K {
	case "EntityCreate", "EntityUpdate", "EntityLock", "EntityUnlock", "EntityDestroy", "GroupCreate", "GroupUpdate", "GroupDestroy":
		return []string{o.K}
	case "EntityUM":
		if o.Act != "READ" {
			return []string{"EntityUpdate"}
		}
	case "GroupUM":
		if o.Act != "READ" {
			return []string{"GroupUpdate"}
		}
	case "AuthEntity", "AuthGetToken":
		return []string{"PreAuthCheck", "PostAuthCheck"}
	case "AuthChangeSecret":
		if self {
			return []string{"PreAuthCheck", "PostAuthCheck", "PreSecretChange", "PostSecretChange"}
		}
		return []string{"PreSecretChange", "PostSecretChange"}
	}
	return nil
}

// withPlugins amends what a request may do by what plugins do.
func (m *Model) withPlugins(r *Rec, st *St, stage int) []Next {
	acts := r.Op.actions(r.Tok != nil && r.Tok.E == r.Op.E)
	if len(r.plug0.loaded) == 0 || len(acts) == 0 {
		return m.step1(r, st, stage)
	}
	if r.plug0.loaded[0] == "fail2lock" {
		return m.withFail2lock(r, st, stage, acts)
	}
	if len(acts) == 4 {
		return m.ownSecret(r, st, stage, acts)
	}
	rec := r.Op.E
	if rec == "" {
		rec = r.Op.G
	}
	veto := r.plug0.dead
	for _, p := range r.plug0.loaded {
		for _, a := range acts {
			veto = veto || (simPlugin{p}).vetoes(a, rec)
		}
	}
	may := !r.plug0.dead && r.plug1.dead
	var out []Next
	refused := func() {
		switch {
		case r.Out.Unknown:
			out = append(out, Next{st: st, done: true})
		case r.Out.Code == cInt, r.Out.Code == cUnauth && strings.HasPrefix(r.Op.K, "Auth"):
			out = append(out, Next{st: st, done: true})
		}
	}
	for _, n := range m.step1(r, st, stage) {
		ok := r.Out.Code == cOK
		if r.Out.Unknown {
			ok = n.st != st
		}
		if !ok {
			out = append(out, n)
			if !r.Out.Unknown {
				continue
			}
			// It may have succeeded without a change of its own.
		}
		if veto {
			continue
		}
		if n.st.E[rec] != nil && r.Op.E != "" {
			n.st = n.st.editE(rec, func(e *types.Entity) {
				for _, p := range r.plug0.loaded {
					for _, a := range acts {
						simPlugin{p}.editE(a, e)
					}
				}
			})
		} else if n.st.G[rec] != nil && r.Op.E == "" {
			n.st = n.st.editG(rec, func(g *types.Group) {
				for _, p := range r.plug0.loaded {
					for _, a := range acts {
						simPlugin{p}.editG(a, g)
					}
				}
			})
		}
		out = append(out, n)
	}
	if veto || may {
		refused()
	}
	return out
}

// ownSecret is the change of one's own secret, with plugins.  What
// they're asked while the current secret is checked is separate from
// what they're asked when the new one is set, and so other requests
// may come in between.
func (m *Model) ownSecret(r *Rec, st *St, stage int, acts []string) []Next {
	acts = acts[2*stage : 2*stage+2]
	edit := func(e *types.Entity) {
		for _, p := range r.plug0.loaded {
			for _, a := range acts {
				simPlugin{p}.editE(a, e)
			}
		}
	}
	veto := r.plug0.dead
	for _, p := range r.plug0.loaded {
		for _, a := range acts {
			veto = veto || (simPlugin{p}).vetoes(a, r.Op.E)
		}
	}
	may := !r.plug0.dead && r.plug1.dead
	var out []Next
	if veto || may {
		switch r.Out.Code {
		case cInt, cUnauth:
			out = append(out, Next{st: st, done: true})
		default:
			if r.Out.Unknown {
				out = append(out, Next{st: st, done: true})
			}
		}
	}
	if stage == 1 {
		if !veto && st.E[r.Op.E] != nil && m.match(r, cOK, "*", false) {
			out = append(out, Next{st: st.editE(r.Op.E, func(e *types.Entity) {
				e.Secret = sp(r.Op.S)
				edit(e)
			}), done: true})
		}
		return out
	}
	for _, n := range m.step1(r, st, 0) {
		if r.Out.Code != cOK || r.Out.Unknown && n.st == st {
			out = append(out, n)
		}
	}
	c := *r
	c.Out = Out{Unknown: true}
	for _, n := range m.step1(&c, st, 0) {
		if !veto && n.st != st {
			out = append(out, Next{st: st.editE(r.Op.E, edit), stage: 1})
			break
		}
	}
	return out
}

// health is one subsystem's true state.
type health struct {
	at  int
	ok  map[string]bool
	tok []bool
}

func (l *Lab) keyModeOK(f string, mode os.FileMode) bool {
	n, err := l.FS.Walk(conf+"/keys/"+f, true)
	return err == nil && n != nil && n.Mode.Perm() == mode
}

func (s *session) noteHealth() {
	l := s.l
	h := health{at: l.tick(), ok: map[string]bool{}}
	// What makes up the token service is looked at piece by piece.
	h.tok = []bool{s.hasKey, l.keyModeOK("token.pem", 0644), l.keyModeOK("token.key", 0400)}
	h.ok["TKN_JWT-RSA"] = h.tok[0] && h.tok[1] && h.tok[2]
	for _, p := range l.Cfg.Plugins {
		h.ok["plugin-"+pluginName(p)] = false
	}
	for _, p := range l.plugins() {
		if !p.Dead {
			h.ok["plugin-"+pluginName(p.Name)] = true
		}
	}
	s.health = append(s.health, h)
}

// doX performs an action on the machine itself.
func (l *Lab) doX(op *Op, s *session) *Rec {
	r := &Rec{Op: op, Inv: l.tick(), Srv: l.nsrv, Phase: s.phase, Call: &grpc.Call{Delivered: true, Finished: true}}
	simrt.Cur().Do("harness", func() {
		f := strings.Fields(op.X)
		kp := func(n string) string { return conf + "/keys/" + n }
		switch f[0] {
		case "chmod":
			if n, err := l.FS.Walk(kp(f[1]), true); err == nil && n != nil {
				var m uint32
				fmt.Sscanf(f[2], "%o", &m)
				n.Mode = os.FileMode(m)
			}
		case "rm":
			l.FS.Unlink(kp(f[1]))
		case "mv":
			l.FS.Rename(kp(f[1]), kp(f[2]))
		case "restore":
			if d, ok := s.keep[f[1]]; ok {
				l.FS.Unlink(kp(f[1]))
				l.FS.MustWrite(kp(f[1]), d, map[string]os.FileMode{"token.pem": 0644, "token.key": 0400}[f[1]])
			}
		case "killplugin":
			ps := l.plugins()
			if len(ps) > 0 {
				ps[len(f[1])%len(ps)].Kill()
			}
		default:
			panic("doX: " + op.X)
		}
		s.noteHealth()
	})
	r.Ret = l.tick()
	s.hist = append(s.hist, r)
	return r
}

func (s *session) keepKeys() {
	s.keep = map[string][]byte{}
	for _, f := range []string{"token.pem", "token.key"} {
		if d, ok := s.l.readFile(conf + "/keys/" + f); ok {
			s.keep[f] = d
		}
	}
}

// pair reads the key pair on the disk: whether each file is there,
// complete and of the right mode, and whether they match.
type pair struct {
	pub, priv         []byte
	pubOK, privOK     bool
	pubMode, privMode bool
	match             bool
}

func (p pair) String() string {
	return fmt.Sprintf("public: %d bytes, usable %v, mode right %v; private: %d bytes, usable %v, mode right %v; matching %v",
		len(p.pub), p.pubOK, p.pubMode, len(p.priv), p.privOK, p.privMode, p.match)
}

func (l *Lab) pair() pair {
	var p pair
	var n string
	p.pub, _ = l.readFile(conf + "/keys/token.pem")
	p.priv, _ = l.readFile(conf + "/keys/token.key")
	p.pubMode, p.privMode = l.keyModeOK("token.pem", 0644), l.keyModeOK("token.key", 0400)
	if b, _ := pem.Decode(p.pub); b != nil {
		if k, err := x509.ParsePKIXPublicKey(b.Bytes); err == nil {
			_, p.pubOK = k.(*rsa.PublicKey)
			n = fmt.Sprint(k)
		}
	}
	if b, _ := pem.Decode(p.priv); b != nil {
		if k, err := x509.ParsePKCS1PrivateKey(b.Bytes); err == nil {
			p.privOK = true
			p.match = p.pubOK && fmt.Sprint(&k.PublicKey) == n
		}
	}
	return p
}

func init() {
	add := func(prop, name string, h Handler) {
		handlers[name] = h
		kinds[prop] = append(kinds[prop], kindW{name, 1})
	}

	add("H01", "h01", Handler{Run: func(s *session) {
		l := s.l
		l.installPlugins()
		if !s.setup() {
			return
		}
		s.keepKeys()
		load := func() {
			// Whether a signing key was there when the server started.
			s.hasKey = l.pair().match
			s.noteHealth()
		}
		load()
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			was := ""
			if ph.Note == "status" {
				was = l.image()
			}
			if !s.clients(ph) {
				return
			}
			if ph.Note == "status" && l.image() != was {
				s.fail("state", "status requests changed files")
				return
			}
			if ph.Restart != "" {
				l.Kill()
				e := l.Start("", false)
				if e == "exit 1" && !l.keyModeOK("token.pem", 0644) {
					// It refuses to start without a public key.
					for _, f := range []string{"token.pem", "token.key"} {
						l.FS.Unlink(conf + "/keys/" + f)
						l.FS.MustWrite(conf+"/keys/"+f, s.keep[f], map[string]os.FileMode{"token.pem": 0644, "token.key": 0400}[f])
					}
					e = l.Start("", false)
				}
				if !s.started(e) {
					return
				}
				load()
			}
		}
		s.checkHealth()
		s.judge()
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.schedule()
		if r.p(0.6) {
			pool := []string{"null-a", "mark-b", "null-c", "shell-d"}
			for i := 0; i < 1+r.n(3); i++ {
				sc.Cfg.Plugins = append(sc.Cfg.Plugins, pool[i]+".treeplugin")
			}
			if r.p(0.25) {
				sc.Cfg.Plugins = append(sc.Cfg.Plugins, "broken-e.treeplugin")
			}
		}
		sc.Cfg.NoGen = r.p(0.0)
		g.world(0.5, nil, 0)
		f := func() string { return r.of("token.pem", "token.key") }
		act := func() *Op {
			o := &Op{ID: g.next(), K: "Do"}
			switch r.n(8) {
			case 0, 1:
				o.X = "chmod " + f() + " " + r.of("644", "400", "600", "640", "444", "000", "755", "1644", "4400")
			case 2:
				o.X = "rm " + f()
			case 3, 4, 5:
				o.X = "restore " + f()
			case 6:
				a, b := "token.pem", "aside"
				if r.p(0.5) {
					a, b = b, a
				}
				o.X = "mv " + a + " " + b
			case 7:
				o.X = "killplugin " + r.of("a", "aa", "aaa")
				if len(sc.Cfg.Plugins) == 0 || r.p(0.4) {
					o.X = "restore " + f()
				}
			}
			return o
		}
		status := func(n int) []*Op {
			var l []*Op
			for i := 0; i < n; i++ {
				l = append(l, &Op{ID: g.next(), K: "SystemStatus"})
			}
			return l
		}
		for i := 0; i < 2+r.n(4); i++ {
			ph := &Phase{}
			if r.p(0.4) {
				ph.Clients = [][]*Op{status(1 + r.n(3)), status(r.n(3)), {act(), act()}}
			} else {
				ph.Clients = [][]*Op{{act(), status(1)[0], act(), status(1)[0]}}
			}
			if r.p(0.3) {
				ph.Clients = append(ph.Clients, []*Op{{ID: g.next(), K: "AuthEntity", E: "root", S: "rootpw"}, {ID: g.next(), K: "EntityInfo", E: "root"}})
			}
			if r.p(0.2) {
				ph.Restart = "kill"
			}
			sc.Phases = append(sc.Phases, ph, &Phase{Note: "status", Clients: [][]*Op{status(2)}})
		}
	}})

	add("P01", "p01", Handler{Run: func(s *session) {
		s.l.installPlugins()
		s.standard(true)
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		pool := []string{"null-a", "mark-b", "mark-c", "shell-d", "veto-e", "null-f", "lock-g", "markauth-h",
			"veto" + strings.ToLower(r.of("EntityCreate", "EntityUpdate", "EntityLock", "EntityUnlock", "EntityDestroy", "GroupCreate", "GroupUpdate", "GroupDestroy",
				"PreSecretChange", "PostSecretChange", "PreAuthCheck", "PostAuthCheck")) + "-i"}
		var ps []string
		for i := 0; i < 1+r.n(3); i++ {
			p := r.of(pool...) + ".treeplugin"
			if !has(ps, p) {
				ps = append(ps, p)
			}
		}
		// The first server runs without plugins, later ones with them.
		g.ents, g.groups = []string{"alice", "victor", "bob"}[:2+r.n(2)], []string{"g1", "vg", "g2"}[:2+r.n(2)]
		g.secrets = g.secrets[:2]
		g.world(0.7, W{"GroupAddMember": 2, "SystemCapabilities": 1, "EntityKeys": 1, "EntityKVAdd": 1, "GroupKVAdd": 1, "EntityUM": 1}, r.n(6))
		g.login()
		g.rootP = 0.9
		w := plus(W{"EntityCreate": 5, "EntityUpdate": 4, "EntityUM": 4, "EntityLock": 3, "EntityUnlock": 2, "EntityDestroy": 3, "AuthEntity": 4, "AuthGetToken": 2, "AuthChangeSecret": 3,
			"AuthChangeSecret/self": 3, "GroupCreate": 4, "GroupUpdate": 4, "GroupUM": 4, "GroupDestroy": 3, "EntityInfo": 1, "GroupInfo": 1, "GroupAddMember": 1, "EntityKeys": 1, "EntityKVAdd": 1, "GroupUpdateRules": 1})
		for _, p := range ps {
			if strings.HasPrefix(p, "markauth") {
				// Authentication changes the record there.
				delete(w, "AuthChangeSecret/self")
				w["AuthChangeSecret"] = 0
			}
		}
		sc.Phases = append(sc.Phases, &Phase{Restart: r.of("stop", "kill"), Plugins: ps})
		kill := r.p(0.4)
		if r.p(0.2) {
			sc.Prof.P["P.start"] = 0.3
			sc.Phases[0].FaultStart = true
		}
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{Clients: g.clients(w, 1+r.n(3), 4)}
			if kill {
				sc.Prof.P["P.kill"], sc.Prof.P["P.killafter"] = 0.06, 0.06
				ph.Faults = []string{"P.kill", "P.killafter"}
			}
			if r.p(0.25) {
				ph.Restart = r.of("stop", "kill", "settle")
				if r.p(0.3) {
					ph.Crash = r.logn(300)
				}
			}
			sc.Phases = append(sc.Phases, ph)
		}
		if r.p(0.3) {
			sc.Phases = append(sc.Phases, &Phase{Restart: "kill", Plugins: []string{}, NoPlugins: true}, &Phase{Clients: g.clients(w, 1, 4)})
		}
	}})
}

// image is the whole content of the disk.
func (l *Lab) image() string {
	var b strings.Builder
	for _, e := range l.FS.Dump("/") {
		fmt.Fprintf(&b, "%s %v %x\n", e.Path, e.Mode, e.Data)
	}
	return b.String()
}

// checkHealth compares every status answer with the true state at some
// moment during the request.
func (s *session) checkHealth() {
	for _, r := range s.hist {
		if r.Op.K != "SystemStatus" || r.Out.Unknown {
			continue
		}
		st := r.reply.(*rpc.ServerStatus)
		if r.Out.Code != cOK {
			s.fail("status", "status request #%d is answered with %s", r.Op.ID, r.Out)
			return
		}
		// The states in force while it ran.
		var poss []health
		for i, h := range s.health {
			if h.at < r.Ret && (i+1 == len(s.health) || s.health[i+1].at > r.Inv) {
				poss = append(poss, h)
			}
		}
		seen := map[string]bool{}
		all := true
		for _, sub := range st.GetSubSystems() {
			n := sub.GetName()
			if seen[n] {
				s.fail("status", "status #%d lists %s twice", r.Op.ID, n)
			}
			seen[n] = true
			all = all && sub.GetOK()
			ok := false
			for _, h := range poss {
				v, known := h.ok[n]
				ok = ok || known && v == sub.GetOK()
			}
			if n == "TKN_JWT-RSA" && sub.GetOK() && !ok {
				ok = true
				for i := range poss[0].tok {
					once := false
					for _, h := range poss {
						once = once || h.tok[i]
					}
					ok = ok && once
				}
			}
			if !ok {
				s.fail("status", "status #%d reports %s healthy=%v (%s); the truth is %v", r.Op.ID, n, sub.GetOK(), sub.GetFaultMessage(), poss)
			}
		}
		for n := range poss[0].ok {
			if !seen[n] {
				s.fail("status", "status #%d does not list %s", r.Op.ID, n)
			}
		}
		if st.GetSystemOK() != all {
			s.fail("status", "status #%d: system healthy=%v, all subsystems healthy=%v", r.Op.ID, st.GetSystemOK(), all)
		}
		if all != (st.GetFirstFailure() == nil) {
			s.fail("status", "status #%d: healthy=%v, first failure %v", r.Op.ID, all, st.GetFirstFailure())
		}
		if f := st.GetFirstFailure(); f != nil {
			hit := false
			for _, sub := range st.GetSubSystems() {
				hit = hit || sub.GetName() == f.GetName() && !sub.GetOK() && !f.GetOK() && sub.GetFaultMessage() == f.GetFaultMessage()
			}
			if !hit {
				s.fail("status", "status #%d names %q as first failure, which is not listed as failing", r.Op.ID, f.GetName())
			}
		}
		s.mark("status")
	}
}

var _ = bytes.Equal
