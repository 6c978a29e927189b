package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"regexp"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"

	types "github.com/netauth/protocol"
)

// St is a state of the reference model.  It is immutable.  Secrets
// are kept in plain text.
type St struct {
	E map[string]*types.Entity
	G map[string]*types.Group
	F *fails
	k string
}

var canonCache = map[proto.Message]string{}

func fullE(e *types.Entity) string {
	s, ok := canonCache[e]
	if !ok {
		s = canonE(e) + fmt.Sprintf(" secret=%q", e.GetSecret())
		canonCache[e] = s
	}
	return s
}

func fullG(g *types.Group) string {
	s, ok := canonCache[g]
	if !ok {
		s = canonG(g)
		canonCache[g] = s
	}
	return s
}

func (s *St) key() string {
	if s.k == "" {
		h := fnv.New128a()
		for _, n := range s.enames() {
			h.Write([]byte(fullE(s.E[n])))
			h.Write([]byte{0})
		}
		h.Write([]byte{1})
		for _, n := range s.gnames() {
			h.Write([]byte(fullG(s.G[n])))
			h.Write([]byte{0})
		}
		s.F.sum(h)
		s.k = string(h.Sum(nil))
	}
	return s.k
}

func (s *St) enames() []string {
	var l []string
	for n := range s.E {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (s *St) gnames() []string {
	var l []string
	for n := range s.G {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (s *St) String() string {
	var b strings.Builder
	for _, n := range s.enames() {
		b.WriteString("  E " + fullE(s.E[n]) + "\n")
	}
	for _, n := range s.gnames() {
		b.WriteString("  G " + fullG(s.G[n]) + "\n")
	}
	return b.String()
}

func newSt() *St { return &St{E: map[string]*types.Entity{}, G: map[string]*types.Group{}} }

// withE returns a state in which e replaces the entity of that name;
// nil removes it.
func (s *St) withE(n string, e *types.Entity) *St {
	c := &St{E: make(map[string]*types.Entity, len(s.E)+1), G: s.G, F: s.F}
	for k, v := range s.E {
		c.E[k] = v
	}
	if e == nil {
		delete(c.E, n)
	} else {
		c.E[n] = e
	}
	return c
}

func (s *St) withG(n string, g *types.Group) *St {
	c := &St{G: make(map[string]*types.Group, len(s.G)+1), E: s.E, F: s.F}
	for k, v := range s.G {
		c.G[k] = v
	}
	if g == nil {
		delete(c.G, n)
	} else {
		c.G[n] = g
	}
	return c
}

func (s *St) editE(n string, f func(e *types.Entity)) *St {
	e := proto.Clone(s.E[n]).(*types.Entity)
	if e.Meta == nil {
		e.Meta = &types.EntityMeta{}
	}
	f(e)
	return s.withE(n, e)
}

func (s *St) editG(n string, f func(g *types.Group)) *St {
	g := proto.Clone(s.G[n]).(*types.Group)
	f(g)
	return s.withG(n, g)
}

func has(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func without(l []string, x string) []string {
	var out []string
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

// rules splits the rules of a group.
func rules(g *types.Group) (inc, exc []string) {
	for _, x := range g.GetExpansions() {
		if strings.HasPrefix(x, "INCLUDE:") {
			inc = append(inc, x[8:])
		} else if strings.HasPrefix(x, "EXCLUDE:") {
			exc = append(exc, x[8:])
		}
	}
	return
}

// member is the defined meaning of membership.
func (s *St) member(e *types.Entity, g string) bool {
	grp := s.G[g]
	if grp == nil {
		return false
	}
	in := has(e.GetMeta().GetGroups(), g)
	inc, exc := rules(grp)
	for _, i := range inc {
		in = in || s.member(e, i)
	}
	for _, x := range exc {
		in = in && !s.member(e, x)
	}
	return in
}

func (s *St) groupsOf(e string) []string {
	var out []string
	ent := s.E[e]
	if ent == nil {
		return nil
	}
	for _, g := range s.gnames() {
		if s.member(ent, g) {
			out = append(out, g)
		}
	}
	return out
}

func (s *St) membersOf(g string) []string {
	var out []string
	for _, e := range s.enames() {
		if s.member(s.E[e], g) {
			out = append(out, e)
		}
	}
	return out
}

func (s *St) capsOf(e string) []string {
	m := map[string]bool{}
	for _, c := range caps(s.E[e].GetMeta().GetCapabilities()) {
		m[c] = true
	}
	for _, g := range s.groupsOf(e) {
		for _, c := range caps(s.G[g].GetCapabilities()) {
			m[c] = true
		}
	}
	var out []string
	for c := range m {
		out = append(out, c)
	}
	sort.Strings(out)
	return out
}

// reaches tells whether rules lead from a to b.
func (s *St) reaches(a, b string, seen map[string]bool) bool {
	if a == b {
		return true
	}
	if seen[a] || s.G[a] == nil {
		return false
	}
	seen[a] = true
	inc, exc := rules(s.G[a])
	for _, t := range append(inc, exc...) {
		if s.reaches(t, b, seen) {
			return true
		}
	}
	return false
}

// dangling tells whether rules lead from a to a missing group.
func (s *St) dangling(a string, seen map[string]bool) bool {
	if s.G[a] == nil {
		return true
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	inc, exc := rules(s.G[a])
	for _, t := range append(inc, exc...) {
		if s.dangling(t, seen) {
			return true
		}
	}
	return false
}

func (s *St) maxE() int32 {
	var m int32
	for _, e := range s.E {
		if e.GetNumber() > m {
			m = e.GetNumber()
		}
	}
	return m
}

func (s *St) maxG() int32 {
	var m int32
	for _, g := range s.G {
		if g.GetNumber() > m {
			m = g.GetNumber()
		}
	}
	return m
}

// Next is a possible continuation of an op.
type Next struct {
	st    *St
	done  bool
	stage int
}

// Model decides which answers and effects are allowed.
type Model struct {
	Bcrypt bool
	AnyErr bool // any error answer stands for any other
	f2l    *SrvCfg
}

const (
	cOK     = codes.OK
	cNF     = codes.NotFound
	cEx     = codes.AlreadyExists
	cInt    = codes.Internal
	cPerm   = codes.PermissionDenied
	cUnauth = codes.Unauthenticated
	cMal    = codes.InvalidArgument
	cRO     = codes.Unimplemented
)

func (m *Model) match(r *Rec, c codes.Code, body string, weak bool) bool {
	o := &r.Out
	if o.Unknown {
		return true
	}
	if o.Code != c {
		return m.AnyErr && o.Code != cOK && c != cOK
	}
	if c != cOK || weak && r.Loose {
		return true
	}
	return body == "*" || body == o.Body
}

// faulty tells whether the answer may be due to an injected fault.
func faulty(r *Rec) bool {
	if !r.Fault || r.Out.Unknown {
		return false
	}
	switch r.Out.Code {
	case cInt:
		return true
	case cUnauth:
		return strings.HasPrefix(r.Op.K, "Auth")
	case cPerm:
		return true
	}
	return false
}

// step returns how op r may continue from state st, given what was
// answered.
func (m *Model) step(r *Rec, st *St, stage int) []Next {
	if faulty(r) {
		c := *r
		c.Out = Out{Unknown: true}
		n := m.withPlugins(&c, st, stage)
		return append(n, Next{st: st, done: true})
	}
	return m.withPlugins(r, st, stage)
}

func (m *Model) step1(r *Rec, st *St, stage int) []Next {
	op := r.Op
	var out []Next
	fin := func(c codes.Code) {
		if m.match(r, c, "", false) {
			out = append(out, Next{st: st, done: true})
		}
	}
	read := func(body string, weak bool) {
		if m.match(r, cOK, body, weak) {
			out = append(out, Next{st: st, done: true})
		}
	}
	eff := func(n *St) {
		if m.match(r, cOK, "*", false) {
			out = append(out, Next{st: n, done: true})
		}
	}
	// auth returns false if the request is refused.
	checkTok := func() codes.Code {
		if r.RO {
			return cRO
		}
		if op.Tok == "" || r.Tok == nil || r.Tok.Str == "" {
			return cMal
		}
		switch r.Tok.valid(r) {
		case no:
			return cUnauth
		case maybe:
			if o := &r.Out; o.Unknown {
				out = append(out, Next{st: st, done: true})
			} else if o.Code == cUnauth {
				return cUnauth
			}
		}
		return cOK
	}
	// Where the token expires or becomes valid during the request,
	// either is right.
	auth := func(capa string) bool {
		c := checkTok()
		if c == cOK && !has(r.Tok.Caps, capa) && !has(r.Tok.Caps, "GLOBAL_ROOT") {
			c = cPerm
		}
		if c != cOK {
			fin(c)
			return false
		}
		return true
	}
	// authG also accepts a delegated manager of all the groups.
	authG := func(capa string, groups ...string) bool {
		c := checkTok()
		if c != cOK {
			fin(c)
			return false
		}
		if has(r.Tok.Caps, capa) || has(r.Tok.Caps, "GLOBAL_ROOT") {
			return true
		}
		for _, group := range groups {
			mb := st.G[group].GetManagedBy()
			if mb != "" && st.E[r.Tok.E] != nil && st.member(st.E[r.Tok.E], mb) {
				continue
			}
			fin(cPerm)
			return r.LooseAuth // authority may have changed while it was checked
		}
		if r.LooseAuth {
			fin(cPerm)
		}
		return true
	}
	bad := func(n string) bool { return badName(n) }
	e, g := st.E[op.E], st.G[op.G]
	needE := func() bool {
		if e == nil {
			if oddName(op.E) {
				fin(cInt)
			}
			fin(cNF)
			return false
		}
		return true
	}
	needG := func() bool {
		if g == nil {
			if oddName(op.G) {
				fin(cInt)
			}
			fin(cNF)
			return false
		}
		return true
	}

	switch op.K {
	case "Bootstrap":
		n := st
		if e == nil {
			n = st.withE(op.E, &types.Entity{ID: sp(op.E), Number: np(st.maxE() + 1)})
		}
		n = n.editE(op.E, func(e *types.Entity) {
			e.Secret = sp(op.S)
			e.Meta.Locked = proto.Bool(false)
			for _, c := range e.Meta.Capabilities {
				if c == types.Capability_GLOBAL_ROOT {
					return
				}
			}
			e.Meta.Capabilities = append(e.Meta.Capabilities, types.Capability_GLOBAL_ROOT)
		})
		eff(n)

	case "EntityCreate":
		if !auth("CREATE_ENTITY") {
			break
		}
		if bad(op.E) {
			fin(cInt)
			break
		}
		if e != nil {
			fin(cEx)
			break
		}
		if m.unfit(op.S) {
			fin(cInt)
			break
		}
		n := int32(0)
		if op.N != nil {
			n = *op.N
		}
		if n == -1 {
			if st.maxE() == math.MaxInt32 {
				fin(cInt)
				break
			}
			n = st.maxE() + 1
		}
		if oddName(op.E) {
			fin(cInt)
		}
		eff(st.withE(op.E, &types.Entity{ID: sp(op.E), Number: &n, Secret: sp(op.S)}))

	case "EntityUpdate":
		if !auth("MODIFY_ENTITY_META") || !needE() {
			break
		}
		eff(st.editE(op.E, func(e *types.Entity) {
			s, d := op.Ent.GetMeta(), e.Meta
			if s == nil {
				return
			}
			for _, f := range []struct{ s, d **string }{
				{&s.PrimaryGroup, &d.PrimaryGroup}, {&s.GECOS, &d.GECOS}, {&s.LegalName, &d.LegalName},
				{&s.DisplayName, &d.DisplayName}, {&s.Home, &d.Home}, {&s.Shell, &d.Shell},
				{&s.GraphicalShell, &d.GraphicalShell}, {&s.BadgeNumber, &d.BadgeNumber},
			} {
				if *f.s != nil {
					*f.d = sp(**f.s)
				}
			}
		}))

	case "EntityInfo":
		if needE() {
			read(canonE(e), false)
		}

	case "EntitySearch":
		read(m.search(st, op, true), true)
	case "GroupSearch":
		if op.Note == "any" {
			out = append(out, Next{st: st, done: true})
			break
		}
		read(m.search(st, op, false), true)

	case "EntityUM", "GroupUM":
		if !has([]string{"READ", "UPSERT", "CLEAREXACT", "CLEARFUZZY"}, op.Act) {
			fin(cMal)
			break
		}
		ent := op.K == "EntityUM"
		if op.Act != "READ" {
			if ent && !auth("MODIFY_ENTITY_META") {
				break
			}
			if !ent {
				if !authG("MODIFY_GROUP_META", op.G) {
					break
				}
			}
		}
		if ent && !needE() || !ent && !needG() {
			break
		}
		um := e.GetMeta().GetUntypedMeta()
		if !ent {
			um = g.GetUntypedMeta()
		}
		if op.Act == "READ" {
			read(fmt.Sprintf("%q", umRead(um, op.Key)), false)
			break
		}
		um = umEdit(um, op.Act, op.Key, *op.val())
		if ent {
			eff(st.editE(op.E, func(e *types.Entity) { e.Meta.UntypedMeta = um }))
		} else {
			eff(st.editG(op.G, func(g *types.Group) { g.UntypedMeta = um }))
		}

	case "EntityKVGet", "GroupKVGet":
		kv := e.GetMeta().GetKV()
		if op.K[0] == 'E' {
			if !needE() {
				break
			}
		} else {
			if !needG() {
				break
			}
			kv = g.GetKV()
		}
		if op.Key == "*" {
			read(canonKV(kv), false)
			break
		}
		var hit []*types.KVData
		for _, d := range kv {
			if d.GetKey() == op.Key {
				hit = append(hit, d)
			}
		}
		if hit == nil {
			fin(cNF)
			break
		}
		read(canonKV(hit), false)

	case "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "GroupKVAdd", "GroupKVDel", "GroupKVReplace":
		ent := op.K[0] == 'E'
		if ent && (!auth("MODIFY_ENTITY_META") || !needE()) {
			break
		}
		if !ent && (!auth("MODIFY_GROUP_META") || !needG()) {
			break
		}
		kv := e.GetMeta().GetKV()
		if !ent {
			kv = g.GetKV()
		}
		if op.Key == "\x00nil" {
			fin(cInt)
			break
		}
		var rest []*types.KVData
		for _, d := range kv {
			if d.GetKey() != op.Key {
				rest = append(rest, d)
			}
		}
		present := len(rest) != len(kv)
		if strings.HasSuffix(op.K, "KVAdd") {
			if present {
				fin(cEx)
				break
			}
			rest = append(rest, op.kvdata())
		} else {
			if !present {
				fin(cNF)
				break
			}
			if strings.HasSuffix(op.K, "KVReplace") {
				rest = append(rest, op.kvdata())
			}
		}
		if ent {
			eff(st.editE(op.E, func(e *types.Entity) { e.Meta.KV = rest }))
		} else {
			eff(st.editG(op.G, func(g *types.Group) { g.KV = rest }))
		}

	case "EntityKeys":
		if !has([]string{"READ", "ADD", "DROP"}, op.Act) {
			if op.Act == "" { // unset means ADD
				op.Act = "ADD"
			} else {
				fin(cMal)
				break
			}
		}
		if op.Act == "READ" {
			if needE() {
				read(fmt.Sprintf("%q", sorted(e.GetMeta().GetKeys())), false)
			}
			break
		}
		if c := checkTok(); c != cOK {
			fin(c)
			break
		}
		if r.Tok.E != op.E && !has(r.Tok.Caps, "MODIFY_ENTITY_KEYS") && !has(r.Tok.Caps, "GLOBAL_ROOT") {
			fin(cPerm)
			break
		}
		if !needE() {
			break
		}
		k := strings.ToUpper(op.Key) + ":" + op.Val
		eff2 := st.editE(op.E, func(e *types.Entity) {
			var l []string
			kt, kv := firstColon(k)
			for _, x := range e.Meta.Keys {
				xt, xv := firstColon(x)
				drop := x == k
				if op.Act == "DROP" {
					drop = drop || kv == "" && kt != "" && xt == kt || kt == "" && kv != "" && xv == kv
				}
				if !drop {
					l = append(l, x)
				}
			}
			if op.Act == "ADD" {
				l = append(l, k)
			}
			e.Meta.Keys = l
		})
		if m.match(r, cOK, "*", false) {
			out = append(out, Next{st: eff2, done: true})
		}

	case "EntityDestroy":
		if auth("DESTROY_ENTITY") && needE() {
			eff(st.withE(op.E, nil))
		}
	case "EntityLock":
		if auth("LOCK_ENTITY") && needE() {
			eff(st.editE(op.E, func(e *types.Entity) { e.Meta.Locked = proto.Bool(true) }))
		}
	case "EntityUnlock":
		if auth("UNLOCK_ENTITY") && needE() {
			eff(st.editE(op.E, func(e *types.Entity) { e.Meta.Locked = proto.Bool(false) }))
		}

	case "EntityGroups":
		if !needE() {
			break
		}
		var l []string
		for _, n := range st.groupsOf(op.E) {
			l = append(l, canonG(st.G[n]))
		}
		read(strings.Join(sorted(l), " | "), true)

	case "GroupMembers":
		var l []string
		for _, n := range st.membersOf(op.G) {
			l = append(l, canonE(st.E[n]))
		}
		read(strings.Join(sorted(l), " | "), true)

	case "AuthEntity":
		if e != nil && !e.GetMeta().GetLocked() && m.same(e.GetSecret(), op.S) {
			read("", false)
		} else {
			fin(cUnauth)
		}
	case "AuthGetToken":
		if e != nil && !e.GetMeta().GetLocked() && m.same(e.GetSecret(), op.S) {
			read("token "+op.E+" ["+strings.Join(st.capsOf(op.E), ",")+"]", true)
		} else {
			fin(cUnauth)
		}
	case "AuthValidateToken":
		v := no
		if r.Tok != nil {
			v = r.Tok.valid(r)
		}
		if v != no {
			read("", false)
		}
		if v != yes {
			fin(cUnauth)
		}

	case "AuthChangeSecret":
		if c := checkTok(); c != cOK {
			fin(c)
			break
		}
		if r.Tok.E == op.E {
			if e == nil || e.GetMeta().GetLocked() || !m.same(e.GetSecret(), op.S2) {
				if e == nil && r.Loose {
					fin(cInt)
				}
				fin(cUnauth)
				break
			}
		} else if !has(r.Tok.Caps, "CHANGE_ENTITY_SECRET") && !has(r.Tok.Caps, "GLOBAL_ROOT") {
			fin(cPerm)
			break
		}
		if e == nil {
			fin(cInt)
			break
		}
		if m.unfit(op.S) {
			fin(cInt)
			break
		}
		eff(st.editE(op.E, func(e *types.Entity) { e.Secret = sp(op.S) }))

	case "GroupCreate":
		if !auth("CREATE_GROUP") {
			break
		}
		if bad(op.G) {
			fin(cInt)
			break
		}
		if g != nil {
			fin(cEx)
			break
		}
		if op.MB != "" && op.MB != op.G && st.G[op.MB] == nil {
			fin(cInt)
			break
		}
		n := int32(0)
		if op.N != nil {
			n = *op.N
		}
		if n == -1 {
			if st.maxG() == math.MaxInt32 {
				fin(cInt)
				break
			}
			n = st.maxG() + 1
		}
		if oddName(op.G) {
			fin(cInt)
		}
		ng := &types.Group{Name: sp(op.G), Number: &n, DisplayName: sp(op.DN)}
		if op.MB != "" {
			ng.ManagedBy = sp(op.MB)
		}
		eff(st.withG(op.G, ng))

	case "GroupUpdate":
		if !authG("MODIFY_GROUP_META", op.G) || !needG() {
			break
		}
		eff(st.editG(op.G, func(g *types.Group) {
			if op.Grp.GetDisplayName() != "" || op.Grp != nil && op.Grp.DisplayName != nil {
				g.DisplayName = sp(op.Grp.GetDisplayName())
			}
			if op.Grp != nil && op.Grp.ManagedBy != nil {
				g.ManagedBy = sp(op.Grp.GetManagedBy())
			}
		}))

	case "GroupInfo":
		if needG() {
			read(canonG(g), false)
		}

	case "GroupUpdateRules":
		if !authG("MODIFY_GROUP_META", op.G) || !needG() {
			break
		}
		inc, exc := rules(g)
		if op.Act == "REMOVE_RULE" {
			eff(st.editG(op.G, func(g *types.Group) {
				g.Expansions = without(without(g.Expansions, "INCLUDE:"+op.T), "EXCLUDE:"+op.T)
			}))
			break
		}
		if st.G[op.T] == nil {
			// Refused; as what depends on the order of checks.
			if m.match(r, cNF, "", false) || m.match(r, cInt, "", false) {
				out = append(out, Next{st: st, done: true})
			}
			break
		}
		if !has(inc, op.T) && !has(exc, op.T) && st.dangling(op.T, map[string]bool{}) {
			// A rule of the target names a group that does not
			// exist, so cycles can not be ruled out.
			fin(cInt)
			fin(cNF)
			break
		}
		if has(inc, op.T) || has(exc, op.T) || st.reaches(op.T, op.G, map[string]bool{}) {
			fin(cInt)
			break
		}
		x := "INCLUDE:"
		if op.Act == "EXCLUDE" {
			x = "EXCLUDE:"
		}
		eff(st.editG(op.G, func(g *types.Group) { g.Expansions = append(g.Expansions, x+op.T) }))

	case "GroupAddMember", "GroupDelMember":
		if !authG("MODIFY_GROUP_MEMBERS", op.Gs...) {
			break
		}
		if len(op.Gs) == 0 {
			eff(st)
			break
		}
		if e == nil {
			fin(cInt)
			break
		}
		eff(st.editE(op.E, func(e *types.Entity) {
			for _, gn := range op.Gs {
				l := without(e.Meta.Groups, gn)
				if op.K == "GroupAddMember" && gn != "" {
					l = append(l, gn)
				}
				e.Meta.Groups = l
			}
		}))

	case "GroupDestroy":
		if auth("DESTROY_GROUP") && needG() {
			eff(st.withG(op.G, nil))
		}

	case "SystemCapabilities":
		if !auth("GLOBAL_ROOT") {
			break
		}
		if op.E == "" && op.G == "" || op.Act != "ADD" && op.Act != "DROP" {
			fin(cMal)
			break
		}
		if op.Cap == "" || op.E != "" && e == nil || op.E == "" && g == nil {
			fin(cInt)
			break
		}
		c := *capOf(op.Cap)
		edit := func(l []types.Capability) []types.Capability {
			var o []types.Capability
			for _, x := range l {
				if x != c {
					o = append(o, x)
				}
			}
			if op.Act == "ADD" {
				o = append(o, c)
			}
			return o
		}
		if op.E != "" {
			eff(st.editE(op.E, func(e *types.Entity) { e.Meta.Capabilities = edit(e.Meta.Capabilities) }))
		} else {
			eff(st.editG(op.G, func(g *types.Group) { g.Capabilities = edit(g.Capabilities) }))
		}

	case "Do":
		read("*", false)
	case "SystemPing":
		read("", false)
	case "SystemStatus":
		read("*", false)
	default:
		panic("model: " + op.K)
	}
	return out
}

// unfit tells which secrets bcrypt can not keep apart from others.
func (m *Model) unfit(x string) bool {
	return m.Bcrypt && (len(x) > 72 || strings.Contains(x, "\x00"))
}

// same tells whether a secret is accepted for the stored one.
func (m *Model) same(stored, given string) bool {
	if m.Bcrypt && len(given) > 72 {
		given = given[:72]
	}
	return stored == given
}

type tri int

const (
	no tri = iota
	maybe
	yes
)

// valid tells whether the token must be accepted by the server that
// served r.
func (t *Token) valid(r *Rec) tri {
	if !t.OK || t.Foreign {
		return no
	}
	in := func(c int64) bool { return t.Nbf <= c && c <= t.Exp }
	a, b := in(r.clk0), in(r.clk1)
	switch {
	case a && b:
		return yes
	case !a && !b:
		return no
	}
	return maybe
}

// badName tells which names can not be those of records.
func badName(n string) bool {
	return n == "" || n == "." || n == ".." || strings.Contains(n, "/")
}

// oddName tells which names a storage may be unable to represent.
func oddName(n string) bool { return len(n) > 200 || strings.Contains(n, "\x00") }

var umIndex = regexp.MustCompile(`\{[0-9]+\}`)

func firstColon(x string) (a, b string) {
	i := strings.IndexByte(x, ':')
	if i < 0 {
		return x, ""
	}
	return x[:i], x[i+1:]
}

func umKey(kv string) string { return strings.SplitN(kv, ":", 2)[0] }

func umRead(um []string, key string) []string {
	var out []string
	for _, x := range um {
		if key == "*" || umIndex.ReplaceAllString(umKey(x), "") == umIndex.ReplaceAllString(key, "") {
			out = append(out, x)
		}
	}
	return sorted(out)
}

func umEdit(um []string, act, key, val string) []string {
	var out []string
	for _, x := range um {
		k := umKey(x)
		if act == "CLEARFUZZY" {
			if umIndex.ReplaceAllString(k, "") != umIndex.ReplaceAllString(key, "") {
				out = append(out, x)
			}
		} else if k != key {
			out = append(out, x)
		}
	}
	if act == "UPSERT" {
		out = append(out, key+":"+val)
	}
	return sorted(out)
}
