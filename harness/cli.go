package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/dgrijalva/jwt-go"
	"github.com/golang/protobuf/proto"
	types "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
	"github.com/spf13/afero"
	"github.com/spf13/pflag"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	cviper "github.com/netauth/netauth/internal/zzcli/viper"

	grpc "verif.local/sim/simgrpc"
	simos "verif.local/sim/simos"
	"verif.local/sim/simrt"
	simtime "verif.local/sim/simtime"
)

// The command line client runs as a process of its own next to the
// server.  What a command stands for is stated here, independently of
// the client: the request (Sub), made by entity E who presents secret S
// (or types Tty).

// Two names of the one server, and the addresses the client then has.
var cliReads, cliWrites string

var cliHosts = [][2]string{{"replica", "master"}, {"10.0.0.7", "10.0.0.8"}, {"localhost", "127.0.0.1"}, {"replica", "127.0.0.1"}}

// setHosts names the server.
func (l *Lab) setHosts() {
	h, p := cliHosts[l.Cfg.Hosts], l.Cfg.Port
	if p == 0 {
		p = 1729
	}
	cliReads, cliWrites = fmt.Sprintf("%s:%d", h[0], p), fmt.Sprintf("%s:%d", h[1], p)
	l.W.Ext.Set("alias:"+cliReads, addr)
	l.W.Ext.Set("alias:"+cliWrites, addr)
}

// plan is what a command must do.
type plan struct {
	args  []string
	op    *Op  // the request, nil: none
	tok   bool // it carries a token
	write bool
	bad   bool // malformed
	sec   bool // the request contains the presented secret
	ask   int  // secrets that have to be typed before anything else
}

// call is an observed request.
type call struct {
	target, method, auth string
	req                  proto.Message
	rec                  *Rec
	err                  error
	done                 bool
}

// cliRun is one execution.
type cliRun struct {
	op       *Op
	p        *simrt.Proc
	calls    []*call
	out, err strings.Builder
	clk0     int64
	clk1     int64
	faults   bool
}

// style decides between spellings.
func (o *Op) style(bit uint) bool { return o.Style>>bit&1 == 1 }

func (o *Op) verb(v string) string {
	if o.style(0) {
		return strings.ToLower(v)
	}
	if o.style(1) {
		return strings.ToUpper(v[:1]) + strings.ToLower(v[1:])
	}
	return strings.ToUpper(v)
}

// cliPlan states what op stands for.
func cliPlan(op *Op) *plan {
	p := &plan{}
	if op.List != nil {
		p.args, p.bad = op.List, true
		return p
	}
	s := op.Sub
	if s == nil {
		return nil
	}
	c := *s
	c.Tok, c.Save, c.At = "", "", 0
	p.op = &c
	var flags []string
	cmd := func(words string, pos ...string) {
		p.args = append(strings.Fields(words), flags...)
		if op.E != "" {
			p.args = append(p.args, "--entity="+op.E)
		}
		if op.S != "" {
			p.args = append(p.args, "--secret="+op.S)
		}
		if op.style(3) {
			p.args = append(p.args, "--config=/home/operator/netauth.toml")
		}
		dash := op.style(2)
		for _, x := range pos {
			if strings.HasPrefix(x, "-") {
				dash = true
			}
		}
		if dash && len(pos) > 0 {
			p.args = append(p.args, "--")
		}
		p.args = append(p.args, pos...)
	}
	flag := func(n, v string) { flags = append(flags, "--"+n+"="+v) }
	fields := func() {
		if op.Fields != "" {
			flag("fields", op.Fields)
		}
	}
	change := func() { p.tok, p.write = true, true }
	switch s.K {
	case "EntityCreate":
		change()
		if s.N != nil && (*s.N != -1 || op.style(4)) {
			flag("number", fmt.Sprint(*s.N))
		} else {
			c.N = np(-1)
		}
		if s.S != "" || op.style(5) {
			flag("initial-secret", s.S)
		} else {
			p.ask = 1
		}
		cmd("entity create", s.E)
	case "EntityDestroy", "EntityLock", "EntityUnlock":
		change()
		cmd("entity "+strings.ToLower(s.K[len("Entity"):]), s.E)
	case "EntityInfo":
		fields()
		cmd("entity info", s.E)
	case "EntityGroups":
		fields()
		cmd("entity memberships", s.E)
	case "EntitySearch":
		fields()
		cmd("entity search", s.X)
	case "GroupSearch":
		fields()
		cmd("group search", s.X)
	case "EntityUpdate":
		change()
		m := s.Ent.GetMeta()
		for _, f := range []struct {
			n string
			v *string
		}{{"primary-group", metaP(m, 0)}, {"GECOS", metaP(m, 1)}, {"legalName", metaP(m, 2)}, {"displayName", metaP(m, 3)},
			{"homedir", metaP(m, 4)}, {"shell", metaP(m, 5)}, {"graphicalShell", metaP(m, 6)}, {"badgeNumber", metaP(m, 7)}} {
			if f.v != nil {
				flag(f.n, *f.v)
			}
		}
		cmd("entity update", s.E)
	case "EntityUM", "GroupUM":
		w, id := "entity kv", s.E
		if s.K == "GroupUM" {
			w, id = "group kv", s.G
		}
		pos := []string{id, op.verb(s.Act), s.Key}
		if s.Act == "UPSERT" {
			pos = append(pos, s.Val)
		} else {
			c.Val = ""
		}
		if s.Act != "READ" {
			change()
		}
		cmd(w, pos...)
	case "EntityKeys":
		if s.E != op.E || op.style(4) {
			flag("entityID", s.E)
		}
		pos := []string{op.verb(s.Act)}
		switch s.Act {
		case "ADD":
			pos = append(pos, s.Key, s.Val)
		case "DROP":
			c.Key = ""
			pos = append(pos, s.Val)
		case "READ":
			c.Key, c.Val = "SSH", ""
			if s.Key != "" {
				c.Key = strings.ToUpper(s.Key)
				pos = append(pos, s.Key)
			}
		}
		if s.Act != "READ" {
			change()
		}
		cmd("entity key", pos...)
	case "EntityKVGet", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace":
		kind, id := "entity", s.E
		if strings.HasPrefix(s.K, "Group") {
			kind, id = "group", s.G
		}
		verb := s.K[strings.Index(s.K, "KV")+2:]
		pos := []string{op.verb(kind), id, s.Key}
		c.Vals = nil
		if verb == "Add" || verb == "Replace" {
			for i, v := range s.Vals {
				c.Vals = append(c.Vals, KVV{V: v.V, I: int32(i)})
				pos = append(pos, v.V)
			}
		}
		if verb != "Get" {
			change()
		}
		cmd("kv2 "+strings.ToLower(verb), pos...)
	case "GroupCreate":
		change()
		if s.N != nil && (*s.N != -1 || op.style(4)) {
			flag("number", fmt.Sprint(*s.N))
		} else {
			c.N = np(-1)
		}
		if s.DN != "" {
			flag("display-name", s.DN)
		}
		if s.MB != "" {
			flag("managed-by", s.MB)
		}
		cmd("group create", s.G)
	case "GroupDestroy":
		change()
		cmd("group destroy", s.G)
	case "GroupInfo", "GroupMembers":
		fields()
		cmd("group "+strings.ToLower(s.K[len("Group"):]), s.G)
	case "GroupUpdate":
		change()
		if s.Grp != nil && s.Grp.DisplayName != nil {
			flag("display-name", s.Grp.GetDisplayName())
		}
		if s.Grp != nil && s.Grp.ManagedBy != nil {
			flag("managed-by", s.Grp.GetManagedBy())
		}
		cmd("group update", s.G)
	case "GroupUpdateRules":
		change()
		v := s.Act
		if v == "REMOVE_RULE" {
			v = "DROP"
		}
		cmd("group rule", s.G, op.verb(v), s.T)
	case "GroupAddMember", "GroupDelMember":
		change()
		v := "ADD"
		if s.K == "GroupDelMember" {
			v = "DROP"
		}
		c.Gs = s.Gs[:1]
		cmd("entity membership", s.E, op.verb(v), s.Gs[0])
	case "SystemCapabilities":
		change()
		id := s.G
		if s.E != "" {
			id = s.E
			flags = append(flags, "--direct")
		}
		capab := s.Cap
		if op.style(5) {
			capab = strings.ToLower(capab)
		}
		cmd("system capability", id, op.verb(s.Act), capab)
	case "SystemPing", "SystemStatus":
		cmd("system " + strings.ToLower(s.K[len("System"):]))
	case "AuthEntity":
		c.E = op.E
		p.sec = true
		cmd("auth check")
	case "AuthGetToken":
		p.op, p.tok = nil, true
		cmd("auth get-token")
	case "inspect":
		p.op, p.tok = nil, true
		cmd("auth inspect-token")
	case "destroy":
		p.op = nil
		cmd("auth destroy-token")
	case "AuthValidateToken":
		p.tok = true
		cmd("auth validate-token")
	case "AuthChangeSecret":
		change()
		c.S2 = ""
		if s.E != op.E || op.style(4) {
			flag("csEntity", s.E)
		}
		if !op.style(5) {
			flag("csSecret", s.S)
		}
		cmd("auth change-secret")
	default:
		return nil
	}
	return p
}

// metaP is the n-th field of metadata, nil if absent.
func metaP(m *types.EntityMeta, n int) *string {
	if m == nil {
		return nil
	}
	return []*string{m.PrimaryGroup, m.GECOS, m.LegalName, m.DisplayName, m.Home, m.Shell, m.GraphicalShell, m.BadgeNumber}[n]
}

// cliBoot is boot for the client, whose packages have a state of their
// own.
func (l *Lab) cliBoot(r *cliRun, args []string) {
	pflag.CommandLine = pflag.NewFlagSet("netauth", pflag.ContinueOnError)
	pflag.CommandLine.SetOutput(devNull{})
	cviper.Reset()
	m := afero.NewMemMapFs()
	c := fmt.Sprintf("[core]\nserver=%q\n", host(cliReads))
	if !r.op.style(6) {
		c += fmt.Sprintf("master=%q\n", host(cliWrites))
	}
	if l.Cfg.Port != 0 {
		c += fmt.Sprintf("port=%d\n", l.Cfg.Port)
	}
	c += l.cliTLS(r.op)
	afero.WriteFile(m, conf+"/config.toml", []byte(c), 0644)
	afero.WriteFile(m, "/home/operator/netauth.toml", []byte(c), 0644)
	cviper.SetFs(m)
	os.Args = append([]string{"netauth"}, args...)
	simos.Args = os.Args
	jwt.TimeFunc = simtime.Now
	cobraInitializers = nil
	for _, f := range cliReinits {
		f()
	}
}

type devNull struct{}

func (devNull) Write(b []byte) (int, error) { return len(b), nil }

// doCLI runs a command to its end and checks what it did.
func (l *Lab) doCLI(op *Op, s *session) {
	pl := cliPlan(op)
	if pl == nil {
		return
	}
	w := l.W
	t := simrt.Cur()
	p := l.proc(fmt.Sprintf("cli%d", op.ID))
	r := &cliRun{op: op, p: p}
	p.Env.Set("faults", true)
	p.Env.Set("user", "operator")
	p.Env.Set("tty", func() *[]string { x := append([]string(nil), op.Tty...); return &x }())
	p.ClockOff = s.sc.Num["cliskew"] * 1e9
	if op.KillAt > 0 {
		n := op.KillAt
		p.Env.Set("killat", &n)
	}
	p.Env.Set("observer", grpc.Observer(func(target, method string, md metadata.MD, args, reply proto.Message, c *grpc.Call) func(error) {
		x := &call{target: target, method: method[strings.LastIndex(method, "/")+1:], req: proto.Clone(args)}
		if a := md.Get("authorization"); len(a) > 0 {
			x.auth = a[0]
		}
		x.rec = &Rec{Op: &Op{ID: op.ID, K: x.method}, Ret: pending, Call: c, Srv: l.nsrv, Phase: s.phase, RO: l.Cfg.ReadOnly}
		x.rec.Out.Unknown = true
		x.rec.Inv = l.tick()
		x.rec.clk0 = w.Wall(l.Srv).Unix()
		x.rec.plug0 = l.pluginState()
		if x.auth != "" {
			x.rec.Tok = parseToken(x.auth)
		}
		r.calls = append(r.calls, x)
		s.classify(r, pl, x)
		s.hist = append(s.hist, x.rec)
		return func(err error) {
			x.done, x.err = true, err
			rec := x.rec
			rec.clk1 = w.Wall(l.Srv).Unix()
			rec.plug1 = l.pluginState()
			rec.reply = proto.Clone(reply)
			st, _ := status.FromError(err)
			rec.Out.Code, rec.Out.Msg = st.Code(), st.Message()
			if !c.Delivered || c.Srv == s.evil {
				rec.Never = true
				return
			}
			if !c.Finished || c.Cut {
				return
			}
			rec.Out.Unknown = false
			rec.Ret = l.tick()
			if err == nil {
				rec.Out.Resp = proto.CompactTextString(reply)
				rec.Out.Body = canonReply(rec.Op, reply)
				if a, ok := reply.(*rpc.AuthResult); ok {
					rec.New = parseToken(a.GetToken())
					rec.Out.Body = "token " + rec.New.E + " [" + strings.Join(rec.New.Caps, ",") + "]"
				}
			}
		}
	}))
	simos.Captured = func(q *simrt.Proc, fd int, b []byte) {
		if q == p && fd == 1 {
			r.out.Write(b)
		} else if q == p {
			r.err.Write(b)
		}
	}
	dev0 := len(w.Devs)
	r.clk0 = w.Wall(p).Unix()
	name := fmt.Sprintf("cli.o%d", op.ID)
	w.StartProc(p, name, func() {
		simrt.NoYield(func() { l.cliBoot(r, pl.args) })
		mains["netauth"]()
		simos.Exit(0)
	})
	t.WaitFor("cli", func() bool { return p.Dead })
	r.clk1 = w.Wall(p).Unix()
	simos.Captured = nil
	for _, x := range r.calls {
		if !x.done && !x.rec.Call.Delivered {
			x.rec.Never, x.rec.Ret = true, l.tick()
		}
	}
	for _, d := range w.Devs[dev0:] {
		if strings.HasPrefix(d.Kind, "F.") && (d.Task == name || strings.HasPrefix(d.Task, name+"/")) {
			r.faults = true
		}
	}
	s.mark("cli-commands")
	if p.Panic != "" {
		s.fail("client-panic", "client %q: %s", pl.args, p.Panic)
		return
	}
	if !p.Exited {
		s.mark("cli-killed")
	}
	s.checkWire(r, pl)
	if !s.checkCut(r, pl) {
		s.checkCLI(r, pl)
	}
}

// norm makes absent and empty fields equal.
func norm(m proto.Message) string {
	m = proto.Clone(m)
	e := func(p **string) {
		if *p != nil && **p == "" {
			*p = nil
		}
	}
	ent := func(x *types.Entity) {
		if x == nil {
			return
		}
		e(&x.ID)
		e(&x.Secret)
		if x.Meta != nil && proto.Size(x.Meta) == 0 {
			x.Meta = nil
		}
	}
	grp := func(x *types.Group, upd bool) {
		if x == nil {
			return
		}
		e(&x.Name)
		if !upd {
			e(&x.DisplayName)
			e(&x.ManagedBy)
		}
	}
	switch x := m.(type) {
	case *rpc.EntityRequest:
		ent(x.Entity)
		ent(x.Data)
	case *rpc.AuthRequest:
		ent(x.Entity)
		e(&x.Secret)
		e(&x.Token)
	case *rpc.GroupRequest:
		grp(x.Group, x.Group.GetNumber() == 0)
	case *rpc.KVRequest:
		e(&x.Target)
		e(&x.Key)
		e(&x.Value)
	case *rpc.KV2Request:
		e(&x.Target)
		if x.Data != nil {
			e(&x.Data.Key)
			for _, v := range x.Data.Values {
				e(&v.Value)
				if v.Index != nil && *v.Index == 0 {
					v.Index = nil
				}
			}
		}
	case *rpc.SearchRequest:
		e(&x.Expression)
	}
	return fmt.Sprintf("%T %s", m, proto.CompactTextString(m))
}

// presented is the secret the command presents, given how many were
// typed before.
func (o *Op) presented(typed int) (string, bool) {
	if o.S != "" {
		return o.S, true
	}
	if typed < len(o.Tty) {
		return o.Tty[typed], true
	}
	return "", false
}

// complete fills in the parts of the request that are typed; ok is
// false if something could not be typed, and typed is how much was.
func (pl *plan) complete(op *Op) (req *Op, typed int, ok bool) {
	if pl.op == nil {
		return nil, 0, true
	}
	c := *pl.op
	next := func() (string, bool) {
		if typed < len(op.Tty) {
			typed++
			return op.Tty[typed-1], true
		}
		return "", false
	}
	pres := func() (string, bool) {
		if op.S != "" {
			return op.S, true
		}
		return next()
	}
	ok = true
	switch {
	case pl.sec:
		c.S, ok = pres()
	case pl.ask > 0:
		c.S, ok = next()
	case c.K == "AuthChangeSecret":
		if c.E == op.E {
			c.S2, ok = pres()
		}
		if ok && (op.style(5) || c.S == "") {
			a, ok1 := next()
			b, ok2 := next()
			if !ok1 || !ok2 || a != b {
				return &c, typed, false
			}
			c.S = a
		}
	}
	return &c, typed, ok
}

// classify finds out which request a call is meant to be.
func (s *session) classify(r *cliRun, pl *plan, x *call) {
	req, typed, _ := pl.complete(r.op)
	if x.method == "AuthGetToken" {
		sec, _ := r.op.presented(typed)
		o := &Op{ID: r.op.ID, K: "AuthGetToken", E: r.op.E, S: sec}
		x.rec.Op = o
		if norm(x.req) != norm(o.request()) {
			s.cliFail(r, pl, "asks for a token with %s", norm(x.req))
		}
		return
	}
	if req != nil && x.method == req.K {
		o := *req
		o.ID = r.op.ID
		if pl.tok {
			o.Tok = "cli"
		}
		want := o.request()
		if o.K == "AuthValidateToken" {
			a := x.req.(*rpc.AuthRequest)
			x.rec.Tok = parseToken(a.GetToken())
			want.(*rpc.AuthRequest).Token = a.Token
		}
		x.rec.Op = &o
		if norm(x.req) != norm(want) {
			s.cliFail(r, pl, "sends\n  %s\ninstead of\n  %s", norm(x.req), norm(want))
		}
		return
	}
	if req != nil && req.K == "GroupInfo" && x.method == "GroupSearch" {
		// How it looks for what it has to print is its own business.
		x.rec.Op = &Op{ID: r.op.ID, K: "GroupSearch", X: x.req.(*rpc.SearchRequest).GetExpression(), Note: "any"}
		return
	}
	s.cliFail(r, pl, "sends the request %s %s", x.method, norm(x.req))
}

func (s *session) cliFail(r *cliRun, pl *plan, f string, a ...interface{}) {
	how := "running"
	if r.p.Exited {
		how = fmt.Sprintf("exit status %d", r.p.ExitCode)
	} else if r.p.Dead {
		how = "killed"
	}
	s.fail("client", "netauth %q: %s\n%s; printed %q %q", pl.args, fmt.Sprintf(f, a...), how, cut(r.out.String()), cut(r.err.String()))
}

func cut(x string) string {
	if len(x) > 400 {
		return x[:400] + "..."
	}
	return x
}

// usable tells whether the client must consider a token valid.
func (r *cliRun) usable(t *Token) tri {
	if t == nil || !t.OK || t.Foreign || r.op.style(3) {
		return no
	}
	in := func(c int64) bool { return t.Nbf <= c && c <= t.Exp }
	a, b := in(r.clk0), in(r.clk1)
	switch {
	case a && b:
		return yes
	case !a && !b:
		return no
	}
	return maybe
}

// checkCLI judges an execution.
func (s *session) checkCLI(r *cliRun, pl *plan) {
	fail := func(f string, a ...interface{}) { s.cliFail(r, pl, f, a...) }
	op := r.op
	killed := !r.p.Exited
	zero := r.p.Exited && r.p.ExitCode == 0
	calls := r.calls
	if pl.bad {
		if len(calls) > 0 {
			fail("sends %s although the command is malformed", calls[0].method)
		}
		if zero {
			fail("exit status 0 although the command is malformed")
		}
		return
	}
	req, typed, ok := pl.complete(op)
	if !ok {
		if len(calls) > 0 {
			fail("sends %s although no secret was given", calls[0].method)
		} else if zero {
			fail("exit status 0 although no secret was given")
		}
		return
	}
	if s.cache == nil {
		s.cache = map[string][]*Token{}
	}
	cached, known := s.cache[op.E]
	if !known {
		cached = []*Token{nil}
	}
	if op.Sub.K == "destroy" {
		if len(calls) > 0 {
			fail("sends %s", calls[0].method)
		}
		if zero {
			s.cache[op.E] = []*Token{nil}
		} else {
			s.cache[op.E] = append([]*Token{nil}, cached...)
			if !killed && !r.faults {
				fail("could not remove the token")
			}
		}
		return
	}
	var tok []*Token // what may be used
	unsure := false  // there may be neither a token nor a secret
	if pl.tok {
		must, may := yes, no // a cached token has to be used, can be used
		for _, t := range cached {
			u := r.usable(t)
			if u < must {
				must = u
			}
			if u != no {
				may = yes
				tok = append(tok, t)
			}
		}
		if len(calls) > 0 && calls[0].method == "AuthGetToken" {
			c := calls[0]
			calls = calls[1:]
			if must == yes && !r.faults && op.Sub.K != "AuthGetToken" {
				fail("asks for a token although a valid one is cached")
			}
			if _, ok := op.presented(typed); !ok {
				fail("asks for a token without a secret")
			}
			if !c.done || c.err != nil {
				if len(calls) > 0 {
					fail("sends %s although no token was obtained", calls[0].method)
				}
				if zero {
					fail("exit status 0 although no token was obtained: %v", c.err)
				}
				if c.err != nil && !killed && r.out.Len()+r.err.Len() == 0 {
					fail("does not tell the error")
				}
				return
			}
			tok = []*Token{c.rec.New}
			stored := !killed && !r.faults
			if len(calls) > 0 || zero {
				stored = true
			}
			if stored {
				s.cache[op.E] = tok
			} else {
				s.cache[op.E] = append([]*Token{c.rec.New}, cached...)
				if len(calls) == 0 && !zero {
					return // could not be cached
				}
			}
		} else if may == no || op.Sub.K == "AuthGetToken" && len(calls) == 0 && must != yes {
			if len(calls) > 0 {
				fail("sends %s without a token", calls[0].method)
			} else if zero {
				fail("exit status 0 without a token")
			} else if _, ok := op.presented(typed); ok && !killed && !r.faults {
				fail("did not ask for a token")
			}
			return
		} else if _, ok := op.presented(typed); !ok && must != yes && len(calls) == 0 {
			unsure = true
		}
	}
	if unsure && !zero {
		return
	}
	if req == nil {
		if len(calls) > 0 {
			fail("sends %s", calls[0].method)
		}
		if !zero && !killed && !r.faults {
			if op.Sub.K == "inspect" && (op.style(3) || r.usable(tok[0]) != yes) {
				return // can not be verified here
			}
			if _, ok := op.presented(typed); !ok {
				return // it may insist on a new one
			}
			fail("exit status %d although a token was obtained", r.p.ExitCode)
		}
		if zero && op.Sub.K == "inspect" {
			s.checkInspect(r, pl, tok)
		}
		return
	}
	if len(calls) == 0 {
		if zero {
			fail("exit status 0 although nothing was sent")
		} else if !killed && !r.faults {
			fail("sends nothing")
		}
		return
	}
	c := calls[0]
	if c.method != req.K {
		fail("sends %s first", c.method)
		return
	}
	for _, x := range calls[1:] {
		if req.K != "GroupInfo" || x.method != "GroupSearch" {
			fail("sends also %s", x.method)
			return
		}
	}
	if pl.tok {
		got := c.auth
		if req.K == "AuthValidateToken" {
			got = c.rec.Tok.Str
		}
		found := false
		for _, t := range tok {
			if t != nil && t.Str == got {
				found = true
				s.cache[op.E] = []*Token{t}
			}
		}
		if !found {
			fail("sends another token than the caller's")
		}
	}
	want := cliReads
	if pl.write && !op.style(6) {
		want = cliWrites
	}
	if c.target != want {
		fail("sends %s to %s instead of %s", c.method, c.target, want)
	}
	if killed {
		return
	}
	if c.err != nil || !c.done {
		if zero {
			fail("exit status 0 although the answer was %v", c.err)
		}
		if r.out.Len()+r.err.Len() == 0 && req.K != "AuthEntity" {
			fail("does not tell the error %v", c.err)
		}
		return
	}
	if !zero {
		if req.K == "EntityInfo" && len(c.rec.reply.(*rpc.ListOfEntities).GetEntities()) == 0 {
			return
		}
		fail("exit status %d although the server acknowledged", r.p.ExitCode)
		return
	}
	s.checkOutput(r, pl, c, calls[1:])
}

func (s *session) checkInspect(r *cliRun, pl *plan, tok []*Token) {
	for _, t := range tok {
		if t == nil {
			continue
		}
		l := []string{fmt.Sprintf("This token was issued to '%s'", t.E), " Capabilities:"}
		if t.E == "" {
			l[1] = ""
		}
		for _, c := range t.Caps {
			l = append(l, "  - "+c)
		}
		if sameLines(r.out.String(), strings.Join(l, "\n")+"\n") {
			return
		}
	}
	s.cliFail(r, pl, "prints something else than the token says")
}

func sameLines(a, b string) bool {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, "\n") == strings.Join(y, "\n")
}

var umIdx = regexp.MustCompile(`\{([0-9]+)\}$`)

// indexed is a value with its place.
type indexed struct {
	i int
	v string
}

// inPlace renders values in their order, and tells whether that order
// is unambiguous.
func inPlace(vs []indexed) (string, bool) {
	vs = append([]indexed(nil), vs...)
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].i < vs[j].i })
	exact := true
	var b strings.Builder
	for i, v := range vs {
		if i > 0 && v.i == vs[i-1].i {
			exact = false
		}
		fmt.Fprintf(&b, "  %s\n", v.v)
	}
	return b.String(), exact
}

func showE(e *types.Entity, fields string) string {
	if fields == "" {
		fields = "ID,number,PrimaryGroup,GECOS,legalName,displayName,homedir,shell,graphicalShell,badgeNumber,capabilities"
	}
	m := e.GetMeta()
	var b strings.Builder
	opt := func(l, v string) {
		if v != "" {
			fmt.Fprintf(&b, "%s: %s\n", l, v)
		}
	}
	for _, f := range strings.Split(strings.ToLower(fields), ",") {
		switch f {
		case "id":
			fmt.Fprintf(&b, "ID: %s\n", e.GetID())
		case "number":
			fmt.Fprintf(&b, "Number: %d\n", e.GetNumber())
		case "primarygroup":
			opt("Primary Group", m.GetPrimaryGroup())
		case "gecos":
			opt("GECOS", m.GetGECOS())
		case "legalname":
			opt("legalName", m.GetLegalName())
		case "displayname":
			opt("displayname", m.GetDisplayName())
		case "homedir":
			opt("homedir", m.GetHome())
		case "shell":
			opt("shell", m.GetShell())
		case "graphicalshell":
			opt("graphicalShell", m.GetGraphicalShell())
		case "badgenumber":
			opt("badgeNumber", m.GetBadgeNumber())
		case "capabilities":
			for i, c := range m.GetCapabilities() {
				if i == 0 {
					b.WriteString("Capabilities (Direct):\n")
				}
				fmt.Fprintf(&b, "  - %s\n", c)
			}
		}
	}
	return b.String()
}

func showG(g *types.Group, fields string) string {
	if fields == "" {
		fields = "name,displayName,number,managedBy,rules,capabilities"
	}
	var b strings.Builder
	for _, f := range strings.Split(strings.ToLower(fields), ",") {
		switch f {
		case "name":
			fmt.Fprintf(&b, "Name: %s\n", g.GetName())
		case "displayname":
			fmt.Fprintf(&b, "Display Name: %s\n", g.GetDisplayName())
		case "number":
			fmt.Fprintf(&b, "Number: %d\n", g.GetNumber())
		case "managedby":
			if g.GetManagedBy() != "" {
				fmt.Fprintf(&b, "Managed By: %s\n", g.GetManagedBy())
			}
		case "rules":
			for _, x := range g.GetExpansions() {
				fmt.Fprintf(&b, "Rule: %s\n", x)
			}
		case "capabilities":
			for i, c := range g.GetCapabilities() {
				if i == 0 {
					b.WriteString("Capabilities:\n")
				}
				fmt.Fprintf(&b, "  - %s\n", c)
			}
		}
	}
	return b.String()
}

// checkOutput compares what was printed with what was answered.
func (s *session) checkOutput(r *cliRun, pl *plan, c *call, more []*call) {
	op := r.op
	out := r.out.String()
	exact := true
	var want strings.Builder
	switch rep := c.rec.reply.(type) {
	case *rpc.ListOfEntities:
		es := rep.GetEntities()
		if c.method == "EntityInfo" && len(es) > 1 {
			es = es[:1]
		}
		for i, e := range es {
			if i > 0 && c.method == "EntitySearch" {
				want.WriteString("---\n")
			}
			want.WriteString(showE(e, op.Fields))
		}
	case *rpc.ListOfGroups:
		for i, g := range rep.GetGroups() {
			if i > 0 {
				want.WriteString("---\n")
			}
			want.WriteString(showG(g, op.Fields))
		}
		if c.method == "GroupInfo" {
			s.checkManaged(r, pl, c, want.String())
			return
		}
	case *rpc.ListOfStrings:
		key := pl.op.Key
		if pl.op.Act != "READ" {
			return
		}
		vals := map[string][]indexed{}
		var order []string
		for _, x := range rep.GetStrings() {
			k, v := firstColon(x)
			i := -1
			if m := umIdx.FindStringSubmatch(k); m != nil {
				i, _ = strconv.Atoi(m[1])
				k = umIdx.ReplaceAllString(k, "")
			}
			if _, ok := vals[k]; !ok {
				order = append(order, k)
			}
			vals[k] = append(vals[k], indexed{i, v})
		}
		if key != "*" {
			order = []string{key}
		}
		exact = len(order) == 1
		for _, k := range order {
			t, ex := inPlace(vals[k])
			exact = exact && ex
			want.WriteString(k + ":\n" + t)
		}
	case *rpc.ListOfKVData:
		exact = len(rep.GetKVData()) == 1
		for _, d := range rep.GetKVData() {
			var vs []indexed
			for _, v := range d.GetValues() {
				vs = append(vs, indexed{int(v.GetIndex()), v.GetValue()})
			}
			t, ex := inPlace(vs)
			exact = exact && ex
			want.WriteString(d.GetKey() + "\n" + t)
		}
	case *rpc.ServerStatus:
		st := map[bool]string{true: "[PASS]", false: "[FAIL]"}
		if !strings.HasPrefix(out, "Server Status: "+st[rep.GetSystemOK()]+"\n") {
			s.cliFail(r, pl, "prints another status than %v", rep)
		}
		for _, x := range rep.GetSubSystems() {
			found := false
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, st[x.GetOK()]) && strings.Contains(l, x.GetName()) && strings.HasSuffix(l, x.GetFaultMessage()) {
					found = true
				}
			}
			if !found {
				s.cliFail(r, pl, "does not print the status of %s", x.GetName())
			}
		}
		return
	default:
		return
	}
	s.mark("cli-output")
	if out != want.String() && (exact || !sameLines(out, want.String())) {
		s.cliFail(r, pl, "prints something else than\n%s", cut(want.String()))
	}
}

// checkManaged checks the output of group info, which lists the groups
// that are managed by the group.
func (s *session) checkManaged(r *cliRun, pl *plan, c *call, want string) {
	out := r.out.String()
	if !strings.HasPrefix(out, want) {
		s.cliFail(r, pl, "prints something else than\n%s", cut(want))
		return
	}
	if r.op.Note != "quiet" {
		return
	}
	var must []string
	for _, g := range r.op.Gs {
		rec := s.l.do(&Op{ID: r.op.ID, K: "GroupInfo", G: g}, s)
		if rec.Out.Unknown {
			return
		}
		if rep, ok := rec.reply.(*rpc.ListOfGroups); ok && len(rep.GetGroups()) > 0 && rep.GetGroups()[0].GetManagedBy() == c.rec.Op.G {
			must = append(must, "  - "+rep.GetGroups()[0].GetName())
		}
	}
	for _, x := range r.calls[1:] {
		if x.err != nil {
			return
		}
	}
	if len(must) > 0 {
		must = append(must, "The following groups are managed by this group:")
		s.mark("cli-managed")
	}
	rest := strings.TrimPrefix(out, want)
	exp := strings.Join(must, "\n")
	if exp != "" {
		exp += "\n"
	}
	if !sameLines(rest, exp) {
		s.cliFail(r, pl, "lists other managed groups than\n%s", exp)
	}
}
