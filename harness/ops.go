package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	types "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"

	grpc "verif.local/sim/simgrpc"
)

// KVV is a value of a key/value pair.
type KVV struct {
	V string `json:"v"`
	I int32  `json:"i,omitempty"`
}

// Op is one request of a scenario.
type Op struct {
	ID   int           `json:"id"`
	K    string        `json:"k"`             // method
	Tok  string        `json:"tok,omitempty"` // token slot
	E    string        `json:"e,omitempty"`   // entity
	G    string        `json:"g,omitempty"`   // group
	N    *int32        `json:"n,omitempty"`
	S    string        `json:"s,omitempty"`  // secret
	S2   string        `json:"s2,omitempty"` // current secret
	Act  string        `json:"act,omitempty"`
	Key  string        `json:"key,omitempty"`
	Val  string        `json:"val,omitempty"`
	Rep  int           `json:"rep,omitempty"` // how often the value is repeated
	Vals []KVV         `json:"vals,omitempty"`
	Cap  string        `json:"cap,omitempty"`
	MB   string        `json:"mb,omitempty"`
	DN   string        `json:"dn,omitempty"`
	Gs   []string      `json:"gs,omitempty"`
	T    string        `json:"t,omitempty"` // rule target
	Ent  *types.Entity `json:"ent,omitempty"`
	Grp  *types.Group  `json:"grp,omitempty"`
	X    string        `json:"x,omitempty"`
	Want string        `json:"want,omitempty"` // what a search must find: field=value
	Save string        `json:"save,omitempty"`
	Raw  []byte        `json:"raw,omitempty"` // marshalled message instead of the fields
	Note string        `json:"note,omitempty"`
	At   int64         `json:"at,omitempty"`  // virtual delay before it starts
	Alt  string        `json:"alt,omitempty"` // name in the part of the message that is to be ignored

	// For the command line client.
	Sub    *Op      `json:"sub,omitempty"`    // what the command stands for
	List   []string `json:"list,omitempty"`   // a malformed command
	Tty    []string `json:"tty,omitempty"`    // what is typed
	Style  int      `json:"style,omitempty"`  // spelling
	KillAt int      `json:"killat,omitempty"` // the client is killed at that point of its execution
	Fields string   `json:"fields,omitempty"` // --fields
	TLS    string   `json:"tls,omitempty"`    // certificates it trusts; "" or "off": pwn_me
}

func (o *Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// Out is an observed answer.
type Out struct {
	Code    codes.Code
	Msg     string
	Body    string // canonical answer of a read
	Unknown bool   // the client never saw the answer
	Resp    string // text of the answer
}

func (o Out) String() string {
	if o.Unknown {
		return "?"
	}
	if o.Code != codes.OK {
		return o.Code.String()
	}
	if o.Body != "" {
		return "OK " + o.Body
	}
	return "OK"
}

func sp(s string) *string { return &s }

// val is the value that is sent.
func (o *Op) val() *string {
	v := o.Val
	if o.Rep > 0 {
		v = strings.Repeat(v, o.Rep)
	}
	return &v
}

func np(n int32) *int32 { return &n }

func (o *Op) action() *rpc.Action {
	if o.Act == "" {
		return nil
	}
	a := rpc.Action(rpc.Action_value[o.Act])
	return &a
}

func (o *Op) kvdata() *types.KVData {
	if o.Key == "\x00nil" {
		return nil
	}
	d := &types.KVData{Key: sp(o.Key)}
	for _, v := range o.Vals {
		v := v
		d.Values = append(d.Values, &types.KVValue{Value: &v.V, Index: &v.I})
	}
	return d
}

func capOf(s string) *types.Capability {
	if s == "" {
		return nil
	}
	c := types.Capability(types.Capability_value[s])
	return &c
}

// request builds the message of an op.
func (o *Op) request() proto.Message {
	if o.Raw != nil {
		m := newReq(o.K)
		if err := proto.Unmarshal(o.Raw, m); err != nil {
			m.Reset()
		}
		return m
	}
	switch o.K {
	case "EntityCreate":
		return &rpc.EntityRequest{Entity: &types.Entity{ID: &o.E, Number: o.N, Secret: &o.S}}
	case "EntityUpdate":
		d := &types.Entity{}
		if o.Ent != nil {
			proto.Merge(d, o.Ent)
		}
		d.ID = &o.E
		m := &rpc.EntityRequest{Data: d}
		if o.Alt != "" {
			m.Entity = proto.Clone(d).(*types.Entity)
			m.Entity.ID = &o.Alt
		}
		return m
	case "EntityInfo", "EntityDestroy", "EntityLock", "EntityUnlock", "EntityGroups":
		return &rpc.EntityRequest{Entity: &types.Entity{ID: &o.E}}
	case "EntitySearch", "GroupSearch":
		return &rpc.SearchRequest{Expression: &o.X}
	case "EntityUM", "EntityKeys":
		return &rpc.KVRequest{Target: &o.E, Action: o.action(), Key: &o.Key, Value: o.val()}
	case "GroupUM":
		return &rpc.KVRequest{Target: &o.G, Action: o.action(), Key: &o.Key, Value: o.val()}
	case "EntityKVGet", "EntityKVAdd", "EntityKVDel", "EntityKVReplace":
		return &rpc.KV2Request{Target: &o.E, Data: o.kvdata()}
	case "GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace":
		return &rpc.KV2Request{Target: &o.G, Data: o.kvdata()}
	case "AuthEntity", "AuthGetToken":
		return &rpc.AuthRequest{Entity: &types.Entity{ID: &o.E}, Secret: &o.S}
	case "AuthValidateToken":
		return &rpc.AuthRequest{}
	case "AuthChangeSecret":
		return &rpc.AuthRequest{Entity: &types.Entity{ID: &o.E, Secret: &o.S2}, Secret: &o.S}
	case "GroupCreate":
		g := &types.Group{Name: &o.G, DisplayName: &o.DN, Number: o.N}
		if o.MB != "" {
			g.ManagedBy = &o.MB
		}
		return &rpc.GroupRequest{Group: g}
	case "GroupUpdate":
		d := &types.Group{}
		if o.Grp != nil {
			proto.Merge(d, o.Grp)
		}
		d.Name = &o.G
		return &rpc.GroupRequest{Group: d}
	case "GroupInfo", "GroupDestroy", "GroupMembers":
		return &rpc.GroupRequest{Group: &types.Group{Name: &o.G}}
	case "GroupUpdateRules":
		r := &rpc.GroupRulesRequest{Group: &types.Group{Name: &o.G}, Target: &types.Group{Name: &o.T}}
		if o.Act != "" {
			a := rpc.RuleAction(rpc.RuleAction_value[o.Act])
			r.RuleAction = &a
		}
		return r
	case "GroupAddMember", "GroupDelMember":
		return &rpc.EntityRequest{Entity: &types.Entity{ID: &o.E, Meta: &types.EntityMeta{Groups: o.Gs}}}
	case "SystemCapabilities":
		d := o.E != ""
		t := o.E
		if !d {
			t = o.G
		}
		return &rpc.CapabilityRequest{Capability: capOf(o.Cap), Direct: &d, Target: &t, Action: o.action()}
	case "SystemPing", "SystemStatus":
		return &rpc.Empty{}
	}
	panic("unknown op " + o.K)
}

func newReq(k string) proto.Message {
	switch k {
	case "EntitySearch", "GroupSearch":
		return &rpc.SearchRequest{}
	case "EntityUM", "EntityKeys", "GroupUM":
		return &rpc.KVRequest{}
	case "EntityKVGet", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace":
		return &rpc.KV2Request{}
	case "AuthEntity", "AuthGetToken", "AuthValidateToken", "AuthChangeSecret":
		return &rpc.AuthRequest{}
	case "GroupCreate", "GroupUpdate", "GroupInfo", "GroupDestroy", "GroupMembers":
		return &rpc.GroupRequest{}
	case "GroupUpdateRules":
		return &rpc.GroupRulesRequest{}
	case "SystemCapabilities":
		return &rpc.CapabilityRequest{}
	case "SystemPing", "SystemStatus":
		return &rpc.Empty{}
	}
	return &rpc.EntityRequest{}
}

func newReply(k string) proto.Message {
	switch k {
	case "EntityInfo", "EntitySearch", "GroupMembers":
		return &rpc.ListOfEntities{}
	case "GroupInfo", "GroupSearch", "EntityGroups":
		return &rpc.ListOfGroups{}
	case "EntityUM", "EntityKeys", "GroupUM":
		return &rpc.ListOfStrings{}
	case "EntityKVGet", "GroupKVGet":
		return &rpc.ListOfKVData{}
	case "AuthGetToken":
		return &rpc.AuthResult{}
	case "SystemStatus":
		return &rpc.ServerStatus{}
	}
	return &rpc.Empty{}
}

// Token is a token some request obtained.
type Token struct {
	Str     string
	E       string
	Caps    []string
	OK      bool // could be decoded
	Nbf     int64
	Exp     int64
	Foreign bool // not issued by this server's key
}

// parseToken decodes what a token says, without judging it.
func parseToken(s string) *Token {
	t := &Token{Str: s}
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return t
	}
	b, err := base64.RawURLEncoding.DecodeString(p[1])
	if err != nil {
		return t
	}
	var c struct {
		EntityID     string
		Capabilities []int32
		Exp          int64 `json:"exp"`
		Nbf          int64 `json:"nbf"`
	}
	if json.Unmarshal(b, &c) != nil {
		return t
	}
	t.OK = true
	t.E = c.EntityID
	t.Exp, t.Nbf = c.Exp, c.Nbf
	for _, n := range c.Capabilities {
		t.Caps = append(t.Caps, types.Capability(n).String())
	}
	sort.Strings(t.Caps)
	return t
}

// Rec is one entry of the history.
type Rec struct {
	Op        *Op
	Inv       int
	Ret       int // math.MaxInt while pending
	Out       Out
	Call      *grpc.Call
	Tok       *Token // the token presented
	New       *Token // the token received
	Srv       int    // incarnation of the server
	Phase     int
	Fault     bool // a device fault hit it
	Loose     bool // overlaps with a change
	Crash     bool // the server died while it ran
	Never     bool // never reached a server
	reply     proto.Message
	clk0      int64 // the server's clock before and after
	clk1      int64
	RO        bool // the server was configured read-only
	plug0     pluginState
	plug1     pluginState // the plugins before and after
	LooseAuth bool        // overlaps with a change that may concern its authority
}

const pending = 1 << 60

// do performs an op as the calling task.
func (l *Lab) do(op *Op, s *session) *Rec {
	if op.K == "Do" {
		return l.doX(op, s)
	}
	if op.K == "CLI" {
		l.doCLI(op, s)
		return nil
	}
	r := &Rec{Op: op, Ret: pending, Call: &grpc.Call{}, Srv: l.nsrv, Phase: s.phase, RO: l.Cfg.ReadOnly}
	md := map[string]string{"client-name": "sim", "service-name": "verif"}
	if op.Tok != "" {
		tk := s.token(op.Tok)
		if tk != nil {
			r.Tok = tk
			md["authorization"] = tk.Str
		}
	}
	ctx := metadata.NewOutgoingContext(context.Background(), metadata.New(md))
	ctx = grpc.WithCall(ctx, r.Call)
	r.Inv = l.tick()
	r.clk0 = l.W.Wall(l.Srv).Unix()
	r.plug0 = l.pluginState()
	s.hist = append(s.hist, r)
	cc, _ := grpc.Dial(addr, grpc.Direct())
	rep := newReply(op.K)
	req := op.request()
	if op.K == "AuthValidateToken" && op.Raw == nil {
		if r.Tok != nil {
			req.(*rpc.AuthRequest).Token = &r.Tok.Str
		}
	}
	err := cc.Invoke(ctx, "/netauth.v2.NetAuth2/"+op.K, req, rep)
	r.clk1 = l.W.Wall(l.Srv).Unix()
	r.plug1 = l.pluginState()
	r.reply = rep
	st, _ := status.FromError(err)
	r.Out.Code = st.Code()
	r.Out.Msg = st.Message()
	switch {
	case !r.Call.Delivered:
		r.Never = true
		r.Out.Unknown = true
	case r.Call.Finished && !r.Call.Cut:
		r.Ret = l.tick()
		if err == nil {
			r.Out.Resp = proto.CompactTextString(rep)
			r.Out.Body = canonReply(op, rep)
			if a, ok := rep.(*rpc.AuthResult); ok {
				r.New = parseToken(a.GetToken())
				r.Out.Body = "token " + r.New.E + " [" + strings.Join(r.New.Caps, ",") + "]"
				if op.Save != "" {
					s.setToken(op.Save, r.New)
				}
			}
		}
	default:
		r.Out.Unknown = true
	}
	return r
}

func sorted(in []string) []string {
	out := append([]string(nil), in...)
	sort.Strings(out)
	return out
}

func canonKV(kv []*types.KVData) string {
	var b strings.Builder
	for _, d := range kv {
		fmt.Fprintf(&b, "%q=", d.GetKey())
		for _, v := range d.GetValues() {
			fmt.Fprintf(&b, "%q/%d,", v.GetValue(), v.GetIndex())
		}
		b.WriteString(";")
	}
	return b.String()
}

func caps(cs []types.Capability) []string {
	var out []string
	for _, c := range cs {
		out = append(out, c.String())
	}
	sort.Strings(out)
	return out
}

// canonE renders an entity without its secret.
func canonE(e *types.Entity) string {
	m := e.GetMeta()
	var b strings.Builder
	fmt.Fprintf(&b, "%q#%d", e.GetID(), e.GetNumber())
	for _, f := range []struct{ n, v string }{
		{"PrimaryGroup", m.GetPrimaryGroup()}, {"GECOS", m.GetGECOS()}, {"LegalName", m.GetLegalName()},
		{"DisplayName", m.GetDisplayName()}, {"Home", m.GetHome()}, {"Shell", m.GetShell()},
		{"GraphicalShell", m.GetGraphicalShell()}, {"BadgeNumber", m.GetBadgeNumber()},
	} {
		if f.v != "" {
			fmt.Fprintf(&b, " %s=%q", f.n, f.v)
		}
	}
	if m.GetLocked() {
		b.WriteString(" locked")
	}
	list := func(n string, l []string) {
		if len(l) > 0 {
			fmt.Fprintf(&b, " %s=%q", n, sorted(l))
		}
	}
	list("groups", m.GetGroups())
	list("caps", caps(m.GetCapabilities()))
	list("keys", m.GetKeys())
	list("um", m.GetUntypedMeta())
	if len(m.GetKV()) > 0 {
		b.WriteString(" kv=" + canonKV(m.GetKV()))
	}
	return b.String()
}

// canonG renders a group.
func canonG(g *types.Group) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q#%d", g.GetName(), g.GetNumber())
	if g.GetDisplayName() != "" {
		fmt.Fprintf(&b, " dn=%q", g.GetDisplayName())
	}
	if g.GetManagedBy() != "" {
		fmt.Fprintf(&b, " mb=%q", g.GetManagedBy())
	}
	list := func(n string, l []string) {
		if len(l) > 0 {
			fmt.Fprintf(&b, " %s=%q", n, sorted(l))
		}
	}
	list("caps", caps(g.GetCapabilities()))
	list("rules", g.GetExpansions())
	list("um", g.GetUntypedMeta())
	if len(g.GetKV()) > 0 {
		b.WriteString(" kv=" + canonKV(g.GetKV()))
	}
	return b.String()
}

func canonReply(op *Op, m proto.Message) string {
	switch r := m.(type) {
	case *rpc.ListOfEntities:
		var l []string
		for _, e := range r.GetEntities() {
			l = append(l, canonE(e))
		}
		return strings.Join(sorted(l), " | ")
	case *rpc.ListOfGroups:
		var l []string
		for _, g := range r.GetGroups() {
			l = append(l, canonG(g))
		}
		return strings.Join(sorted(l), " | ")
	case *rpc.ListOfStrings:
		l := r.GetStrings()
		if op.K == "EntityKeys" {
			l = sorted(l)
		}
		return fmt.Sprintf("%q", l)
	case *rpc.ListOfKVData:
		return canonKV(r.GetKVData())
	}
	return ""
}

// mutating tells whether an op may change entities or groups.
func (o *Op) mutating() bool {
	switch o.K {
	case "EntityInfo", "EntitySearch", "EntityGroups", "EntityKVGet", "GroupKVGet", "GroupInfo", "GroupMembers",
		"GroupSearch", "AuthEntity", "AuthGetToken", "AuthValidateToken", "SystemPing", "SystemStatus", "Do":
		return false
	case "EntityUM", "GroupUM", "EntityKeys":
		return o.Act != "READ"
	}
	return true
}
