package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"syscall"

	grpc "verif.local/sim/simgrpc"
	"verif.local/sim/simrt"
	signal "verif.local/sim/simsignal"
	simtime "verif.local/sim/simtime"
)

// Phase is a stretch of a scenario.
type Phase struct {
	Clients [][]*Op `json:"clients,omitempty"`
	// Faults that may fire while the clients run.
	Faults []string `json:"faults,omitempty"`
	// FaultOn confines the faults of the device to paths that contain it.
	FaultOn string `json:"faulton,omitempty"`
	// Crash stops the server at the given scheduling point of its
	// tasks, counted from the start of the phase; 0: none.
	Crash int `json:"crash,omitempty"`
	// StopAt asks the server to shut down at the given point.
	StopAt int `json:"stopat,omitempty"`
	// Restart follows the phase: "", "stop", "kill" or "power".
	Restart string `json:"restart,omitempty"`
	// Boot is the bootstrap option of that restart.
	Boot string `json:"boot,omitempty"`
	// FaultStart lets faults hit the restart, too.
	FaultStart bool `json:"faultstart,omitempty"`
	// CrashStart crashes the restart at that point.
	CrashStart int `json:"crashstart,omitempty"`
	// BootOnce omits the bootstrap option when a crashed or failed
	// start is repeated.
	BootOnce bool `json:"bootonce,omitempty"`
	// NewKeys removes the token keys before the restart.
	NewKeys bool `json:"newkeys,omitempty"`
	// RO makes the server read-only from the restart on, RW writable.
	RO bool `json:"ro,omitempty"`
	RW bool `json:"rw,omitempty"`
	// Plugins are used from the restart on.
	Plugins   []string `json:"plugins,omitempty"`
	NoPlugins bool     `json:"noplugins,omitempty"`
	// TLS is used from the restart on.
	TLS *TLSCfg `json:"tls,omitempty"`
	// Imposter answers in place of the server during the phase.
	Imposter string `json:"imposter,omitempty"`
	Note     string `json:"note,omitempty"`
	Wait     int64  `json:"wait,omitempty"` // seconds that pass before the phase
	Clock    int64  `json:"clock,omitempty"` // seconds the server's clock jumps by before the phase
}

// Scenario is everything a run depends on besides its decisions.
type Scenario struct {
	Prop   string             `json:"prop"`
	Kind   string             `json:"kind"`
	Seed   uint64             `json:"seed"`
	Cfg    SrvCfg             `json:"cfg"`
	Boot   string             `json:"boot,omitempty"`
	Setup  []*Op              `json:"setup,omitempty"`
	Phases []*Phase           `json:"phases,omitempty"`
	Prof   simrt.Profile      `json:"prof"`
	Num    map[string]int64   `json:"num,omitempty"`
	Str    map[string]string  `json:"str,omitempty"`
	Extra  map[string]float64 `json:"extra,omitempty"`
	List   []string           `json:"list,omitempty"`
}

func (s *Scenario) clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// Result is what a run found.
type Result struct {
	Viol   string            `json:"viol,omitempty"` // "" if the property held
	Class  string            `json:"class,omitempty"`
	Known  string            `json:"known,omitempty"`
	Kind   string            `json:"kind,omitempty"`
	Devs   []simrt.Dev       `json:"devs,omitempty"`
	Steps  int               `json:"steps"`
	VTime  int64             `json:"vtime"`
	Hash   uint64            `json:"hash"`
	Faults map[string]uint64 `json:"faults,omitempty"`
	Ops    int               `json:"ops"`
	OKs    int               `json:"oks"`
	Nontr  bool              `json:"nontrivial"`
	Gave   bool              `json:"gave,omitempty"` // the oracle ran out of budget
	Log    string            `json:"log,omitempty"`
	States int               `json:"states"`
	Marks  map[string]int    `json:"marks,omitempty"`
}

// session is the client side of a run.
type session struct {
	l     *Lab
	sc    *Scenario
	hist  []*Rec
	phase int
	toks  []string
	tokv  []*Token
	viol  string
	class string
	m     *Model
	start *St
	gave  bool
	marks map[string]int
	crash int
	evil  *grpc.Server
	nevil int
	cache map[string][]*Token // what the command line client may have cached
	// For H01.
	health []health
	hasKey bool
	keep   map[string][]byte
}

func (s *session) mark(k string) { s.marks[k]++ }

func (s *session) fail(class, f string, a ...interface{}) {
	if s.viol == "" {
		s.viol = fmt.Sprintf(f, a...)
		s.class = class
	}
}

func (s *session) token(slot string) *Token {
	for i, k := range s.toks {
		if k == slot {
			return s.tokv[i]
		}
	}
	if strings.HasPrefix(slot, "bad:") {
		return &Token{Str: slot[4:]}
	}
	if strings.HasPrefix(slot, "mut:") {
		p := strings.SplitN(slot, ":", 3)
		if t := s.token(p[2]); t != nil {
			return tamper(t, p[1])
		}
	}
	return nil
}

func (s *session) setToken(slot string, t *Token) {
	for i, k := range s.toks {
		if k == slot {
			s.tokv[i] = t
			return
		}
	}
	s.toks = append(s.toks, slot)
	s.tokv = append(s.tokv, t)
}

// Handler runs one kind of scenario.
type Handler struct {
	Gen func(r *rng, sc *Scenario)
	Run func(s *session)
}

var handlers = map[string]Handler{}

// defaultProfile is what most scenarios use.
func defaultProfile() simrt.Profile {
	return simrt.Profile{Switch: 0.05, Stall: 0.02, Soft: 0.002, P: map[string]float64{}}
}

// execute runs a scenario; with tape it replays exactly its
// deviations.
func execute(sc *Scenario, tape []simrt.Dev, useTape bool, trace bool) *Result {
	l := newLab(sc.Seed, sc.Prof, sc.Cfg)
	w := l.W
	w.Trace = trace
	if useTape {
		w.UseTape(tape)
	}
	for k, p := range sc.Prof.P {
		if p > 0 {
			w.Enable.Set(k, true)
		}
	}
	s := &session{l: l, sc: sc, m: &Model{Bcrypt: sc.Cfg.Crypto == "bcrypt"}, start: newSt(), marks: map[string]int{}}
	l.sess = s
	canonCache = map[protoMsg]string{}
	handlers[sc.Kind].Run(s)
	if len(w.Violate) > 0 {
		s.fail("harness", "%s", strings.Join(w.Violate, "\n"))
	}
	res := &Result{Viol: s.viol, Class: s.class, Devs: w.Devs, Steps: w.Steps, VTime: w.Now(), Hash: w.Hash, Gave: s.gave, Marks: s.marks}
	res.Faults = map[string]uint64{}
	for i, k := range w.Counts.K {
		res.Faults[k] = w.Counts.V[i]
	}
	for _, r := range s.hist {
		res.Ops++
		if r.Out.Code == cOK && !r.Out.Unknown {
			res.OKs++
		}
	}
	res.Kind = sc.Kind
	ev := len(w.Devs)
	for _, n := range s.marks {
		ev += n
	}
	res.Nontr = ev > 0 && res.OKs >= 3
	if s.viol != "" || trace {
		var b strings.Builder
		for _, r := range s.hist {
			fmt.Fprintf(&b, "#%d srv%d [%d,%d] %s -> %s", r.Op.ID, r.Srv, r.Inv, r.Ret, r.Op, r.Out)
			if r.Fault {
				b.WriteString(" (fault)")
			}
			if r.Crash {
				b.WriteString(" (crash)")
			}
			b.WriteString("\n")
		}
		if trace {
			b.WriteString(strings.Join(w.TraceLn, "\n"))
		}
		res.Log = b.String()
	}
	l.Close()
	return res
}

// started reports a failed start as a violation.
func (s *session) started(e string) bool {
	if e != "" {
		s.fail("start", "the server does not come up: %s", e)
		return false
	}
	return true
}

// setup boots the server and runs the set-up requests one by one.
func (s *session) setup() bool {
	s.l.W.Faulty = false
	if !s.started(s.l.Start(s.sc.Boot, false)) {
		return false
	}
	if s.sc.Boot != "" {
		s.noteBoot(s.sc.Boot, 1)
	}
	return s.seq("setup", s.sc.Setup)
}

func (s *session) noteBoot(boot string, id int) {
	i := strings.IndexByte(boot, ':')
	if i < 0 {
		return
	}
	s.hist = append(s.hist, &Rec{Op: &Op{ID: 100000 + id, K: "Bootstrap", E: boot[:i], S: boot[i+1:]}, Inv: s.l.tick(), Ret: s.l.tick(), Srv: s.l.nsrv, Phase: s.phase})
}

// seq runs ops one after the other without faults.
func (s *session) seq(name string, ops []*Op) bool {
	if len(ops) == 0 {
		return true
	}
	old := s.l.W.Faulty
	s.l.W.Faulty = false
	defer func() { s.l.W.Faulty = old }()
	o := s.l.Run(name, func() {
		for _, op := range ops {
			s.l.do(op, s)
		}
	})
	return s.settle(o, name)
}

// settle checks how a stretch of simulation ended.
func (s *session) settle(o simrt.Outcome, what string) bool {
	if s.l.Srv != nil && s.l.Srv.Panic != "" {
		s.fail("panic", "the server process died: %s", s.l.Srv.Panic)
		return false
	}
	ps, _ := s.l.W.Ext.Get("pluginall").([]*simrt.Proc)
	for _, p := range ps {
		if p.Panic != "" {
			s.fail("panic", "the plugin process %s died: %s", p.Name, p.Panic)
			return false
		}
	}
	if o != simrt.OK && len(s.l.W.Violate) == 0 {
		s.fail("wedge", "requests are not answered (%s, %s): %s", what, o, s.l.W.Parked())
		return false
	}
	return o == simrt.OK
}

// clients runs one phase.
func (s *session) clients(ph *Phase) bool {
	l, w := s.l, s.l.W
	if ph.Clock != 0 {
		l.Srv.ClockOff += ph.Clock * 1e9
	}
	if ph.Wait > 0 {
		w.Faulty = false
		if o := l.Run("wait", func() { simtime.Sleep(simtime.Duration(ph.Wait) * simtime.Second) }); !s.settle(o, "wait") {
			return false
		}
	}
	recs0 := len(s.hist)
	dev0 := len(w.Devs)
	ndone, total := 0, 0
	srv := l.Srv
	w.Faulty = len(ph.Faults) > 0
	for _, k := range ph.Faults {
		w.Enable.Set(k, true)
	}
	if ph.FaultOn != "" {
		w.FaultPath = func(kind, path string) bool { return strings.Contains(path, ph.FaultOn) }
	}
	if ph.Crash > 0 {
		n := 0
		w.OnPoint = func(t *simrt.Task) {
			if t.Proc == srv && !srv.Dead {
				n++
				if n == ph.Crash {
					s.crash = l.tick()
					l.Kill()
					w.Counts.Inc("crash")
				}
			}
		}
	}
	if ph.StopAt > 0 {
		n := 0
		w.OnPoint = func(t *simrt.Task) {
			if t.Proc == srv && !srv.Dead {
				if n++; n == ph.StopAt && (s.sc.Prop == "U01" || signal.Ready(srv)) {
					signal.Send(srv, stopSignal(ph.Note))
					if ph.Note == "both" {
						signal.Send(srv, syscall.SIGTERM)
					}
					s.mark("stop-while-serving")
				}
			}
		}
	}
	if s.sc.Kind == "n01" {
		on := w.OnPoint
		w.OnPoint = func(t *simrt.Task) {
			if on != nil {
				on(t)
			}
			if t.Proc == nil || t.Proc.Dead {
				return
			}
			if n, ok := t.Proc.Env.Get("killat").(*int); ok {
				if *n--; *n == 0 {
					t.Proc.Kill()
					w.Counts.Inc("client-crash")
				}
			}
		}
	}
	for ci, ops := range ph.Clients {
		total += len(ops)
		var prev *bool
		for _, op := range ops {
			op, wait := op, prev
			fin := new(bool)
			prev = fin
			w.Spawn(nil, fmt.Sprintf("p%d.c%d.o%d", s.phase, ci, op.ID), func() {
				defer func() { *fin = true; ndone++ }()
				if wait != nil {
					simrt.Cur().WaitFor("prev", func() bool { return *wait })
				}
				if op.At > 0 {
					simrt.Cur().SleepFor(op.At)
				}
				l.do(op, s)
			})
		}
	}
	quiet := func() bool {
		for _, r := range s.hist[recs0:] {
			if r.Call.Delivered && !r.Call.Finished && !r.Call.Srv.Dead() {
				return false
			}
		}
		return true
	}
	o := w.RunUntil(func() bool { return ndone == total && quiet() })
	w.Faulty = false
	w.OnPoint = nil
	for _, k := range ph.Faults {
		w.Enable.Set(k, nil)
	}
	if ph.FaultOn != "" {
		w.FaultPath = nil
	}
	end := l.tick()
	hit := map[string]bool{}
	for _, d := range w.Devs[dev0:] {
		if strings.HasPrefix(d.Kind, "F.") || strings.HasPrefix(d.Kind, "P.") {
			hit[d.Task] = true
		}
	}
	for _, r := range s.hist[recs0:] {
		if r.Call == nil {
			continue
		}
		name := fmt.Sprintf(".o%d", r.Op.ID)
		for t := range hit {
			if i := strings.Index(t, name); i >= 0 {
				rest := t[i+len(name):]
				if rest == "" || rest[0] == '/' || rest[0] == '.' {
					r.Fault = true
				}
			}
		}
		if r.Ret == pending {
			if r.Call.Delivered && !r.Call.Finished {
				r.Crash = true
				r.Ret = s.crash
				if r.Ret == 0 {
					r.Ret = end
				}
			} else {
				r.Ret = end
			}
		}
	}
	return s.settle(o, "clients")
}

// restart brings the server down and up again.
func (s *session) restart(ph *Phase) bool {
	l := s.l
	how := ph.Restart
	if how == "" {
		if !l.Srv.Dead {
			return true
		}
		how = "kill"
	}
	switch how {
	case "stop":
		if !l.Srv.Dead {
			if e := l.Stop(); e != "" {
				s.fail("wedge", "the server does not stop: %s", e)
				return false
			}
		}
	case "power":
		l.Power()
		s.mark("powerloss")
	case "settle":
		l.Kill()
		l.FS.Settle()
	default:
		l.Kill()
	}
	s.mark("restart:" + how)
	if ph.NewKeys {
		for _, f := range []string{"token.pem", "token.key"} {
			l.FS.Unlink(conf + "/keys/" + f)
		}
		for i, t := range s.tokv {
			c := *t
			c.Foreign = true
			s.tokv[i] = &c
		}
		for _, ts := range s.cache {
			for _, t := range ts {
				if t != nil {
					t.Foreign = true
				}
			}
		}
	}
	if ph.RO || ph.RW {
		l.Cfg.ReadOnly = ph.RO
	}
	if len(ph.Plugins) > 0 || ph.NoPlugins {
		l.Cfg.Plugins = ph.Plugins
	}
	boot := ph.Boot
	if ph.TLS != nil {
		l.Cfg.TLS = ph.TLS
	}
	for i := 0; ; i++ {
		if ph.CrashStart > 0 && i == 0 {
			n := 0
			l.W.OnPoint = func(t *simrt.Task) {
				if t.Proc == l.Srv && !l.Srv.Dead {
					n++
					if n == ph.CrashStart {
						l.Kill()
						l.W.Counts.Inc("crash")
					}
				}
			}
		}
		if s.sc.Kind != "t01" {
			// A server that can not read its private key comes up
			// without issuing tokens.
			l.W.FaultPath = func(kind, path string) bool { return !strings.HasSuffix(path, "token.key") }
		}
		if ph.FaultStart && i == 0 {
			for k, p := range s.sc.Prof.P {
				if p > 0 && (strings.HasPrefix(k, "F.") || k == "P.start") {
					l.W.Enable.Set(k, true)
				}
			}
		}
		e := l.Start(boot, ph.FaultStart && i == 0)
		l.W.OnPoint = nil
		l.W.FaultPath = nil
		if c := l.Cfg.TLS; !c.usable() {
			// So it must.
			if !strings.HasPrefix(e, "exit ") || e == "exit 0" {
				if !(e == "killed" && ph.CrashStart > 0 && i == 0) {
					s.fail("start", "the server starts with the certificate %q and the key %q: %q", c.Cert, c.Key, e)
					return false
				}
			}
			s.mark("bad-certificate")
			l.Cfg.TLS = &TLSCfg{Cert: "good", Key: "good", Path: c.Path}
			continue
		}
		if boot != "" && badBoot(boot) {
			// The server must refuse to start.
			if !strings.HasPrefix(e, "exit ") || e == "exit 0" {
				if !(e == "killed" && ph.CrashStart > 0 && i == 0) {
					s.fail("start", "the server starts with the bootstrap option %q: %q", boot, e)
					return false
				}
			}
			s.mark("bad-bootstrap")
			boot = ""
			continue
		}
		retry := false
		if e == "killed" && ph.CrashStart > 0 && i == 0 {
			if how == "power" {
				l.Power()
			}
			s.mark("crash-in-start")
			retry = true
		}
		if e != "" && ph.FaultStart && i == 0 && strings.HasPrefix(e, "exit") {
			s.mark("start-failed-by-fault")
			retry = true
		}
		if retry {
			if boot != "" {
				// It may or may not have happened.
				s.noteBoot(boot, 10*(s.phase+2))
				r := s.hist[len(s.hist)-1]
				r.Out.Unknown, r.Crash = true, true
				if ph.BootOnce {
					boot = ""
				}
			}
			continue
		}
		if !s.started(e) {
			return false
		}
		break
	}
	if boot != "" {
		s.noteBoot(boot, 10*(s.phase+2)+1)
	}
	return true
}

// badBoot tells whether a bootstrap option is malformed.
func badBoot(b string) bool {
	i := strings.IndexByte(b, ':')
	return i < 0 || badName(b[:i])
}

// loosen marks the reads that overlap with a change.
func loosen(h []*Rec) {
	for _, r := range h {
		r.Loose, r.LooseAuth = false, false
		for _, x := range h {
			if x == r || !x.Op.mutating() || x.Never {
				continue
			}
			if x.Inv < r.Ret && r.Inv < x.Ret {
				r.Loose = true
				switch x.Op.K {
				case "GroupUpdate", "GroupAddMember", "GroupDelMember", "GroupUpdateRules", "GroupCreate", "GroupDestroy", "EntityCreate", "EntityDestroy":
					r.LooseAuth = true
				}
			}
		}
	}
}

// judge checks the whole history against the reference model.
func (s *session) judge() *St {
	if s.viol != "" {
		return nil
	}
	loosen(s.hist)
	res := linearize(s.m, s.start, append([]*Rec(nil), s.hist...), nil)
	if res.Gave {
		s.gave = true
		return nil
	}
	if !res.OK {
		s.fail("history", "no sequential execution explains the answers: %s", res.Explain)
		return nil
	}
	return res.Final
}

// names lists the records a scenario speaks about.
func (s *session) names() (es, gs []string) {
	me, mg := map[string]bool{}, map[string]bool{}
	add := func(m map[string]bool, n string) {
		if n != "" {
			m[n] = true
		}
	}
	for _, r := range s.hist {
		add(me, r.Op.E)
		add(mg, r.Op.G)
		add(mg, r.Op.T)
		add(mg, r.Op.MB)
		for _, g := range r.Op.Gs {
			add(mg, g)
		}
	}
	for n := range me {
		es = append(es, n)
	}
	for n := range mg {
		gs = append(gs, n)
	}
	sort.Strings(es)
	sort.Strings(gs)
	return
}

// dumpOps reads everything back.
func (s *session) dumpOps(base int, derived bool) []*Op {
	es, gs := s.names()
	var out []*Op
	add := func(o *Op) {
		o.ID = base + len(out)
		out = append(out, o)
	}
	for _, e := range es {
		add(&Op{K: "EntityInfo", E: e})
		if derived {
			add(&Op{K: "EntityGroups", E: e})
		}
	}
	for _, g := range gs {
		add(&Op{K: "GroupInfo", G: g})
		if derived {
			add(&Op{K: "GroupMembers", G: g})
		}
	}
	if derived {
		add(&Op{K: "EntitySearch", X: "*"})
		add(&Op{K: "GroupSearch", X: "*"})
	}
	return out
}

// standard runs set-up, all phases, and a final dump; then it judges.
func (s *session) standard(derived bool) *St {
	if !s.setup() {
		return nil
	}
	for i, ph := range s.sc.Phases {
		s.phase = i + 1
		if !s.clients(ph) {
			return nil
		}
		if !s.restart(ph) {
			return nil
		}
		if !s.seq(fmt.Sprintf("dump%d", i), s.dumpOps(10000*(i+1), derived)) {
			return nil
		}
	}
	return s.judge()
}

// rng is a small generator for scenarios.
type rng struct{ s uint64 }

func (r *rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	h := r.s
	h ^= h >> 30
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 27
	h *= 0x94d049bb133111eb
	h ^= h >> 31
	return h
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u() % uint64(n))
}
func (r *rng) p(p float64) bool { return float64(r.u()>>11)/(1<<53) < p }
func (r *rng) of(l ...string) string {
	return l[r.n(len(l))]
}

// logn picks a number with a logarithmic distribution in [1,max].
func (r *rng) logn(max int) int {
	x := math.Exp(float64(r.u()>>11) / (1 << 53) * math.Log(float64(max)))
	return int(x)
}
