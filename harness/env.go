package main

import (
	"fmt"
	"io"
	"os"
	"strings"
	"time"
	_ "unsafe"

	"github.com/blevesearch/bleve"
	jwt "github.com/dgrijalva/jwt-go"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/afero"
	"github.com/spf13/pflag"
	"github.com/spf13/viper"

	_ "github.com/netauth/netauth/internal/crypto/nocrypto"

	crand "crypto/rand"

	"verif.local/sim/simfs"
	grpc "verif.local/sim/simgrpc"
	simos "verif.local/sim/simos"
	"verif.local/sim/simrt"
	signal "verif.local/sim/simsignal"
	simtime "verif.local/sim/simtime"
)

const (
	home = "/var/lib/netauth"
	conf = "/etc/netauth"
	addr = "localhost:1729"
)

// SrvCfg is the configuration of a simulated server.
type SrvCfg struct {
	Backend  string   `json:"backend,omitempty"`
	Crypto   string   `json:"crypto,omitempty"`
	ReadOnly bool     `json:"readonly,omitempty"`
	NoGen    bool     `json:"nogen,omitempty"`
	Lifetime string   `json:"lifetime,omitempty"`
	Plugins  []string `json:"plugins,omitempty"`
	Log      string   `json:"log,omitempty"`  // level; the log is kept then
	Disk     string   `json:"disk,omitempty"` // journal (default), strict, relaxed
	TLS      *TLSCfg  `json:"tls,omitempty"`  // nil: off
	Hosts    int      `json:"hosts,omitempty"`
	Port     int      `json:"port,omitempty"`
	Fails    int      `json:"fails,omitempty"`    // for fail2lock, 0: not configured
	Interval int64    `json:"interval,omitempty"` // the same, in seconds
}

func (c *SrvCfg) backend() string {
	if c.Backend == "" {
		return "filesystem"
	}
	return c.Backend
}

// Lab is one simulated machine.
type Lab struct {
	W    *simrt.World
	FS   *simfs.FS
	Cfg  SrvCfg
	Srv  *simrt.Proc
	nsrv int
	nutl int
	all  []*simrt.Proc
	evt  int
	Out  strings.Builder // what processes print
	Log  strings.Builder // what servers log
	sess *session
	Calm bool // the server's devices do not fail
}

// detRand replaces the process-wide random source.
type detRand struct{}

func (detRand) Read(b []byte) (int, error) {
	t := simrt.Cur()
	for i := range b {
		if t == nil {
			b[i] = byte(i*7 + 1)
			continue
		}
		b[i] = byte(t.World().Rand(t.Name, "rand", t.Inc("rand")) >> 17)
	}
	return len(b), nil
}

// logTap receives what the servers log.
type logTap struct{}

func (logTap) Write(b []byte) (int, error) {
	if t := simrt.Cur(); t != nil {
		if l, _ := t.World().Ext.Get("lab").(*Lab); l != nil && l.Cfg.Log != "" {
			l.Log.Write(b)
		}
	}
	return len(b), nil
}

// What the program prints itself; the rest of the process writes
// nowhere.
var stdout = os.Stdout

//go:linkname cobraInitializers github.com/spf13/cobra.initializers
var cobraInitializers []func()

func globalInit() {
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stderr = os.Stdout
	simos.Silence(os.Stdout)
	hclog.DefaultOutput = logTap{}
	crand.Reader = detRand{}
	jwt.TimeFunc = time.Now
	bleve.Config.SetAnalysisQueueSize(1)
}

func newLab(seed uint64, prof simrt.Profile, cfg SrvCfg) *Lab {
	l := &Lab{Cfg: cfg}
	l.W = simrt.NewWorld(seed, prof)
	l.FS = simfs.New()
	l.FS.Now = func() time.Time { return l.W.Wall(nil) }
	switch cfg.Disk {
	case "strict":
		l.FS.Strict = true
	case "relaxed":
		l.FS.Strict, l.FS.Relaxed = true, true
	}
	for _, d := range []string{home, conf, "/tmp", "/root", "/run/netauth"} {
		l.FS.MustMkdirAll(d)
	}
	l.FS.Settle()
	l.W.Ext.Set("fs", l.FS)
	l.W.Ext.Set("lab", l)
	return l
}

// tick is a logical time stamp.
func (l *Lab) tick() int { l.evt++; return l.evt }

func (l *Lab) configFile() string {
	c := l.Cfg
	var b strings.Builder
	cr := c.Crypto
	if cr == "" {
		cr = "nocrypto"
	}
	lt := c.Lifetime
	if lt == "" {
		lt = "10m"
	}
	fmt.Fprintf(&b, "[core]\nhome=%q\n", home)
	fmt.Fprintf(&b, "[server]\nreadonly=%v\n", c.ReadOnly)
	fmt.Fprintf(&b, "[db]\nbackend=%q\n", c.backend())
	fmt.Fprintf(&b, "[crypto]\nbackend=%q\n[crypto.bcrypt]\ncost=4\n", cr)
	fmt.Fprintf(&b, "[token]\nlifetime=%q\n[token.jwt]\nbits=1024\ngenerate=%v\n", lt, !c.NoGen)
	fmt.Fprintf(&b, "[plugin]\nenabled=%v\npath=\"/opt/plugins\"\nloadstatic=true\n", len(c.Plugins) > 0)
	fmt.Fprintf(&b, "list=[")
	for i, p := range c.Plugins {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, "%q", "/opt/plugins/"+p)
	}
	b.WriteString("]\n")
	if c.Fails != 0 || c.Interval != 0 {
		b.WriteString("[plugin.fail2lock]\n")
	}
	if c.Fails != 0 {
		fmt.Fprintf(&b, "allowed_fails=%d\n", c.Fails)
	}
	if c.Interval != 0 {
		fmt.Fprintf(&b, "interval=\"%ds\"\n", c.Interval)
	}
	b.WriteString("[log]\nlevel=\"OFF\"\n" + c.TLS.config())
	return b.String()
}

func (l *Lab) proc(name string) *simrt.Proc {
	p := l.W.NewProc(name)
	p.Env.Set("cwd", "/run/netauth")
	l.all = append(l.all, p)
	return p
}

// boot prepares the process-wide state a Go program starts with.
func (l *Lab) boot(prog string, args ...string) {
	pflag.CommandLine = pflag.NewFlagSet(prog, pflag.ContinueOnError)
	pflag.CommandLine.SetOutput(io.Discard)
	viper.Reset()
	m := afero.NewMemMapFs()
	afero.WriteFile(m, conf+"/config.toml", []byte(l.configFile()), 0644)
	viper.SetFs(m)
	os.Args = append([]string{prog}, args...)
	simos.Args = os.Args
	jwt.TimeFunc = simtime.Now
	os.Setenv("NETAUTH_LOGLEVEL", "ERROR")
	if l.Cfg.Log != "" {
		os.Setenv("NETAUTH_LOGLEVEL", l.Cfg.Log)
	}
	cobraInitializers = nil
	for _, r := range reinits {
		if strings.Contains(r.path, "/plugins/") || strings.Contains(r.path, "/cmd/") && !strings.HasSuffix(r.path, "/"+prog) {
			continue
		}
		r.f()
	}
}

// reinit initializes one package again.
func reinit(path string) {
	for _, r := range reinits {
		if strings.HasSuffix(r.path, path) {
			r.f()
		}
	}
}

// Start starts the server and returns "" once it is serving.
func (l *Lab) Start(boot string, window bool) string {
	l.nsrv++
	p := l.proc(fmt.Sprintf("srv%d", l.nsrv))
	if !l.Calm || window {
		p.Env.Set("faults", true)
	}
	l.Srv = p
	var args []string
	if l.Cfg.TLS == nil || l.Cfg.TLS.Off {
		args = append(args, "--tls.PWN_ME")
	}
	l.writeTLS()
	if boot != "" {
		args = append(args, "--server.bootstrap="+boot)
	}
	w := l.W
	old := w.Faulty
	w.Faulty = window
	w.StartProc(p, p.Name, func() {
		simrt.NoYield(func() { l.boot("netauthd", args...) })
		mains["netauthd"]()
		simos.Exit(0)
	})
	o := w.RunUntil(func() bool { return p.Dead || l.serving() })
	w.Faulty = old
	if l.Calm {
		p.Env.Set("faults", nil)
	}
	if p.Panic != "" {
		return "panic: " + p.Panic
	}
	if o != simrt.OK {
		return "start-up " + o.String() + ": " + w.Parked()
	}
	if p.Dead {
		if p.Exited {
			return fmt.Sprintf("exit %d", p.ExitCode)
		}
		return "killed"
	}
	return ""
}

func (l *Lab) serving() bool {
	s, _ := l.W.Ext.Get("srv:" + addr).(*grpc.Server)
	return s != nil && l.Srv != nil && !l.Srv.Dead && s.Ready(l.Srv)
}

// Kill is kill -9.
func (l *Lab) Kill() {
	if l.Srv != nil {
		l.Srv.Kill()
	}
}

// Power is a loss of power; the disk keeps what it must and the
// decision stream picks what else survives.
func (l *Lab) Power() {
	l.Kill()
	w := l.W
	l.FS.PowerLoss(func(kind string, n int) int {
		return w.Choose(nil, kind, n, 0.5, "")
	})
}

// Stop ends the server in an orderly way.
func (l *Lab) Stop() string {
	p := l.Srv
	w := l.W
	o := w.RunUntil(func() bool { return p.Dead || signal.Ready(p) })
	if o != simrt.OK {
		return "not ready for signals"
	}
	signal.Send(p, os.Interrupt)
	o = w.RunUntil(func() bool { return p.Dead })
	if p.Panic != "" {
		return "panic: " + p.Panic
	}
	if o != simrt.OK {
		return "shutdown " + o.String() + ": " + w.Parked()
	}
	if p.ExitCode != 0 {
		return fmt.Sprintf("exit %d", p.ExitCode)
	}
	return ""
}

// Run runs f as a harness task to its end.
func (l *Lab) Run(name string, f func()) simrt.Outcome {
	done := false
	l.W.Spawn(nil, name, func() {
		f()
		done = true
	})
	return l.W.RunUntil(func() bool { return done })
}

// Close ends the run.  Goroutines of dead processes that wait for a
// signal are woken so that they end too.
func (l *Lab) Close() {
	for _, p := range l.all {
		p.Kill()
	}
	l.W.Close()
	for _, p := range l.all {
		if signal.Ready(p) {
			signal.Send(p, os.Interrupt)
		}
	}
	l.W.Close()
}
