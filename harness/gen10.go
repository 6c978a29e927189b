package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/spf13/afero"
	"github.com/spf13/viper"

	net "verif.local/sim/simnet"
	simos "verif.local/sim/simos"
	"verif.local/sim/simrt"
	signal "verif.local/sim/simsignal"
	unix "verif.local/sim/simunix"
)

// Starting and stopping.

// hinder holds something the server needs, in a process of its own,
// until the returned process is killed.
func (l *Lab) hinder(what string) (*simrt.Proc, error) {
	p := l.proc("holder")
	w := l.W
	done := false
	var err error
	w.StartProc(p, "holder", func() {
		switch what {
		case "port":
			_, err = net.Listen("tcp", addr)
		case "lock":
			var f *simos.File
			f, err = simos.OpenFile(home+"/bc/lock", os.O_CREATE|os.O_RDWR, 0600)
			if err == nil {
				err = unix.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB)
			}
		}
		done = true
		simrt.Cur().WaitFor("holding", func() bool { return false })
	})
	w.RunUntil(func() bool { return done || p.Dead })
	return p, err
}

// badStart tries to start the server in a way that can not succeed. It
// tells how the attempt ended.
func (l *Lab) badStart(kind string) string {
	var holder *simrt.Proc
	if kind == "port" || kind == "lock" {
		var err error
		if holder, err = l.hinder(kind); err != nil {
			holder.Kill()
			return "" // not possible now
		}
		defer holder.Kill()
	}
	l.nsrv++
	p := l.proc(fmt.Sprintf("bad%d", l.nsrv))
	w := l.W
	was := w.Ext.Get("srv:" + addr)
	var fs afero.Fs
	w.StartProc(p, p.Name, func() {
		simrt.NoYield(func() {
			args := []string{"--tls.PWN_ME"}
			out := conf + "/default.toml"
			switch kind {
			case "write-config", "write-config-fails":
				args = append(args, "--write-config="+out)
			case "write-config-type":
				args = append(args, "--write-config="+conf+"/default.nosuchtype")
			}
			l.boot("netauthd", args...)
			m := afero.NewMemMapFs()
			c := l.configFile()
			rep := func(section, key, v string) {
				i := strings.Index(c, "["+section+"]\n")
				if i < 0 {
					c += "[" + section + "]\n" + key + "=\"" + v + "\"\n"
					return
				}
				j := i + len(section) + 3
				rest := strings.Split(c[j:], "\n")
				if strings.HasPrefix(rest[0], key+"=") {
					rest = rest[1:]
				}
				c = c[:j] + key + "=\"" + v + "\"\n" + strings.Join(rest, "\n")
			}
			switch kind {
			case "conf-broken":
				c = c[:len(c)/2] + "\n[[[\n" + c[len(c)/2:]
			case "conf-torn":
				c = c[:strings.Index(c, "backend=")+len("backend=\"f")]
			case "db":
				rep("db", "backend", "nosuchbackend")
			case "db-none":
				rep("db", "backend", "")
			case "crypto":
				rep("crypto", "backend", "rot13")
			case "token":
				rep("token", "backend", "nosuchtoken")
			}
			if kind != "conf-none" {
				afero.WriteFile(m, conf+"/config.toml", []byte(c), 0644)
			}
			fs = m
			if kind == "write-config-fails" {
				fs = afero.NewReadOnlyFs(m)
			}
			viper.SetFs(fs)
		})
		mains["netauthd"]()
		simos.Exit(0)
	})
	served := false
	o := w.RunUntil(func() bool {
		served = served || w.Ext.Get("srv:"+addr) != was
		return p.Dead || served
	})
	switch {
	case p.Panic != "":
		return "panic: " + p.Panic
	case served:
		p.Kill()
		return "it serves"
	case o != simrt.OK:
		p.Kill()
		return "no end: " + o.String() + ": " + w.Parked()
	case !p.Exited:
		return "killed"
	}
	if kind == "write-config" {
		b, _ := afero.ReadFile(fs, conf+"/default.toml")
		switch {
		case p.ExitCode != 0:
			return fmt.Sprintf("exit %d", p.ExitCode)
		case !strings.Contains(string(b), "port = 1729"):
			return fmt.Sprintf("exit 0, and the file has %q", b)
		}
		return "ok"
	}
	if p.ExitCode == 0 {
		return "exit 0"
	}
	return "ok"
}

// orphans tells which plugins the last server left behind.
func (l *Lab) orphans() string {
	ps, _ := l.W.Ext.Get("pluginall").([]*simrt.Proc)
	for _, p := range ps {
		if p.Env.Get("orphan") != nil && p.Env.Get("gen") == l.nsrv {
			return p.Name
		}
	}
	return ""
}

func init() {
	add := func(prop, name string, w int, h Handler) {
		handlers[name] = h
		kinds[prop] = append(kinds[prop], kindW{name, w})
	}

	// Stopped while it serves.
	add("U01", "u01stop", 3, Handler{Run: func(s *session) {
		l, w := s.l, s.l.W
		l.installPlugins()
		if !s.setup() {
			return
		}
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			if len(ph.Plugins) > 0 || ph.NoPlugins {
				if !s.restart(ph) {
					return
				}
				continue
			}
			n0 := len(s.hist)
			if len(ph.Clients) == 0 {
				s.mark("idle")
			}
			if !s.clients(ph) {
				return
			}
			srv := l.Srv
			if !srv.Dead && s.marks["stop-while-serving"] == 0 {
				// Nobody asked yet.
				signal.Send(srv, stopSignal(ph.Note))
			}
			o := w.RunUntil(func() bool { return srv.Dead })
			switch {
			case srv.Panic != "":
				s.fail("panic", "the server process died: %s", srv.Panic)
			case o != simrt.OK:
				s.fail("wedge", "the server does not stop (%s): %s", o, w.Parked())
			case !srv.Exited:
				s.fail("stop", "the server is ended by the signal instead of ending by itself")
			case srv.ExitCode != 0:
				s.fail("stop", "the server ends with status %d", srv.ExitCode)
			case l.orphans() != "":
				s.fail("orphan", "%s is still running after the server has ended", l.orphans())
			}
			if s.viol != "" {
				return
			}
			for _, r := range s.hist[n0:] {
				if r.Call != nil && r.Call.Delivered && !r.Call.Finished {
					s.fail("unanswered", "request #%d %s was accepted but is not answered because the server was asked to stop", r.Op.ID, r.Op.K)
					return
				}
				// The plugins were there as long as requests were served.
				r.plug0.dead, r.plug1 = false, r.plug0
			}
			delete(s.marks, "stop-while-serving")
			s.mark("stopped")
			if !s.restart(&Phase{Restart: ph.Restart}) {
				return
			}
			if !s.seq(fmt.Sprintf("dump%d", i), s.dumpOps(10000*(i+1), true)) {
				return
			}
		}
		s.judge()
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		if r.p(0.15) {
			sc.Cfg.Crypto = "bcrypt"
		}
		g.world(0.7, nil, 0)
		g.login()
		g.rootP = 0.8
		if r.p(0.5) {
			var ps []string
			for i := 0; i < 1+r.n(3); i++ {
				p := r.of("null-a", "mark-b", "mark-c", "null-d", "odd-e", "veto-f", "broken-g") + ".treeplugin"
				if !has(ps, p) {
					ps = append(ps, p)
				}
			}
			if r.p(0.1) {
				// Listed twice.
				ps = append(ps, ps[0])
			}
			sc.Phases = append(sc.Phases, &Phase{Restart: "kill", Plugins: ps})
		}
		w := W{"EntityCreate": 3, "EntityUpdate": 3, "EntityUM": 3, "EntityLock": 2, "EntityUnlock": 1, "EntityDestroy": 2, "AuthEntity": 2, "AuthGetToken": 2, "AuthChangeSecret": 2,
			"GroupCreate": 2, "GroupUpdate": 2, "GroupUM": 2, "GroupDestroy": 2, "EntityInfo": 2, "GroupInfo": 1, "GroupAddMember": 3, "GroupDelMember": 1, "EntityKeys": 2, "EntityKVAdd": 2,
			"EntityKVReplace": 1, "GroupKVAdd": 2, "GroupUpdateRules": 2, "SystemCapabilities": 2, "EntityGroups": 1, "GroupMembers": 1}
		for i := 0; i < 1+r.n(3); i++ {
			ph := &Phase{Note: r.of("int", "int", "term", "term", "both"), Restart: r.of("kill", "kill", "settle", "power")}
			if r.p(0.9) {
				ph.Clients = g.clients(w, 1+r.n(5), 4)
				if r.p(0.85) {
					ph.StopAt = r.logn(500)
				}
			}
			if r.p(0.15) {
				sc.Prof.P["N.delay"] = 0.1
				ph.Faults = append(ph.Faults, "N.delay")
			}
			sc.Phases = append(sc.Phases, ph)
		}
	}})

	// Not able to start.
	add("U01", "u01start", 1, Handler{Run: func(s *session) {
		l := s.l
		l.installPlugins()
		bad := func(kinds string) bool {
			for _, k := range strings.Fields(kinds) {
				if k == "lock" && l.Cfg.backend() != "bitcask" {
					continue
				}
				was, img := s.stored(), l.FS.Dump(conf)
				e := l.badStart(k)
				if e == "" {
					continue
				}
				s.mark("start:" + k)
				switch {
				case strings.HasPrefix(e, "panic"):
					s.fail("panic", "started with %s the server process died: %s", k, e)
				case e != "ok":
					s.fail("start", "the server is started with %s: %s", k, e)
				case l.orphans() != "":
					s.fail("orphan", "%s is still running after a start that did not succeed (%s)", l.orphans(), k)
				case s.stored() != was:
					s.fail("state", "a start that can not succeed (%s) changes stored records", k)
				}
				now := map[string]string{}
				for _, x := range l.FS.Dump(conf) {
					now[x.Path] = fmt.Sprint(x.Dir, x.Mode, x.Data)
				}
				for _, x := range img {
					if s.viol == "" && now[x.Path] != fmt.Sprint(x.Dir, x.Mode, x.Data) {
						s.fail("state", "a start that can not succeed (%s) changes %s", k, x.Path)
					}
				}
				if s.viol != "" {
					return false
				}
			}
			return true
		}
		if !bad(s.sc.Str["first"]) {
			return
		}
		if !s.setup() {
			return
		}
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			if !s.clients(ph) {
				return
			}
			if !s.seq(fmt.Sprintf("before%d", i), s.dumpOps(10000*(i+1), true)) {
				return
			}
			if ph.Restart == "stop" {
				if e := l.Stop(); e != "" {
					s.fail("wedge", "the server does not stop: %s", e)
					return
				}
			} else {
				l.Kill()
			}
			if !bad(ph.Note) {
				return
			}
			if !s.restart(&Phase{Restart: "kill"}) {
				return
			}
			if !s.seq(fmt.Sprintf("dump%d", i), s.dumpOps(10000*(i+1)+5000, true)) {
				return
			}
		}
		s.judge()
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.backend()
		g.schedule()
		some := func() string {
			var l []string
			for i := 0; i < 1+r.n(3); i++ {
				l = append(l, r.of("conf-none", "conf-broken", "conf-torn", "db", "db-none", "crypto", "token", "port", "port", "lock", "lock", "write-config", "write-config-fails", "write-config-type"))
			}
			return strings.Join(l, " ")
		}
		if r.p(0.3) {
			sc.Str = map[string]string{"first": some()}
		}
		if r.p(0.4) {
			sc.Cfg.Plugins = []string{"null-a.treeplugin", "null-b.treeplugin"}[:1+r.n(2)]
		}
		g.world(0.7, nil, 0)
		g.login()
		g.rootP = 0.9
		w := W{"EntityCreate": 3, "EntityUpdate": 3, "EntityUM": 3, "EntityDestroy": 2, "AuthGetToken": 2, "GroupCreate": 2, "GroupUpdate": 2, "GroupDestroy": 2, "GroupAddMember": 3, "EntityKeys": 2, "EntityKVAdd": 2}
		for i := 0; i < 1+r.n(2); i++ {
			sc.Phases = append(sc.Phases, &Phase{Clients: g.clients(w, 1+r.n(2), 3), Restart: r.of("stop", "kill"), Note: some()})
		}
	}})
}

// stopSignal is what the server is asked to stop with.
func stopSignal(note string) os.Signal {
	if note == "term" {
		return syscall.SIGTERM
	}
	return os.Interrupt
}

