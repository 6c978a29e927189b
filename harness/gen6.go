package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/startup"

	simos "verif.local/sim/simos"
	"verif.local/sim/simrt"
)

// util runs nsutil and returns how it ended.
func (l *Lab) util(ph *Phase, args ...string) string {
	l.nutl++
	w := l.W
	p := l.proc(fmt.Sprintf("util%d", l.nutl))
	p.Env.Set("faults", true)
	for _, k := range ph.Faults {
		w.Enable.Set(k, true)
	}
	w.Faulty = len(ph.Faults) > 0
	if ph.CrashStart > 0 {
		n := 0
		w.OnPoint = func(t *simrt.Task) {
			if t.Proc == p && !p.Dead {
				if n++; n == ph.CrashStart {
					p.Kill()
					w.Counts.Inc("crash")
				}
			}
		}
	}
	w.StartProc(p, p.Name, func() {
		simrt.NoYield(func() { l.boot("nsutil", args...) })
		mains["nsutil"]()
		simos.Exit(0)
	})
	o := w.RunUntil(func() bool { return p.Dead })
	w.OnPoint = nil
	w.Faulty = false
	for _, k := range ph.Faults {
		w.Enable.Set(k, nil)
	}
	switch {
	case p.Panic != "":
		return "panic: " + p.Panic
	case o != simrt.OK:
		return "no end: " + o.String() + ": " + w.Parked()
	case p.Exited:
		return fmt.Sprintf("exit %d", p.ExitCode)
	}
	return "killed"
}

// withKV runs f with an open store, in a process of its own.
func (l *Lab) withKV(backend string, f func(kv db.KVStore) error) error {
	l.nutl++
	p := l.proc(fmt.Sprintf("kv%d", l.nutl))
	w := l.W
	var err error
	w.StartProc(p, p.Name, func() {
		simrt.NoYield(func() { l.boot("nsutil"); viper.Set("core.home", home); startup.DoCallbacks() })
		var kv db.KVStore
		if kv, err = db.NewKV(backend, nil); err == nil {
			kv.SetEventFunc(func(db.Event) {})
			err = f(kv)
		}
		simos.Exit(0)
	})
	o := w.RunUntil(func() bool { return p.Dead })
	if p.Panic != "" {
		return fmt.Errorf("panic: %s", p.Panic)
	}
	if o != simrt.OK {
		return fmt.Errorf("no end: %s", o)
	}
	return err
}

// content reads a store with the code that belongs to it.
func (l *Lab) content(backend string) (map[string]string, error) {
	m := map[string]string{}
	err := l.withKV(backend, func(kv db.KVStore) error {
		ks, err := kv.Keys("/*/*")
		if err != nil {
			return err
		}
		for _, k := range ks {
			v, err := kv.Get(k)
			if err != nil {
				return fmt.Errorf("%q: %v", k, err)
			}
			m[k] = string(v)
		}
		return nil
	})
	return m, err
}

func diffRecords(got, want map[string]string) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := got[k]
		w, ok2 := want[k]
		switch {
		case !ok:
			return fmt.Sprintf("%q is missing", k)
		case !ok2:
			return fmt.Sprintf("%q should not be there", k)
		case g != w:
			return fmt.Sprintf("%q is %q instead of %q", k, short(g), short(w))
		}
	}
	return ""
}

func other(backend string) string {
	if backend == "bitcask" {
		return "filesystem"
	}
	return "bitcask"
}

func init() {
	handlers["d04"] = Handler{Run: func(s *session) {
		l := s.l
		server := s.sc.Boot != ""
		if server {
			if !s.setup() {
				return
			}
			if s.sc.Str["end"] == "stop" {
				if e := l.Stop(); e != "" {
					s.fail("wedge", "the server does not stop: %s", e)
					return
				}
			}
			l.Kill()
			l.FS.Settle()
		}
		src := l.Cfg.backend()
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			for _, ops := range ph.Clients {
				if len(ops) == 0 {
					continue
				}
				b := ops[0].G
				if e := l.withKV(b, func(kv db.KVStore) error {
					for _, o := range ops {
						var e error
						if o.K == "KVPut" {
							e = kv.Put(o.Key, o.Raw)
						} else {
							e = kv.Del(o.Key)
						}
						if e != nil && e != db.ErrNoValue {
							return fmt.Errorf("%s %q: %v", o.K, o.Key, e)
						}
					}
					return kv.Close()
				}); e != nil {
					s.fail("store", "%s can not be filled: %v", b, e)
					return
				}
			}
			l.FS.Settle()
			a := strings.Fields(ph.Note)
			from, to := a[0], a[1]
			dry, trunc := true, false
			for _, x := range a[2:] {
				switch x {
				case "--no-dry-run", "--no-dry-run=true":
					dry = false
				case "--truncate":
					trunc = true
				}
			}
			valid := from != to && (from == "filesystem" || from == "bitcask") && (to == "filesystem" || to == "bitcask")
			args := append([]string{"copy"}, a...)
			if x := s.sc.Str[fmt.Sprintf("args%d", i)]; x != "" {
				args, valid = strings.Fields(x), false
			}
			before := map[string]map[string]string{}
			for _, b := range []string{"filesystem", "bitcask"} {
				m, e := l.content(b)
				if e != nil {
					s.fail("store", "%s can not be read before copy %d: %v", b, i, e)
					return
				}
				before[b] = m
			}
			dev0 := len(l.W.Devs)
			e := l.util(ph, args...)
			faulted := false
			for _, d := range l.W.Devs[dev0:] {
				faulted = faulted || strings.HasPrefix(d.Kind, "F.")
			}
			if strings.HasPrefix(e, "panic") || strings.HasPrefix(e, "no end") {
				s.fail("crash", "copy %d (%s): %s", i, args, e)
				return
			}
			if ph.Restart == "power" {
				l.FS.PowerLoss(func(kind string, n int) int { return l.W.Choose(nil, kind, n, 0.5, "") })
				s.mark("powerloss")
			}
			after := map[string]map[string]string{}
			for _, b := range []string{"filesystem", "bitcask"} {
				m, err := l.content(b)
				if err != nil {
					s.fail("store", "%s can not be read after copy %d (%s): %v", b, i, e, err)
					return
				}
				after[b] = m
				if !faulted && e != "killed" && ph.Restart != "power" {
					if d := diffRecords(l.recordsOf(b), m); d != "" {
						s.fail("store", "%s on the disk after copy %d: %s", b, i, d)
						return
					}
				}
			}
			s.hist = append(s.hist, &Rec{Op: &Op{ID: 9000 + i, K: "Copy", X: strings.Join(args, " "), Note: e}, Inv: l.tick(), Ret: l.tick(), Phase: s.phase})
			for _, b := range []string{"filesystem", "bitcask"} {
				if b == to && valid && !dry {
					continue
				}
				if d := diffRecords(after[b], before[b]); d != "" {
					s.fail("copy", "copy %d (%s, %s) changed %s: %s", i, args, e, b, d)
					return
				}
			}
			s.mark(e)
			if !valid {
				if e == "exit 0" {
					s.fail("copy", "%s is refused with exit status 0", args)
					return
				}
				s.hist = s.hist[:len(s.hist)-1]
				continue
			}
			reason := faulted || e == "killed"
			want := map[string]string{}
			if !trunc {
				for k, v := range before[to] {
					want[k] = v
				}
			}
			for k, v := range before[from] {
				want[k] = v
				if to == "filesystem" && len(k) > 220 {
					reason = true // such a file can not exist
				}
			}
			s.hist = s.hist[:len(s.hist)-1]
			if e != "exit 0" {
				if !reason {
					s.fail("copy", "copy %d (%s) fails without a reason: %s", i, args, e)
					return
				}
				// What is there is either old or new.
				for k, v := range after[to] {
					if v != before[to][k] && v != before[from][k] {
						s.fail("copy", "copy %d (%s, %s): %q is neither old nor new in the target: %q", i, args, e, k, short(v))
						return
					}
				}
				continue
			}
			if dry {
				s.mark("dry")
				continue
			}
			if d := diffRecords(after[to], want); d != "" {
				s.fail("copy", "copy %d (%s) succeeds, but in the target %s", i, args, d)
				return
			}
			s.mark("copied")
		}
		if !server {
			return
		}
		// The server does not notice a move.
		if m, e := l.content(other(src)); e == nil {
			if o, e := l.content(src); e == nil && diffRecords(m, o) == "" {
				l.Cfg.Backend = other(src)
				s.mark("moved")
			}
		}
		if !s.started(l.Start("", false)) {
			return
		}
		if !s.seq("dump", s.dumpOps(10000, true)) {
			return
		}
		s.judge()
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.schedule()
		src := r.of("filesystem", "bitcask")
		sc.Cfg.Backend = src
		sc.Str["end"] = r.of("stop", "kill")
		if r.p(0.4) {
			g.world(0.8, W{"GroupAddMember": 3, "GroupUpdateRules": 1, "EntityKeys": 1, "EntityKVAdd": 1, "EntityUM": 1, "EntityDestroy": 1, "GroupDestroy": 1, "EntityUpdate": 2}, r.n(8))
		} else {
			sc.Boot = ""
			sc.Setup = nil
		}
		faulty := r.p(0.45)
		faults := []string{"F.eio", "F.enospc", "F.short", "F.emfile"}
		if faulty {
			faults = faults[:1+r.n(4)]
			for _, k := range faults {
				sc.Prof.P[k] = []float64{0.005, 0.02, 0.1}[r.n(3)]
			}
		} else {
			sc.Cfg.Disk = r.of("", "relaxed")
		}
		names := []string{"a", "b", "root", "alice", "g1", "x y", "ä", "*", "[", "[a-z]", "?", "\\", "a.dat", ".hidden", "..x", "-f", "%2F", "a\nb", "A", "a:b", strings.Repeat("n", 200), strings.Repeat("m", 255), strings.Repeat("l", 900), "\xff"}
		key := func() string { return r.of("/entities/", "/groups/") + r.of(names[:3+r.n(len(names)-3)]...) }
		fill := func(b string, n int) []*Op {
			var l []*Op
			for i := 0; i < n; i++ {
				o := &Op{ID: g.next(), K: "KVPut", G: b, Key: key()}
				if b == "filesystem" && len(o.Key) > 230 {
					continue
				}
				if r.p(0.15) {
					o.K = "KVDel"
				} else {
					n := []int{1, 5, 40, 300, 5000, 70000}[r.n(6)]
					if n == 70000 && r.p(0.7) {
						n = 2
					}
					for j := 0; j < n; j++ {
						o.Raw = append(o.Raw, byte(r.u()))
					}
				}
				l = append(l, o)
			}
			return l
		}
		for i := 0; i < 1+r.n(4); i++ {
			ph := &Phase{}
			from := src
			if sc.Boot == "" {
				from = r.of(src, src, other(src))
				ph.Clients = append(ph.Clients, fill(from, r.n(7)))
			}
			to := other(from)
			if r.p(0.4) && (sc.Boot == "" || i == 0) {
				ph.Clients = append(ph.Clients, fill(to, r.n(6)))
			}
			var fl []string
			if r.p(0.85) {
				fl = append(fl, r.of("--no-dry-run", "--no-dry-run=true"))
			}
			if r.p(0.5) || sc.Boot != "" && r.p(0.8) {
				fl = append(fl, "--truncate")
			}
			if len(fl) == 2 && r.p(0.5) {
				fl[0], fl[1] = fl[1], fl[0]
			}
			ph.Note = strings.Join(append([]string{from, to}, fl...), " ")
			switch {
			case faulty && r.p(0.7):
				ph.Faults = faults
			case !faulty && r.p(0.35):
				ph.CrashStart = r.logn(400)
				if r.p(0.4) {
					ph.Restart = "power"
				}
			case !faulty && r.p(0.2):
				ph.Restart = "power"
			}
			if r.p(0.08) {
				sc.Str[fmt.Sprintf("args%d", i)] = r.of("copy "+from+" --no-dry-run", "copy "+from+" "+to+" x --no-dry-run", "copy "+from+" "+to+" --no-dry-runs", "copy --truncate",
					"copy "+from+" "+from+" --no-dry-run --truncate", "copy nope "+to+" --no-dry-run", "copy "+from+" nope --no-dry-run --truncate", "cop "+from+" "+to+" --no-dry-run")
			}
			sc.Phases = append(sc.Phases, ph)
		}
		if !faulty || r.p(0.5) {
			sc.Phases = append(sc.Phases, &Phase{Note: src + " " + other(src) + " --truncate --no-dry-run"})
		}
	}}
	kinds["D04"] = append(kinds["D04"], kindW{"d04", 1})
}
