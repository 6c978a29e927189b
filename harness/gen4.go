package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"strings"

	rsa "verif.local/sim/simrsa"
	"verif.local/sim/simrt"
)

const keyDir = conf + "/keys/"

// keyFile is a key file as an operator may leave it: a key of the pool
// or something else.
func keyFile(what string, n int) []byte {
	k := rsa.Pool(1024, n%3)
	pub := what[:3] == "pub"
	blk := func(t string, b []byte) []byte { return pem.EncodeToMemory(&pem.Block{Type: t, Bytes: b}) }
	der := func() []byte {
		if pub {
			b, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
			return b
		}
		return x509.MarshalPKCS1PrivateKey(k)
	}()
	typ := "RSA PRIVATE KEY"
	if pub {
		typ = "RSA PUBLIC KEY"
	}
	switch what[3:] {
	case "key":
		return blk(typ, der)
	case "short":
		f := blk(typ, der)
		return f[:n%len(f)]
	case "garbage":
		return []byte(strings.Repeat("garbage\n", n%20))
	case "shortder":
		return blk(typ, der[:n%len(der)])
	case "flip":
		d := append([]byte(nil), der...)
		d[n%len(d)] ^= 1 << uint(n%8)
		return blk(typ, d)
	case "pkcs8":
		b, _ := x509.MarshalPKCS8PrivateKey(k)
		if pub {
			b = x509.MarshalPKCS1PublicKey(&k.PublicKey)
		}
		return blk("PRIVATE KEY", b)
	case "ec":
		c := elliptic.P256()
		x, y := c.ScalarBaseMult([]byte{byte(n), 1, 2})
		p := ecdsa.PublicKey{Curve: c, X: x, Y: y}
		if pub {
			b, _ := x509.MarshalPKIXPublicKey(&p)
			return blk(typ, b)
		}
		b, _ := x509.MarshalECPrivateKey(&ecdsa.PrivateKey{PublicKey: p, D: new(big.Int).SetBytes([]byte{byte(n), 1, 2})})
		return blk("EC PRIVATE KEY", b)
	}
	panic(what)
}

// tamperKeys does what an operator did to the key files.
func (l *Lab) tamperKeys(what string) {
	l.FS.MustMkdirAll(conf + "/keys")
	for _, c := range strings.Split(what, ";") {
		f := strings.Fields(c)
		if len(f) == 0 {
			continue
		}
		name := keyDir + map[string]string{"pub": "token.pem", "pri": "token.key"}[f[0]]
		mode := map[string]os.FileMode{"pub": 0644, "pri": 0400}[f[0]]
		switch f[1] {
		case "rm":
			l.FS.Unlink(name)
		case "chmod":
			if n, err := l.FS.Walk(name, true); err == nil && n != nil {
				var m uint32
				fmt.Sscanf(f[2], "%o", &m)
				n.Mode = os.FileMode(m)
			}
		case "rmdir":
			for _, e := range l.FS.Dump(keyDir) {
				if !e.Dir {
					l.FS.Unlink(e.Path)
				}
			}
		default:
			var n int
			fmt.Sscan(f[2], &n)
			l.FS.Unlink(name)
			l.FS.MustWrite(name, keyFile(f[0]+f[1], n), mode)
		}
	}
	l.FS.Settle()
}

func (l *Lab) keyImage() string {
	var b strings.Builder
	for _, n := range []string{"token.pem", "token.key"} {
		nd, err := l.FS.Walk(keyDir+n, true)
		if err != nil || nd == nil {
			fmt.Fprintf(&b, "no %s\n", n)
			continue
		}
		d, _ := l.readFile(keyDir + n)
		fmt.Fprintf(&b, "%s %v\n%s\n", n, nd.Mode, d)
	}
	return b.String()
}

// exposed looks for private keys that others can read.
func (l *Lab) exposed() string {
	for _, e := range l.FS.Dump(conf) {
		if !e.Dir && e.Mode&077 != 0 && strings.Contains(e.Data, "PRIVATE KEY") {
			return fmt.Sprintf("%s %v", e.Path, e.Mode)
		}
	}
	return ""
}

func init() {
	add := func(prop, name string, h Handler) {
		handlers[name] = h
		kinds[prop] = append(kinds[prop], kindW{name, 1})
	}

	add("T01", "t01", Handler{Run: func(s *session) {
		l, w := s.l, s.l.W
		w.Faulty = false
		w.FaultPath = func(kind, path string) bool { return strings.HasPrefix(path, conf) }
		type issued struct {
			slot string
			pub  string
		}
		var toks []issued
		id := 1000
		used := false
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			l.tamperKeys(ph.Note)
			l.Cfg.NoGen = ph.RO
			before, img := l.pair(), l.keyImage()
			_, haspub := l.readFile(keyDir + "token.pem")
			// Files an operator left readable stay so.
			loose := l.exposed() != ""
			npt := 0
			bad := ""
			w.OnPoint = func(t *simrt.Task) {
				if t.Proc != l.Srv || l.Srv.Dead {
					return
				}
				npt++
				if !loose && bad == "" {
					bad = l.exposed()
				}
				if npt == ph.CrashStart {
					l.Kill()
					w.Counts.Inc("crash")
				}
			}
			for _, k := range ph.Faults {
				w.Enable.Set(k, true)
			}
			dev0 := len(w.Devs)
			e := l.Start("root:rootpw", len(ph.Faults) > 0)
			w.OnPoint = nil
			faulted := false
			for _, d := range w.Devs[dev0:] {
				faulted = faulted || strings.HasPrefix(d.Kind, "F.")
			}
			for _, k := range ph.Faults {
				w.Enable.Set(k, nil)
			}
			if bad != "" {
				s.fail("exposed", "start %d: others can read the private key in %s", s.phase, bad)
				return
			}
			if strings.HasPrefix(e, "panic") || strings.HasPrefix(e, "start-up") || e == "exit 0" {
				s.fail("start", "start %d: %s", s.phase, e)
				return
			}
			crashed := e == "killed"
			if crashed && ph.Restart == "power" {
				l.Power()
				s.mark("powerloss-in-start")
			}
			after := l.pair()
			switch {
			case haspub:
				// What is there is never touched.
				if l.keyImage() != img {
					s.fail("keys", "start %d (%s) changed the keys", s.phase, e)
					return
				}
			case !before.pubOK && len(after.pub) > 0:
				// Generated in this start.
				if !after.pubOK || !after.privOK || !after.match || !after.pubMode || !after.privMode {
					s.fail("keys", "start %d (%s) left an unusable key pair: %v", s.phase, e, after)
					return
				}
				if ph.RO {
					s.fail("keys", "start %d generated keys although that is disabled", s.phase)
					return
				}
				s.mark("generated")
			}
			if crashed {
				s.mark("crash-in-start")
				if !haspub && len(after.pub) == 0 && len(l.FS.Dump(keyDir)) > 1 {
					s.mark("crash-in-generation")
				}
				continue
			}
			want := haspub && before.pubOK && before.pubMode || !haspub && !ph.RO
			if e != "" {
				if want && !faulted {
					s.fail("start", "start %d fails (%s) although the keys are usable: %v", s.phase, e, before)
					return
				}
				s.mark("refused")
				continue
			}
			if !want {
				s.fail("start", "start %d succeeds with unusable keys: %v", s.phase, before)
				return
			}
			if !haspub && len(after.pub) == 0 {
				s.fail("keys", "start %d serves without having generated keys", s.phase)
				return
			}
			pub := string(after.pub)
			var ops []*Op
			next := func(o *Op) *Op { id++; o.ID = id; ops = append(ops, o); return o }
			n := 1 + len(ph.Clients)
			for j := 0; j < n; j++ {
				slot := fmt.Sprintf("t%d.%d", i, j)
				next(&Op{K: "AuthGetToken", E: "root", S: "rootpw", Save: slot})
			}
			h0 := len(s.hist)
			if !s.seq(fmt.Sprintf("get%d", i), ops) {
				return
			}
			for _, r := range s.hist[h0:] {
				ok := r.Out.Code == cOK
				sure := after.match && after.privOK && after.privMode
				if !ok && sure && !faulted {
					s.fail("token", "start %d: no token is issued (%s) with keys %v", s.phase, r.Out, after)
					return
				}
				if ok && !after.match {
					// Whatever it signs with is not what it checks.
					s.fail("token", "start %d: a token is issued without a key that matches: %v", s.phase, after)
					return
				}
				if ok {
					toks = append(toks, issued{r.Op.Save, pub})
				}
			}
			ops = nil
			for _, t := range toks {
				next(&Op{K: "AuthValidateToken", Tok: t.slot})
			}
			h0 = len(s.hist)
			if !s.seq(fmt.Sprintf("val%d", i), ops) {
				return
			}
			for j, r := range s.hist[h0:] {
				if same := toks[j].pub == pub; same != (r.Out.Code == cOK) {
					s.fail("token", "start %d: token %s, issued with the same keys: %v, is answered with %s", s.phase, toks[j].slot, same, r.Out)
					return
				}
			}
			used = true
			if l.keyImage() != map[bool]string{true: img, false: l.keyImage()}[haspub] {
				s.fail("keys", "the keys changed while the server ran")
				return
			}
			now := l.keyImage()
			switch ph.Restart {
			case "stop":
				if e := l.Stop(); e != "" {
					s.fail("wedge", "the server does not stop: %s", e)
					return
				}
			case "power":
				l.Power()
				s.mark("powerloss")
			default:
				l.Kill()
			}
			s.mark("restart:" + ph.Restart)
			if l.keyImage() != now {
				s.fail("keys", "the keys were lost with the server: %s instead of %s", l.keyImage(), now)
				return
			}
		}
		if !used {
			s.mark("never-up")
		}
	}, Gen: func(r *rng, sc *Scenario) {
		g := newGen(r, sc)
		g.schedule()
		sc.Boot = ""
		faulty := r.p(0.5)
		if !faulty {
			sc.Cfg.Disk = r.of("", "", "strict")
		} else {
			for _, k := range []string{"F.eio", "F.enospc", "F.short", "F.emfile"} {
				sc.Prof.P[k] = []float64{0.01, 0.05, 0.2}[r.n(3)]
			}
		}
		modes := func() string {
			return r.of("644", "400", "600", "640", "444", "000", "755", "664", "666", "440", "1644", "4644")
		}
		for i := 0; i < 2+r.n(5); i++ {
			ph := &Phase{Restart: r.of("stop", "kill")}
			if !faulty {
				ph.Restart = r.of("stop", "kill", "power", "power")
			}
			var t []string
			if r.p(0.55) {
				for j := 0; j < 1+r.n(2); j++ {
					f := r.of("pub", "pri")
					switch r.n(8) {
					case 0:
						t = append(t, f+" rm")
					case 1, 2:
						t = append(t, f+" "+r.of("short", "garbage", "shortder", "flip", "pkcs8", "ec")+fmt.Sprintf(" %d", r.n(1200)))
					case 3:
						t = append(t, f+fmt.Sprintf(" key %d", r.n(3)))
					case 4:
						n := r.n(3)
						t = append(t, fmt.Sprintf("pub key %d", n), fmt.Sprintf("pri key %d", n))
					case 5:
						t = append(t, f+" chmod "+modes())
					default:
						t = append(t, "pub rmdir")
					}
				}
			}
			ph.Note = strings.Join(t, ";")
			ph.RO = r.p(0.12)
			switch {
			case r.p(0.4):
				ph.CrashStart = 1 + r.n(260)
				if r.p(0.5) {
					ph.CrashStart = 150 + r.n(100)
				}
			case faulty && r.p(0.6):
				ph.Faults = []string{"F.eio", "F.enospc", "F.short", "F.emfile"}
			}
			sc.Phases = append(sc.Phases, ph)
		}
		// In the end everything is usable again.
		sc.Phases = append(sc.Phases, &Phase{Note: "pub rmdir", Restart: "kill"}, &Phase{Restart: "stop"})
	}})
}
