package main

import "strings"

// Encrypted transport.

func init() {
	kinds["E01"] = []kindW{{"e01", 1}}
	handlers["e01"] = Handler{Run: func(s *session) {
		l := s.l
		l.setHosts()
		l.FS.MustMkdirAll("/home/operator")
		if !s.setup() {
			return
		}
		for i, ph := range s.sc.Phases {
			s.phase = i + 1
			s.imposter(ph.Imposter)
			if !s.clients(ph) || !s.restart(ph) {
				return
			}
		}
		if s.seq("dump", s.dumpOps(10000, true)) {
			s.judge()
		}
	}, Gen: genE01}
}

func genE01(r *rng, sc *Scenario) {
	g := newGen(r, sc)
	g.backend()
	g.schedule()
	g.ents, g.groups = argWords(g.ents), argWords(g.groups)
	g.umKeys, g.vals, g.kvKeys, g.keyVals, g.keyTypes, g.secrets = argWords(g.umKeys), argWords(g.vals), argWords(g.kvKeys), argWords(g.keyVals), argWords(g.keyTypes), argWords(g.secrets)
	g.world(0.8, nil, 0)
	g.rootP = 0.8
	srv := func() *TLSCfg {
		c := r.of("good", "good", "good", "issued", "issued", "one", "elsewhere", "expired", "early", "foreign")
		t := &TLSCfg{Cert: c, Key: c, Path: r.n(len(tlsPaths))}
		t.Off = r.p(0.1)
		return t
	}
	sc.Cfg.TLS = srv()
	sc.Cfg.Hosts = r.n(len(cliHosts))
	if r.p(0.2) {
		sc.Cfg.Port = 4443
	}
	now := sc.Cfg.TLS
	for i := 0; i < 1+r.n(4); i++ {
		ph := &Phase{}
		if !now.Off && r.p(0.3) {
			ph.Imposter = r.of("plain", "plain", "foreign", "expired", "elsewhere") + r.of("", "/")
		}
		var cs []*Op
		for n := 1 + r.n(4); n > 0; n-- {
			o := g.cli(true)
			switch {
			case now.Off && r.p(0.5):
				o.TLS = "off"
			case ph.Imposter == "" && r.p(0.1):
				o.TLS = "off"
			case r.p(0.5):
				o.TLS = now.Cert
				if o.TLS == "issued" {
					o.TLS = "ca"
				}
			default:
				o.TLS = r.of("good", "ca", "one", "issued", "elsewhere", "expired", "early", "good+ca", "foreign+good", "ca+one", "elsewhere+ca", "missing", "garbage", "empty")
			}
			if strings.HasPrefix(ph.Imposter, "foreign") && strings.Contains(o.TLS, "foreign") {
				// It would be right to believe the imposter.
				o.TLS = "good"
			}
			o.Style |= r.n(3) << 10
			cs = append(cs, o)
		}
		ph.Clients = append(ph.Clients, cs)
		if r.p(0.3) {
			ph.Faults = []string{r.of("F.eio", "F.eio", "F.emfile", "F.emfile", "F.short", "N.lost", "N.delay")}
			sc.Prof.P[ph.Faults[0]] = []float64{0.03, 0.1, 0.3}[r.n(3)]
			if r.p(0.5) {
				ph.FaultOn = "trust"
				if r.p(0.6) {
					// The second connection fails where the first worked.
					sc.Prof.P[ph.Faults[0]] = 0.4
				}
			}
		}
		if r.p(0.7) {
			ph.Restart = r.of("stop", "kill")
			ph.TLS = srv()
			switch r.n(5) {
			case 0, 1:
				ph.TLS.Off = false
				x := r.of("missing", "garbage", "empty", "good", "foreign", "ca")
				if r.p(0.5) {
					ph.TLS.Cert = x
				} else {
					ph.TLS.Key = x
				}
			case 2:
				ph.FaultStart = true
				for _, k := range []string{"F.eio", "F.emfile", "F.short"} {
					if r.p(0.5) {
						sc.Prof.P[k] = []float64{0.01, 0.05, 0.2}[r.n(3)]
					}
				}
			}
			now = ph.TLS
			if !now.usable() {
				now = &TLSCfg{Cert: "good", Key: "good", Path: now.Path}
			}
		}
		sc.Phases = append(sc.Phases, ph)
	}
}
