package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/pem"
	"fmt"
	"strings"

	"github.com/golang/protobuf/ptypes/empty"
	rpc "github.com/netauth/protocol/v2"
	std "google.golang.org/grpc"

	simcreds "verif.local/sim/simcredentials"
	grpc "verif.local/sim/simgrpc"
	net "verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

// Transport security: server and client get certificates that fit or do
// not fit, and somebody else may answer in the server's place.

// TLSCfg is what a server finds at its start.  The files are named after
// the certificates they contain; "missing", "garbage" and "empty" are
// what they say.
type TLSCfg struct {
	Off  bool   `json:"off,omitempty"`
	Cert string `json:"cert,omitempty"`
	Key  string `json:"key,omitempty"`
	Path int    `json:"path,omitempty"` // how the configuration names the files
}

// usable tells whether a server can serve with it.
func (c *TLSCfg) usable() bool {
	return c == nil || c.Off || c.Cert == c.Key && certs[c.Cert].cert != ""
}

var tlsPaths = [][2]string{{"keys/tls.pem", "keys/tls.key"}, {"srv/c.pem", "srv/k.pem"}, {"/srv/tls/cert", "/srv/tls/key"}, {"tls.pem", "/srv/tls/../tls/key"}}

func (c *TLSCfg) config() string {
	if c == nil || c.Path == 0 {
		return ""
	}
	p := tlsPaths[c.Path]
	return fmt.Sprintf("[tls]\ncertificate=%q\nkey=%q\n", p[0], p[1])
}

func inConf(p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	return conf + "/" + p
}

func (l *Lab) writePEM(path, what string, key bool) {
	path = strings.Replace(path, "/../tls", "", 1)
	var d string
	switch what {
	case "missing":
		l.FS.Unlink(path)
		return
	case "empty":
	case "garbage":
		d = "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"
	default:
		for _, x := range strings.Split(what, "+") {
			if key {
				d += certs[x].key
			} else {
				d += certs[x].cert
			}
		}
	}
	l.FS.MustMkdirAll(path[:strings.LastIndexByte(path, '/')])
	l.FS.MustWrite(path, []byte(d), 0600)
}

func (l *Lab) writeTLS() {
	c := l.Cfg.TLS
	if c == nil {
		return
	}
	for _, p := range tlsPaths {
		l.writePEM(inConf(p[0]), "missing", false)
		l.writePEM(inConf(p[1]), "missing", true)
	}
	p := tlsPaths[c.Path]
	l.writePEM(inConf(p[0]), c.Cert, false)
	l.writePEM(inConf(p[1]), c.Key, true)
	l.FS.Settle()
}

// cliTLS is what a command is configured with, and the path of the file
// with the certificates it trusts.
func (l *Lab) cliTLS(op *Op) string {
	if op.TLS == "" || op.TLS == "off" {
		return "[tls]\npwn_me=true\n"
	}
	p := []string{"keys/trust.pem", "/home/operator/trust", "keys/tls.pem"}[op.Style>>10%3]
	if p == "keys/tls.pem" {
		// The default, and the same file as that of the server.
		c := l.Cfg.TLS
		if c.Path == 0 && c.Cert == op.TLS && !c.Off {
			l.writePEM("/home/operator/"+p, op.TLS, false)
			return ""
		}
		p = "keys/trust.pem"
	}
	l.writePEM(inConf(p), op.TLS, false)
	if p[0] != '/' {
		l.writePEM("/home/operator/"+p, op.TLS, false)
	}
	return fmt.Sprintf("[tls]\ncertificate=%q\n", p)
}

// trusts tells whether the certificates of a client make it accept a
// server's for a host.
func trusts(bundle, cert, host string) bool {
	by := cert
	switch cert {
	case "issued":
		by = "ca"
	case "good", "foreign":
	case "one":
		if host != "replica" && host != "localhost" && host != "10.0.0.7" {
			return false
		}
	default:
		return false
	}
	for _, x := range strings.Split(bundle, "+") {
		if x == by || x == cert {
			return true
		}
	}
	return false
}

func host(target string) string { return target[:strings.IndexByte(target, ':')] }

// certName finds out which certificate was presented.
func certName(der []byte) string {
	for n, c := range certs {
		if b, _ := pem.Decode([]byte(c.cert)); bytes.Equal(b.Bytes, der) {
			return n
		}
	}
	return "?"
}

// reach tells whether a command can talk to the server at a target.
func (s *session) reach(op *Op, target string) bool {
	c := s.l.Cfg.TLS
	if a, _ := s.l.W.Ext.Get("alias:" + target).(string); a != addr {
		return false
	}
	if c == nil || c.Off {
		return op.TLS == "" || op.TLS == "off"
	}
	return trusts(op.TLS, c.Cert, host(target))
}

// checkWire judges how the requests of a command travelled.
func (s *session) checkWire(r *cliRun, pl *plan) {
	op := r.op
	for _, x := range r.calls {
		c := x.rec.Call
		if !c.Delivered {
			continue
		}
		evil := c.Srv == s.evil
		if op.TLS == "off" || op.TLS == "" {
			if t := s.l.Cfg.TLS; t != nil && !t.Off && !evil {
				s.cliFail(r, pl, "the server answers %s over an unprotected connection", x.method)
			}
			continue
		}
		switch n := certName(c.Peer); {
		case !c.TLS:
			s.cliFail(r, pl, "sends %s over an unprotected connection", x.method)
		case !trusts(op.TLS, n, host(x.target)):
			s.cliFail(r, pl, "trusts %q and sends %s to %s, which presents the certificate %q", op.TLS, x.method, x.target, n)
		}
	}
}

// cut tells whether the command can not talk to all the servers it may
// want to talk to, and judges it then.
func (s *session) checkCut(r *cliRun, pl *plan) bool {
	op := r.op
	main := cliReads
	if pl.write && !op.style(6) {
		main = cliWrites
	}
	if pl.bad || s.reach(op, cliReads) && s.reach(op, main) {
		return false
	}
	s.mark("cli-no-connection")
	if s.cache == nil {
		s.cache = map[string][]*Token{}
	}
	zero := r.p.Exited && r.p.ExitCode == 0
	for _, x := range r.calls {
		if x.method == "AuthGetToken" && x.done && x.err == nil {
			s.cache[op.E] = append([]*Token{x.rec.New}, s.cached(op.E)...)
		}
	}
	if pl.op == nil || pl.op.K == "AuthGetToken" {
		if op.Sub.K == "destroy" && zero {
			s.cache[op.E] = []*Token{nil}
		} else if op.Sub.K == "destroy" {
			s.cache[op.E] = append([]*Token{nil}, s.cached(op.E)...)
		}
		return true
	}
	if zero && !s.reach(op, main) {
		s.cliFail(r, pl, "exit status 0 although there is no connection")
	}
	if !s.reach(op, main) && r.p.Exited && !zero && r.out.Len()+r.err.Len() == 0 && pl.op.K != "AuthEntity" {
		s.cliFail(r, pl, "does not tell the error")
	}
	return true
}

func (s *session) cached(e string) []*Token {
	if s.cache == nil {
		s.cache = map[string][]*Token{}
	}
	c, ok := s.cache[e]
	if !ok {
		c = []*Token{nil}
	}
	return c
}

// imposter is a server that is glad about every request.
func (s *session) imposter(how string) {
	l := s.l
	if s.evil != nil {
		for _, a := range []string{cliReads, cliWrites} {
			l.W.Ext.Set("alias:"+a, addr)
		}
	}
	if how == "" {
		return
	}
	s.nevil++
	p := l.W.NewProc(fmt.Sprintf("evil%d", s.nevil))
	at := fmt.Sprintf("evil:%d", s.nevil)
	up := false
	targets := []string{cliReads, cliWrites}
	if strings.HasSuffix(how, "/") {
		targets, how = targets[1:], how[:len(how)-1]
	}
	l.W.StartProc(p, p.Name, func() {
		var opts []grpc.ServerOption
		if how != "plain" {
			c, err := x509pair(how)
			if err != nil {
				panic(err)
			}
			opts = append(opts, grpc.Creds(simcreds.NewServerTLSFromCert(c)))
		}
		opts = append(opts, grpc.UnaryInterceptor(func(ctx context.Context, req interface{}, info *std.UnaryServerInfo, h std.UnaryHandler) (interface{}, error) {
			if strings.HasSuffix(info.FullMethod, "/AuthGetToken") {
				t := "x.y.z"
				return &rpc.AuthResult{Token: &t}, nil
			}
			return &empty.Empty{}, nil
		}))
		srv := grpc.NewServer(opts...)
		rpc.RegisterNetAuth2Server(srv, struct{ rpc.NetAuth2Server }{})
		sock, err := net.Listen("tcp", at)
		if err != nil {
			panic(err)
		}
		s.evil = srv
		up = true
		srv.Serve(sock)
	})
	if o := l.W.RunUntil(func() bool { return up && l.W.Ext.Get("srv:"+at) != nil }); o != simrt.OK {
		s.fail("harness", "imposter: %s", o)
	}
	for _, a := range targets {
		l.W.Ext.Set("alias:"+a, at)
	}
}

func x509pair(name string) (*tls.Certificate, error) {
	c, err := tls.X509KeyPair([]byte(certs[name].cert), []byte(certs[name].key))
	return &c, err
}
