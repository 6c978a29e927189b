// Package credentials is the simulated replacement of
// google.golang.org/grpc/credentials: the real thing, except that files
// and clocks are those of the simulated world.
package credentials

import (
	"crypto/tls"
	"crypto/x509"
	"errors"
	"time"

	std "google.golang.org/grpc/credentials"

	"verif.local/sim/simos"
	"verif.local/sim/simrt"
	simtls "verif.local/sim/simtls"
)

// NewTLS uses TLS.
func NewTLS(c *tls.Config) TransportCredentials {
	c = c.Clone()
	if c == nil {
		c = &tls.Config{}
	}
	if c.Time == nil {
		if t := simrt.Cur(); t != nil {
			// Handshakes happen in the process the credentials
			// were made in.
			w, p := t.World(), t.Proc
			c.Time = func() time.Time { return w.Wall(p) }
		}
	}
	return std.NewTLS(c)
}

// NewClientTLSFromCert trusts the given certificates.
func NewClientTLSFromCert(cp *x509.CertPool, name string) TransportCredentials {
	return NewTLS(&tls.Config{ServerName: name, RootCAs: cp})
}

// NewClientTLSFromFile trusts the certificates of a file.
func NewClientTLSFromFile(file, name string) (TransportCredentials, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	cp := x509.NewCertPool()
	if !cp.AppendCertsFromPEM(b) {
		return nil, errors.New("credentials: failed to append certificates")
	}
	return NewClientTLSFromCert(cp, name), nil
}

// NewServerTLSFromCert presents a certificate.
func NewServerTLSFromCert(cert *tls.Certificate) TransportCredentials {
	return NewTLS(&tls.Config{Certificates: []tls.Certificate{*cert}})
}

// NewServerTLSFromFile presents a certificate.
func NewServerTLSFromFile(certFile, keyFile string) (TransportCredentials, error) {
	cert, err := simtls.LoadX509KeyPair(certFile, keyFile)
	if err != nil {
		return nil, err
	}
	return NewServerTLSFromCert(&cert), nil
}
