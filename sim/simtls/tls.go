// Package tls is the simulated replacement of crypto/tls: the real
// thing, except that files are those of the simulated world.
package tls

import (
	std "crypto/tls"

	"verif.local/sim/simos"
)

// LoadX509KeyPair reads a certificate and its key.
func LoadX509KeyPair(certFile, keyFile string) (Certificate, error) {
	c, err := os.ReadFile(certFile)
	if err != nil {
		return Certificate{}, err
	}
	k, err := os.ReadFile(keyFile)
	if err != nil {
		return Certificate{}, err
	}
	return std.X509KeyPair(c, k)
}
