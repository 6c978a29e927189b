// Package rsa is the simulated replacement of crypto/rsa: key
// generation takes keys from a fixed pool instead of searching primes
// with real randomness; everything else is the real thing.
package rsa

import (
	std "crypto/rsa"
	"crypto/x509"
	_ "embed"
	"encoding/pem"
	"io"

	"verif.local/sim/simrt"
)

//go:embed pool.pem
var poolPEM []byte

var pool = map[int][]*std.PrivateKey{}

func init() {
	rest := poolPEM
	for {
		var b *pem.Block
		b, rest = pem.Decode(rest)
		if b == nil {
			return
		}
		k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
		if err != nil {
			panic(err)
		}
		pool[k.N.BitLen()] = append(pool[k.N.BitLen()], k)
	}
}

// GenerateKey takes the next key of the pool.
func GenerateKey(random io.Reader, bits int) (*std.PrivateKey, error) {
	t := simrt.Cur()
	l := pool[bits]
	if t == nil || len(l) == 0 {
		return std.GenerateKey(random, bits)
	}
	w := t.World()
	n, _ := w.Ext.Get("rsan").(int)
	w.Ext.Set("rsan", n+1)
	t.Point("rsa")
	k := *l[n%len(l)]
	return &k, nil
}

// Pool gives the harness a key of its own.
func Pool(bits, i int) *std.PrivateKey { l := pool[bits]; return l[len(l)-1-i%len(l)] }
