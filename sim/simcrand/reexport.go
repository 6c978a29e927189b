// Package rand is the simulated replacement of crypto/rand: bytes are
// a function of the seed, the task and the position in its stream.
package rand

import (
	std "crypto/rand"
	"io"
	"math/big"

	"verif.local/sim/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	t := simrt.Cur()
	if t == nil {
		return std.Read(b)
	}
	w := t.World()
	for i := 0; i < len(b); i += 8 {
		v := w.Rand(t.Name, "rand", t.Inc("rand"))
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return len(b), nil
}

// Reader is the deterministic source.
var Reader io.Reader = reader{}

// Read fills b.
func Read(b []byte) (int, error) { return Reader.Read(b) }

// Int returns a uniform value in [0, max).
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return std.Int(r, max) }

// Prime returns a prime.
func Prime(r io.Reader, bits int) (*big.Int, error) { return std.Prime(r, bits) }

// Text returns random text.
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
