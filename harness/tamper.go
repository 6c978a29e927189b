package main

import (
	stdrsa "crypto/rsa"
	"encoding/base64"
	"strings"

	jwt "github.com/dgrijalva/jwt-go"

	rsa "verif.local/sim/simrsa"
	"verif.local/sim/simrt"
)

// tamper returns an altered form of a token; none of them may be
// accepted.
func tamper(t *Token, how string) *Token {
	bad := &Token{Str: t.Str, E: t.E, Caps: t.Caps, Foreign: true}
	p := strings.Split(t.Str, ".")
	if len(p) != 3 {
		return bad
	}
	flip := func(s string, i int) string {
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		b := []byte(s)
		b[i] = al[(strings.IndexByte(al, b[i])+17)%64]
		return string(b)
	}
	dec := func(s string) string {
		b, _ := base64.RawURLEncoding.DecodeString(s)
		return string(b)
	}
	enc := func(s string) string { return base64.RawURLEncoding.EncodeToString([]byte(s)) }
	claims := jwt.MapClaims{}
	claimsOf := func() jwt.MapClaims {
		new(jwt.Parser).ParseUnverified(t.Str, claims)
		return claims
	}
	switch how {
	case "sig":
		p[2] = flip(p[2], len(p[2])/2)
	case "claims":
		c := dec(p[1])
		n := strings.Replace(c, `"Capabilities":[`, `"Capabilities":[0,`, 1)
		if n == c {
			n = strings.Replace(c, "{", `{"x":1,`, 1)
		}
		p[1] = enc(n)
	case "exp":
		c := dec(p[1])
		i := strings.Index(c, `"exp":`)
		if i < 0 {
			p[1] = enc(c + " ")
			break
		}
		p[1] = enc(c[:i+6] + "9" + c[i+6:])
	case "ent":
		c := dec(p[1])
		p[1] = enc(strings.Replace(c, `"EntityID":"`, `"EntityID":"x`, 1))
	case "alg":
		p[0] = enc(`{"alg":"none","typ":"JWT"}`)
		p[2] = ""
	case "trunc":
		p[2] = p[2][:len(p[2])-8]
	case "foreign":
		s, err := jwt.NewWithClaims(jwt.SigningMethodRS512, claimsOf()).SignedString(foreignKey())
		if err != nil {
			panic(err)
		}
		p = strings.Split(s, ".")
	case "hs":
		// The well-known confusion of a public key with a shared
		// secret.
		pub := []byte("public")
		if lab := labOf(); lab != nil {
			if b, ok := lab.readFile(conf + "/keys/token.pem"); ok {
				pub = b
			}
		}
		s, err := jwt.NewWithClaims(jwt.SigningMethodHS256, claimsOf()).SignedString(pub)
		if err != nil {
			panic(err)
		}
		p = strings.Split(s, ".")
	}
	bad.Str = strings.Join(p, ".")
	return bad
}

func foreignKey() *stdrsa.PrivateKey { return rsa.Pool(1024, 0) }

// readFile looks at the simulated disk.
func (l *Lab) readFile(p string) ([]byte, bool) {
	n, err := l.FS.Walk(p, true)
	if err != nil || n == nil || n.Dir {
		return nil, false
	}
	return append([]byte(nil), n.Data...), true
}

func labOf() *Lab {
	if w := simrt.W(); w != nil {
		l, _ := w.Ext.Get("lab").(*Lab)
		return l
	}
	return nil
}

func b64(s string) []byte {
	b, _ := base64.RawURLEncoding.DecodeString(s)
	return b
}
