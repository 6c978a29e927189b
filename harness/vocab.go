package main

import (
	"fmt"
	"strings"
	"unicode"

	types "github.com/netauth/protocol"
)

// Names that resemble each other, in ways an implementation could mix
// up: parts of one another, different case, other spelling.
var entNames = [][]string{
	{"al", "alice", "alic", "alicea", "a"},
	{"bob", "Bob", "BOB", "bo", "bobob"},
	{"x.y", "x-y", "x_y", "x@y", "xy"},
	{"1", "10", "01", "11", "100"},
	{"roo", "roots", "Root", "ROOT", "toor"},
	{"ä", "a", "äb", "Ä", "ae"},
	{"g1", "g2", "g3", "g4", "g5"},
	{"a b", "a", "b", "ab", "a b c"},
	{".al", "al", "al~", "al.tmp", "al" + strings.Repeat("x", 60), "al" + strings.Repeat("x", 61)},
}

var groupNames = [][]string{
	{"g", "g1", "g10", "g11", "gg"},
	{"staff", "Staff", "staf", "staffs", "taff"},
	{"wheel", "wheel-admin", "admin", "heel", "wheel-admins"},
	{"INCLUDE", "EXCLUDE", "include", "ALL", "all"},
	{"alice", "bob", "carol", "dave", "erin"},
	{"a:b", "a", "b", "a:", "b:a"},
	{"1", "10", "01", "11", "100"},
	{".g", "g", "g~", "g.bak", "g" + strings.Repeat("x", 60), "g" + strings.Repeat("x", 61)},
}

var baseSecrets = []string{"secret", "s", "correct horse battery staple", "pässwörd", "p@ss:w/ord", "Secret1", "0", "$2a$04$abcdefghijklmnopqrstuv", "$2y$", "$2",
	"{SSHA}abc", "<REDACTED>", "null", "%s%n", "sécret\u0301", strings.Repeat("q", 71), strings.Repeat("q", 72)}

// near returns something that resembles x.
func near(r *rng, x string) string {
	l := []string{x + " ", " " + x, x + "\n", x + "\t", "\t" + x, x + "x", x + x, strings.ToUpper(x), strings.ToLower(x), strings.TrimSpace(x), x + ":", x + "\x00", x + "\x00" + x, ""}
	if x != "" {
		rs := []rune(x)
		l = append(l, string(rs[:len(rs)-1]), string(rs[1:]), string(rs[:len(rs)/2]))
		rs = append([]rune{}, rs...)
		i := r.n(len(rs))
		if unicode.IsUpper(rs[i]) {
			rs[i] = unicode.ToLower(rs[i])
		} else {
			rs[i] = unicode.ToUpper(rs[i])
		}
		l = append(l, string(rs))
	}
	return l[r.n(len(l))]
}

// uniq keeps the first n different ones.
func uniq(l []string, n int) []string {
	var out []string
	for _, x := range l {
		if !has(out, x) && len(out) < n {
			out = append(out, x)
		}
	}
	return out
}

func someOf(r *rng, l []string, n int) []string {
	l = append([]string{}, l...)
	for i := range l {
		j := i + r.n(len(l)-i)
		l[i], l[j] = l[j], l[i]
	}
	if n > len(l) {
		n = len(l)
	}
	return l[:n]
}

// rich replaces parts of the vocabulary by less usual words.
func (g *gen) rich() {
	r := g.r
	if r.p(0.3) {
		g.ents = someOf(r, entNames[r.n(len(entNames))], 3)
	}
	if r.p(0.3) {
		g.groups = someOf(r, groupNames[r.n(len(groupNames))], 3)
	}
	if r.p(0.4) {
		g.secrets = g.someSecrets()
		g.nearS = 0.2
	}
	if r.p(0.5) {
		g.umKeys = someOf(r, []string{"k", "k{0}", "k{1}", "k{9}", "k{10}", "k{11}", "k{100}", "k{01}", "k{-1}", "k{}", "k{a}", "k{1}x", "k{1}{2}", "k {1}", "kk", "K", "{1}", "other", "k.", "k*", "K{10}", "ö{12}"}, 6)
	}
	if r.p(0.4) {
		g.vals = someOf(r, []string{"v", "w", "v:w", "", "x{1}", "V", " v", "v ", "k{1}:v", ":", "::", "v\nw", "v,w", "\"v\"", "ü", strings.Repeat("v", 300), "{10}", "*", "a:b:c"}, 5)
	}
	if r.p(0.4) {
		g.kvKeys = someOf(r, []string{"a", "aa", "A", "b", "a:b", "a ", "a*", "a{1}", "ab", "ä", ".", "a.b", "a/b", "b:", ":", "k1"}, 5)
	}
	if r.p(0.4) {
		g.keyVals = someOf(r, []string{"k1", "k12", "k", "k1 user@host", "a:b", "K1", " k1", "k1 ", "ssh:k1", ":", "AAAAB3Nza/+==", "k1 user@host2", "1k", ""}, 5)
		g.keyTypes = someOf(r, []string{"ssh", "SSH", "Ssh", "pgp", "ss", "sshd", "x509", "ssh-rsa", ""}, 4)
	}
	if r.p(0.3) {
		g.idx = []int32{0, 1, 2, 9, 10, 11, 100, 2147483647, -1}
	}
	if r.p(0.2) {
		g.kvN = 14
	}
	g.bulk = 0.07
}

// moreGroups is up to n group names.
func (g *gen) moreGroups(n int) []string {
	l := append(append([]string{}, g.groups...), "g4", "g5", "h6", "h7", "i8", "i9", "j10", "j11")
	return uniq(l, n)
}

// shape connects the groups by rules in a pattern that has depth or
// width.
func (g *gen) shape() {
	r, l := g.r, append([]string{}, g.groups...)
	for i := range l {
		j := r.n(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	ex := []float64{0, 0.15, 0.5}[r.n(3)]
	rule := func(a, b int) {
		act := "INCLUDE"
		if r.p(ex) {
			act = "EXCLUDE"
		}
		g.mk(&Op{K: "GroupUpdateRules", G: l[a], T: l[b], Act: act})
	}
	switch r.n(5) {
	case 0, 1: // a chain
		order := make([]int, len(l)-1)
		for i := range order {
			j := r.n(i + 1)
			order[i] = order[j]
			order[j] = i
		}
		if r.p(0.5) {
			for i := range order {
				order[i] = i
			}
		}
		for _, i := range order {
			rule(i, i+1)
		}
	case 2: // a star
		ex = []float64{0.1, 0.5, 0.9}[r.n(3)]
		g.mk(&Op{K: "GroupAddMember", E: g.ent(), Gs: []string{l[0]}})
		for i := 1; i < len(l); i++ {
			rule(0, i)
		}
	case 3: // anything without cycles
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				if r.p(0.35) {
					rule(i, j)
				}
			}
		}
	case 4: // many that share one
		for i := 1; i < len(l)-1; i++ {
			rule(0, i)
			rule(i, len(l)-1)
		}
	}
	for _, e := range g.ents {
		for k := r.n(3); k > 0; k-- {
			g.mk(&Op{K: "GroupAddMember", E: e, Gs: []string{l[r.n(len(l))]}})
		}
		g.mk(&Op{K: "GroupAddMember", E: e, Gs: []string{l[len(l)-1-r.n(2)]}})
	}
}

func (g *gen) someSecrets() []string {
	r := g.r
	b := baseSecrets[r.n(len(baseSecrets))]
	l := []string{b}
	for len(l) < 3 {
		x := near(r, b)
		if r.p(0.3) {
			x = baseSecrets[r.n(len(baseSecrets))]
		}
		if len(x) <= 72 && !strings.Contains(x, "\x00") {
			l = uniq(append(l, x), 3)
		}
	}
	return l
}

// many sets up a large number of records or items of one kind.
func (g *gen) many() { g.manyOf(g.r.n(8)) }

func (g *gen) manyOf(kind int) {
	r := g.r
	n := 11 + r.n(14)
	e, gr := g.ents[0], g.groups[0]
	g.mk(&Op{K: "EntityCreate", E: e, S: g.secrets[0], N: np(-1)}, &Op{K: "GroupCreate", G: gr, N: np(-1)})
	name := func(i int) string { return fmt.Sprintf("m%02d", i) }
	switch kind {
	case 0: // many entities with something in common
		dn := g.pick(g.dns)
		for i := 0; i < n; i++ {
			g.mk(&Op{K: "EntityCreate", E: name(i), S: g.secrets[0], N: np(-1)})
			if r.p(0.9) {
				g.mk(&Op{K: "EntityUpdate", E: name(i), Ent: &types.Entity{Meta: &types.EntityMeta{DisplayName: sp(dn), Shell: sp(dn)}}})
			}
		}
	case 1: // many members
		for i := 0; i < n; i++ {
			g.mk(&Op{K: "EntityCreate", E: name(i), S: g.secrets[0], N: np(-1)}, &Op{K: "GroupAddMember", E: name(i), Gs: []string{gr}})
		}
	case 2: // many groups of one entity
		dn := g.pick(g.dns)
		for i := 0; i < n; i++ {
			g.mk(&Op{K: "GroupCreate", G: name(i), DN: dn, MB: gr, N: np(-1)}, &Op{K: "GroupAddMember", E: e, Gs: []string{name(i)}})
		}
	case 3: // a long chain of groups
		p := gr
		for i := 0; i < n; i++ {
			g.mk(&Op{K: "GroupCreate", G: name(i), N: np(-1)})
			a, b := p, name(i)
			if r.p(0.3) {
				a, b = b, a
			}
			g.mk(&Op{K: "GroupUpdateRules", G: a, T: b, Act: r.of("INCLUDE", "INCLUDE", "INCLUDE", "INCLUDE", "EXCLUDE")})
			p = name(i)
		}
		g.mk(&Op{K: "GroupAddMember", E: e, Gs: []string{p}})
	case 4: // many rules of one group
		for i := 0; i < n; i++ {
			g.mk(&Op{K: "GroupCreate", G: name(i), N: np(-1)}, &Op{K: "GroupUpdateRules", G: gr, T: name(i), Act: r.of("INCLUDE", "INCLUDE", "EXCLUDE")})
			if r.p(0.2) {
				g.mk(&Op{K: "GroupAddMember", E: e, Gs: []string{name(i)}})
			}
		}
	case 5: // many keys
		for i := 0; i < n; i++ {
			g.mk(&Op{K: "EntityKeys", E: e, Act: "ADD", Key: g.pick(g.keyTypes), Val: name(i)})
		}
		g.keyVals = append(g.keyVals, name(0), name(n/2), name(n-1))
	case 6: // much metadata
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k{%d}", i)
			g.mk(&Op{K: "EntityUM", E: e, Act: "UPSERT", Key: k, Val: name(i)}, &Op{K: "GroupUM", G: gr, Act: "UPSERT", Key: k, Val: name(i)})
			if i%3 == 0 {
				g.umKeys = append(g.umKeys, k)
			}
		}
	case 7: // much key/value data
		for i := 0; i < n; i++ {
			g.mk(&Op{K: "EntityKVAdd", E: e, Key: name(i), Vals: g.kvs()}, &Op{K: "GroupKVAdd", G: gr, Key: name(i), Vals: g.kvs()})
			if i%3 == 0 {
				g.kvKeys = append(g.kvKeys, name(i))
			}
		}
	}
	for i := 0; i < n; i += 5 {
		if r.p(0.3) {
			g.ents = append(g.ents, name(i))
		}
		if r.p(0.3) {
			g.groups = append(g.groups, name(i))
		}
	}
}
