package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	types "github.com/netauth/protocol"
)

// Searching is specified by conditions on the words of fields, given
// along with the expression that is sent:
//
//	field=words   the field contains those words in a row
//	field^start   a word of the field starts that way
//	field#n       the number
//	none          nothing
//	!condition    not so
//
// joined by "&"; no condition matches every record.

// words are what texts are compared by.
func words(x string) []string {
	rs := []rune(strings.ToLower(x))
	part := func(i int) bool {
		return i >= 0 && i < len(rs) && (unicode.IsLetter(rs[i]) || unicode.IsDigit(rs[i]) || unicode.Is(unicode.Mn, rs[i]) || rs[i] == '_')
	}
	// Punctuation within a word belongs to it.
	mid := func(i int) bool {
		if i <= 0 || i+1 >= len(rs) {
			return false
		}
		a, b := rs[i-1], rs[i+1]
		switch rs[i] {
		case '.':
			return unicode.IsLetter(a) && unicode.IsLetter(b) || unicode.IsDigit(a) && unicode.IsDigit(b)
		case ':':
			return unicode.IsLetter(a) && unicode.IsLetter(b)
		}
		return false
	}
	var out []string
	cur := ""
	for i := range rs {
		if part(i) || mid(i) {
			cur += string(rs[i])
			continue
		}
		if cur != "" {
			out = append(out, cur)
		}
		cur = ""
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

// fieldsOfE are the values of a field.
func fieldsOfE(e *types.Entity, f string) []string {
	m := e.GetMeta()
	switch f {
	case "ID":
		return []string{e.GetID()}
	case "meta.PrimaryGroup":
		return []string{m.GetPrimaryGroup()}
	case "meta.GECOS":
		return []string{m.GetGECOS()}
	case "meta.LegalName":
		return []string{m.GetLegalName()}
	case "meta.DisplayName":
		return []string{m.GetDisplayName()}
	case "meta.Home":
		return []string{m.GetHome()}
	case "meta.Shell":
		return []string{m.GetShell()}
	case "meta.GraphicalShell":
		return []string{m.GetGraphicalShell()}
	case "meta.BadgeNumber":
		return []string{m.GetBadgeNumber()}
	case "meta.Groups":
		return m.GetGroups()
	case "Number":
		return []string{fmt.Sprint(e.GetNumber())}
	}
	panic("search: " + f)
}

func fieldsOfG(g *types.Group, f string) []string {
	switch f {
	case "Name":
		return []string{g.GetName()}
	case "DisplayName":
		return []string{g.GetDisplayName()}
	case "ManagedBy":
		return []string{g.GetManagedBy()}
	case "Number":
		return []string{fmt.Sprint(g.GetNumber())}
	}
	panic("search: " + f)
}

// matches evaluates a condition.
func matches(want string, get func(f string) []string) bool {
	if want == "" {
		return true
	}
	for _, c := range strings.Split(want, "&") {
		not := strings.HasPrefix(c, "!")
		c = strings.TrimPrefix(c, "!")
		if c == "none" {
			if !not {
				return false
			}
			continue
		}
		i := strings.IndexAny(c, "=^#")
		f, op, v := c[:i], c[i], c[i+1:]
		ok := false
		for _, x := range get(f) {
			switch op {
			case '#':
				ok = ok || x == v
			case '^':
				for _, w := range words(x) {
					ok = ok || strings.HasPrefix(w, v)
				}
			case '=':
				ws, vs := words(x), words(v)
				for a := 0; a+len(vs) <= len(ws); a++ {
					eq := true
					for b := range vs {
						eq = eq && ws[a+b] == vs[b]
					}
					ok = ok || eq
				}
			}
		}
		if ok == not {
			return false
		}
	}
	return true
}

func (m *Model) search(st *St, op *Op, ents bool) string {
	var l []string
	if ents {
		for _, e := range st.E {
			if matches(op.Want, func(f string) []string { return fieldsOfE(e, f) }) {
				l = append(l, canonE(e))
			}
		}
	} else {
		for _, g := range st.G {
			if matches(op.Want, func(f string) []string { return fieldsOfG(g, f) }) {
				l = append(l, canonG(g))
			}
		}
	}
	return strings.Join(sorted(l), " | ")
}

// is builds the expression and the condition for one value.
func (g *gen) is(f, v string) (x, want string) {
	ws := words(v)
	one := len(ws) == 1 && ws[0] == strings.ToLower(v) && strings.IndexFunc(v, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) }) < 0
	if _, err := strconv.Atoi(v); err == nil {
		// A number is one, too.
		one = one && f != "Number"
	}
	switch {
	case one && g.r.p(0.15):
		rs := []rune(ws[0])
		p := string(rs[:1+g.r.n(len(rs))])
		return f + ":" + p + "*", f + "^" + p
	case one && g.r.p(0.8):
		return f + ":" + v, f + "=" + v
	}
	return f + ":\"" + v + "\"", f + "=" + v
}

// searches lists search expressions with what they must find.
func searches(g *gen) (es, gs []string) {
	g.dns = []string{"apple", "pear", "fig"}
	if g.r.p(0.5) {
		g.dns = someOf(g.r, []string{"apple", "Apple", "apple tree", "tree", "apples", "appl", "the apple", "a", "it", "all of us", "pear-apple", "/bin/apple", "1", "10", "2024-02-03", "ap_ple", "ÄPFEL", "apple apple", "tree apple"}, 4)
	}
	var e, gr [][2]string
	ae := func(f, v string) {
		if len(words(v)) == 0 {
			return
		}
		x, w := g.is(f, v)
		e = append(e, [2]string{x, w})
	}
	ag := func(f, v string) {
		if len(words(v)) == 0 {
			return
		}
		x, w := g.is(f, v)
		gr = append(gr, [2]string{x, w})
	}
	for _, x := range g.ents {
		ae("ID", x)
	}
	for _, x := range g.groups {
		ag("Name", x)
		ag("ManagedBy", x)
		ae("meta.Groups", x)
	}
	for _, v := range g.dns {
		for _, f := range fieldsE {
			ae(f, v)
		}
		ag("DisplayName", v)
	}
	for i := 0; i < 2; i++ {
		n := fmt.Sprint(1 + g.r.n(7))
		e = append(e, [2]string{"Number:" + n, "Number#" + n})
		gr = append(gr, [2]string{"Number:" + n, "Number#" + n})
	}
	// What is attached and not processed, and what is secret, is not to be
	// searched for.
	for i := 0; i < 3; i++ {
		x := g.r.of("secret:*", "secret:$*", "secret:\""+"rootpw"+"\"", "meta.Keys:*", "meta.UntypedMeta:*", "meta.Keys:s*", "meta.UntypedMeta:k*", "meta.Keys:p*",
			"secret:\"2a\"", "meta.UntypedMeta:\"w\"", "Secret:*", "meta.Keys:\"k1\"")
		e = append(e, [2]string{x, "none"})
		gr = append(gr, [2]string{g.r.of("UntypedMeta:*", "UntypedMeta:k*", "UntypedMeta:\"w\"", "untypedmeta:*"), "none"})
	}
	comb := func(l [][2]string) (out []string) {
		for _, x := range l {
			out = append(out, x[0]+"|"+x[1])
		}
		for i := 0; i < 4; i++ {
			a, b := l[g.r.n(len(l))], l[g.r.n(len(l))]
			if g.r.p(0.5) {
				out = append(out, "+"+a[0]+" +"+b[0]+"|"+a[1]+"&"+b[1])
			} else {
				out = append(out, "+"+a[0]+" -"+b[0]+"|"+a[1]+"&!"+b[1])
			}
		}
		return append(out, "*|")
	}
	return comb(e), comb(gr)
}
