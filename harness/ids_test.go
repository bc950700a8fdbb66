package harness

import (
	"fmt"
	"slices"
	"strings"
)

// Identifier pools. Small, shared between kinds of entity (a tenant, a role and a principal
// may have the same name) and with hostile members: separators, case variants, prefixes of
// each other, blanks, unicode, the words the code itself uses.
var hostileIDs = []string{
	"a", "A", "b", "ab", "a_b", "_", "a__b", "true", "false", "b_true", "a/b", "/", "*", ":", ":a", "a b", " a", "a ", "é", "日本",
	"a\x00b", "%s", "%!v(MISSING)", "null", "nil", "0", "1", "01", "\t", "a|b", "id:a|", "{}", "\"a\"", "ａ", "a\u0301",
}

// names returns n distinct identifiers; plain ones mostly, hostile ones sometimes.
func names(c *C, prefix string, n int) []string {
	if c.vocab != nil { // several policies over the same identifiers
		xs := c.vocab[prefix]
		for len(xs) < n {
			if x := fmt.Sprintf("%s%d", prefix, len(xs)); !slices.Contains(xs, x) {
				xs = append(xs, x)
			} else {
				xs = append(xs, fmt.Sprintf("%s+%d", prefix, len(xs)))
			}
		}
		c.vocab[prefix] = xs
		return slices.Clone(xs[:n])
	}
	out := make([]string, 0, n)
	seen := map[string]bool{}
	hostile := c.Chance(40)
	if n <= 12 && c.Chance(20) {
		return confusable(c, prefix, n)
	}
	for len(out) < n {
		var s string
		switch {
		case hostile && c.Chance(60):
			s = pick(c, hostileIDs)
		case hostile && c.Chance(20):
			s = pick(c, hostileIDs) + pick(c, hostileIDs)
		case c.Chance(30):
			s = fmt.Sprintf("x%d", len(out)) // shared between kinds
		default:
			s = fmt.Sprintf("%s%d", prefix, len(out))
		}
		if seen[s] {
			continue
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

// confusable returns n distinct identifiers that a careless comparison takes for each other:
// they differ in case, in surrounding blanks, in what follows a long common beginning, in a
// leading zero, in normalization, or one begins or ends another.
func confusable(c *C, prefix string, n int) []string {
	base := prefix
	if c.Chance(30) {
		base = "x"
	}
	forms := []string{base, strings.ToUpper(base), base + base, base + strings.ToUpper(base)}
	switch c.IntN(6) {
	case 0:
		forms = append(forms, " "+base, base+" ", "\t"+base, base+"\n", base+"\u00a0")
	case 1:
		forms = append(forms, base+"_"+base, base+":"+base, base+"/"+base, base+"."+base, base+"|"+base, base+"-"+base)
	case 2:
		long := strings.Repeat(base, 1+c.IntN(80))
		forms = []string{base, long, long + "0", long + "1", long + "00", "0" + long, "1" + long, strings.ToUpper(long)}
	case 3:
		forms = append(forms, base+"1", base+"01", base+"001", base+"10", base+"1.0", base+"0x1")
	case 4:
		forms = append(forms, base+"é", base+"e\u0301", base+"e", base+"É", base+"ß", base+"SS", base+"ss", base+"İ", base+"i̇")
	default:
		forms = append(forms, base+"\x00", "\x00"+base, base+"\xff", base+"\xfe", base+"\ufffd", base+"%", base+"*", base+":")
	}
	c.Shuffle(len(forms), func(i, j int) { forms[i], forms[j] = forms[j], forms[i] })
	if c.Chance(50) { // at least one pair that differs in case only
		forms = append([]string{base, strings.ToUpper(base)}, forms...)
	}
	var out []string
	seen := map[string]bool{}
	for i := 0; len(out) < n; i++ {
		s := fmt.Sprintf("%s%d", base, i)
		if i < len(forms) {
			s = forms[i]
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func subset(c *C, xs []string, pct int) []string {
	var out []string
	for _, x := range xs {
		if c.Chance(pct) {
			out = append(out, x)
		}
	}
	return out
}

// orEmpty returns one of xs, or "" with the given chance.
func orEmpty(c *C, xs []string, emptyPct int) string {
	if len(xs) == 0 || c.Chance(emptyPct) {
		return ""
	}
	return pick(c, xs)
}

func setOf[T comparable](xs ...T) map[T]bool {
	m := map[T]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

func sameSet[T comparable](a, b map[T]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// lend gives a copy of a list, possibly with room behind it, to pass to the library.
func lend[T any](c *C, xs []T) []T {
	return append(make([]T, 0, len(xs)+c.IntN(4)), xs...)
}

// stretch makes a list long now and then: what comes first is repeated, so that everything else
// comes late.
func stretch[T any](c *C, xs []T) []T {
	if len(xs) == 0 || c.IntN(64) != 0 {
		return xs
	}
	return append(slices.Repeat(xs[:1], c.IntN(1<<(3+c.IntN(5)))), xs...)
}

// often is how many more changes without effect follow a change: what counts changes in a byte or
// two comes round to where it was.
func often(c *C) int {
	return pick(c, []int{256, 256, 256, 256, 128, 512, 1024, 65536}) - 1
}

// scribble overwrites a list that was passed to or handed out by the library, and the room behind it:
// it is the caller's, and what the library holds must not change with it.
func scribble[T any](xs []T, junk T) {
	xs = xs[:cap(xs)]
	for i := range xs {
		xs[i] = junk
	}
}
