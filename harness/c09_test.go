package harness

import (
	"fmt"
	"strings"

	perm0 "github.com/oarkflow/permission"
	"github.com/oarkflow/permission/utils"
	v1 "github.com/oarkflow/permission/v1"
	v2 "github.com/oarkflow/permission/v2"
)

func init() {
	register("C09", &Prop{
		Rule:  "each case judges a slice of all pairs of a pattern (up to 4 characters quick, 5 thorough) and a value (up to 5, 6) over {a b / : * blank}, a batch of mutated realistic pairs, pairs built piece by piece over any bytes (runs up to 256, repeated runs after stars), one adversarial long pair, and the same rule, the permission held among others or inherited, through v2 Authorize, root and v1 Role.Has and Authorize; non-trivial: distinct (pattern shape, verdict) pairs containing a parameter or a star",
		Quick: 4800, Thorough: 12000,
		Need: []string{"matches", "mismatches", "exhaustive pairs", "mutated pairs", "pairs built from pieces", "long adversarial pairs", "through v2", "through root roles", "through v1 roles", "through root and v1 managers"},
		Run:  runC09,
	})
}

const matchAlphabet = "a/:* b"

func wordNo(n int) string {
	// the n-th word over the alphabet, shortest first
	l, count := 0, 1
	for n >= count {
		n -= count
		l++
		count *= len(matchAlphabet)
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = matchAlphabet[n%len(matchAlphabet)]
		n /= len(matchAlphabet)
	}
	return string(b)
}

func wordsUpTo(l int) int {
	n, p := 0, 1
	for range l + 1 {
		n += p
		p *= len(matchAlphabet)
	}
	return n
}

// dpMatch is the same rule as specMatch by a table, fast enough for many pairs.
func dpMatch(value, pattern string) bool {
	n := len(value)
	end := make([]int, n+1) // end of the segment each position is in
	end[n] = n
	for i := n - 1; i >= 0; i-- {
		if value[i] == '/' || value[i] == ' ' {
			end[i] = i
		} else {
			end[i] = end[i+1]
		}
	}
	cur := make([]bool, n+1) // cur[i]: the pattern so far can match value[:i]
	cur[0] = true
	for p := 0; p < len(pattern); p++ {
		next := make([]bool, n+1)
		switch pattern[p] {
		case '*':
			on := false
			for i := range cur {
				on = on || cur[i]
				next[i] = on
			}
		case ':':
			for i := range cur {
				if cur[i] && end[i] > i {
					next[end[i]] = true
				}
			}
			for p+1 < len(pattern) && pattern[p+1] != '/' && pattern[p+1] != ' ' {
				p++
			}
		default:
			for i := 0; i < n; i++ {
				next[i+1] = cur[i] && value[i] == pattern[p]
			}
		}
		cur = next
	}
	return cur[n]
}

func mutate(c *C, s string) string {
	b := []byte(s)
	for range c.IntN(3) {
		i := c.IntN(len(b) + 1)
		ch := "a/:* bé"[c.IntN(7)]
		switch c.IntN(3) {
		case 0:
			b = append(b[:i:i], append([]byte{ch}, b[i:]...)...)
		case 1:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		default:
			if i < len(b) {
				b[i] = ch
			}
		}
	}
	return string(b)
}

// genPieces builds a pattern piece by piece over any bytes, and a value that it matches or nearly.
func genPieces(c *C) (v, p string) {
	alphabet := pick(c, []string{"a", "ab", "/a", "a /", "", "\xa0\x85 /a", "\u00e9\u3000\uff0f/ a"})
	byteOf := func(seg bool) byte {
		for {
			b := byte(c.IntN(256))
			if alphabet != "" {
				b = alphabet[c.IntN(len(alphabet))]
				if seg && (alphabet == "/a" || alphabet == "a /" || c.Chance(1)) && b != 'a' {
					b = 'a'
				}
			}
			if seg && (b == '/' || b == ' ') || !seg && (b == ':' || b == '*') {
				continue
			}
			return b
		}
	}
	run := func(seg bool, least int) string {
		n := least + c.IntN(4)
		if c.Chance(15) {
			n = least + c.IntN(1<<(1+c.IntN(8)))
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byteOf(seg)
		}
		return string(b)
	}
	last := ""
	for range 1 + c.IntN(6) {
		switch c.IntN(4) {
		case 0, 1:
			s := last
			if s == "" || c.Chance(60) { // the same run again: near misses
				s = run(false, 0)
			}
			last = s
			v, p = v+s, p+s
		case 2:
			p += ":"
			if c.Chance(80) {
				p += run(true, 0)
			}
			v += run(true, 1)
			if c.Chance(85) {
				e := pick(c, []string{"/", " "})
				v, p = v+e, p+e
			}
		default:
			p += "*"
			if c.Chance(40) && last != "" { // most of what comes next, so that the star has to try again
				v += last[:c.IntN(len(last)+1)]
			} else {
				v += run(false, 0)
			}
		}
	}
	for range c.IntN(3) {
		for _, s := range []*string{&v, &p} {
			if len(*s) == 0 || c.Chance(70) {
				continue
			}
			i := c.IntN(len(*s))
			x := string(byteOf(false))
			if c.Chance(30) {
				x = ""
			}
			*s = (*s)[:i] + x + (*s)[i+c.IntN(2):]
		}
	}
	return
}

func runC09(c *C) {
	judge := func(v, p string) {
		want := dpMatch(v, p)
		got := utils.MatchResource(v, p)
		c.Judged(1)
		if got != want {
			c.Failf("value %q against pattern %q: matched=%v, the rule says %v", v, p, got, want)
		}
		if want {
			c.Count("matches", 1)
		} else {
			c.Count("mismatches", 1)
		}
		if strings.ContainsAny(p, ":*") && len(p) < 40 {
			c.Seen(p, want)
		}
	}
	pl, vl := 4, 5
	if c.Thoro {
		pl, vl = 5, 6
	}
	for n := c.Index; n < wordsUpTo(pl); n += c.Total {
		p := wordNo(n)
		for k := range wordsUpTo(vl) {
			v := wordNo(k)
			want := dpMatch(v, p)
			if got := utils.MatchResource(v, p); got != want {
				c.Failf("value %q against pattern %q: matched=%v, the rule says %v", v, p, got, want)
			}
		}
		c.Judged(wordsUpTo(vl))
		c.Count("exhaustive pairs", wordsUpTo(vl))
		c.Seen(p)
	}
	for range 400 {
		p := pick(c, permResources) + " " + pick(c, permActions)
		if c.Chance(30) {
			p = pick(c, permResources) + pick(c, permResources) + " " + pick(c, permActions)
		}
		x := strings.SplitN(p, " ", 2)
		v := instance(c, perm{x[0], x[1]}).String()
		if c.Chance(50) {
			v = mutate(c, v)
		}
		if c.Chance(40) {
			p = mutate(c, p)
		}
		if specMatch(v, p) != dpMatch(v, p) {
			panic("harness: the two reference matchers differ on " + v + " and " + p)
		}
		judge(v, p)
		c.Count("mutated pairs", 1)
	}
	for range 60 {
		v, p := genPieces(c)
		judge(v, p)
		c.Count("pairs built from pieces", 1)
	}
	// Long and adversarial: many stars, almost matching
	k := 20 + c.IntN(200)
	switch c.IntN(5) {
	case 0:
		judge(strings.Repeat("a", k*10), strings.Repeat("*a", k)+"b")
	case 1:
		judge(strings.Repeat("a", k*10)+"b", strings.Repeat("*a", k)+"b")
	case 2:
		judge(strings.Repeat("/a", k*5), strings.Repeat("*/:x", k)+"/b")
	case 3:
		judge(strings.Repeat("/a", k)+" GET", strings.Repeat("/:x", k)+" GET")
	default:
		judge(strings.Repeat("ab", k*5), strings.Repeat("*", k)+"c"+strings.Repeat("*", k))
	}
	c.Count("long adversarial pairs", 1)
	if c.IntN(16) == 0 { // longer still; one of the two is short, or both are of some thousands
		k = 1 << (8 + c.IntN(10))
		k += c.IntN(k)
		a, b := pick(c, []string{"a", "ab", "/a", "/ab/c", "aab"}), pick(c, []string{"b", "c", "/b", "/:x", "a/b", "é"})
		switch c.IntN(6) {
		case 0:
			judge(strings.Repeat(a, k/len(a))+b, "*"+b)
		case 1:
			judge(strings.Repeat(a, k/len(a))+b+" GET", "*"+a+b+" GET")
		case 2:
			judge("/"+strings.Repeat("a", k)+b+" GET", "/:x"+b+" GET")
		case 3:
			k = min(k, 3000)
			judge(strings.Repeat(a, k)+b, strings.Repeat(a, k)+pick(c, []string{b, "*", ":x", "", b + "c"}))
		case 4:
			k = min(k, 1500)
			judge(strings.Repeat(a+b, k), strings.Repeat(pick(c, []string{"*", ""})+a+b, k)+pick(c, []string{"", "", "*", "c"}))
		default:
			judge(b+strings.Repeat(a, k/len(a))+b, b+pick(c, []string{"*", "*" + a, a + "*"})+b)
		}
		c.Count("very long pairs", 1)
	}
	// The same rule wherever a permission is checked
	for range 20 {
		p := genPerm(c)
		if c.Chance(40) {
			p = perm{mutateNoBlank(c, p.Res), p.Act}
		}
		r := genReq(c)
		if c.Chance(70) {
			r = instance(c, p)
			if c.Chance(40) {
				r = perm{mutateNoBlank(c, r.Res), r.Act}
			}
		}
		if c.Chance(10) { // long ones
			k := 1 + c.IntN(100)
			long := strings.Repeat(pick(c, []string{"/abc", "x", "/é", "%20", "/-"}), k)
			p.Res, r.Res = long+p.Res, long+r.Res
			if c.Chance(30) {
				p.Act, r.Act = p.Act+strings.Repeat("A", k), r.Act+strings.Repeat("A", k)
			}
		}
		want := dpMatch(r.String(), p.String())
		// among others that never match, held or inherited
		fill, inherit := c.IntN(4), c.Chance(40)
		if c.Chance(3) {
			fill = c.IntN(200)
		}
		r0, h0 := perm0.NewRole("r"), perm0.NewRole("h")
		r1, h1 := v1.NewRole("r"), v1.NewRole("h")
		if inherit {
			_ = r0.AddDescendant(h0)
			_ = r1.AddDescendent(h1)
		} else {
			h0, h1 = r0, r1
		}
		for i := range fill {
			_ = h0.AddPermission("g", perm0.NewAttribute(fmt.Sprint("\x01/", i), "\x01"))
			_ = h1.AddPermission("g", v1.NewAttribute(fmt.Sprint("\x01/", i), "\x01"))
		}
		_ = h0.AddPermission("g", perm0.NewAttribute(p.Res, p.Act))
		_ = h1.AddPermission("g", v1.NewAttribute(p.Res, p.Act))
		c.Judged(1)
		c.Count("through root roles", 1)
		if got := r0.Has("g", r.String()); got != want {
			c.Failf("root role with permission %q (inherited %v) asked for %q: %v, the rule says %v", p, inherit, r, got, want)
		}
		c.Judged(1)
		c.Count("through v1 roles", 1)
		if got := r1.Has("g", r.String()); got != want {
			c.Failf("v1 role with permission %q (inherited %v) asked for %q: %v, the rule says %v", p, inherit, r, got, want)
		}
		M0, M1 := perm0.New(), v1.New()
		t0, t1 := M0.AddTenant(perm0.NewTenant("t")), M1.AddTenant(v1.NewTenant("t"))
		M0.AddRoles(r0, h0)
		M1.AddRoles(r1, h1)
		M0.AddPrincipal(perm0.NewPrincipal("p"))
		M1.AddPrincipal(v1.NewPrincipal("p"))
		t0.AddRoles(r0, h0)
		t1.AddRole(r1, h1)
		_ = t0.AddPrincipalWithRole("p", "r", false)
		t1.AddPrincipal("p", "r")
		if inherit { // allowed, since held as well
			t1.AddPrincipal("p", "h")
		}
		c.Judged(2)
		c.Count("through root and v1 managers", 2)
		if got := M0.Authorize("p", perm0.WithTenant("t"), perm0.WithAttributeGroup("g"), perm0.WithActivity(r.String())); got != want {
			c.Failf("root manager, role with permission %q (inherited %v) asked for %q: %v, the rule says %v", p, inherit, r, got, want)
		}
		if got := M1.Authorize("p", v1.WithTenant("t"), v1.WithResourceGroup("g"), v1.WithActivity(r.String())); got != want {
			c.Failf("v1 manager, role with permission %q (inherited %v) asked for %q: %v, the rule says %v", p, inherit, r, got, want)
		}
		if r.Res == "" && r.Act == "" {
			continue
		}
		a := v2.NewAuthorizer()
		role, held := v2.NewRole("r"), v2.NewRole("h")
		a.AddRoles(role, held)
		if inherit {
			if err := a.AddChildRole("r", "h"); err != nil {
				c.Failf("AddChildRole: %v", err)
			}
		} else {
			held = role
		}
		for i := range fill {
			held.AddPermission(v2.NewPermission("c", fmt.Sprint("\x01/", i), "\x01"))
		}
		held.AddPermission(v2.NewPermission("c", p.Res, p.Act))
		a.AddTenant(v2.NewTenant("t", "n"))
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
		c.Judged(1)
		c.Count("through v2", 1)
		if got := a.Authorize(v2.Request{Principal: "p", Tenant: "t", Namespace: "n", Resource: r.Res, Action: r.Act}); got != want {
			c.Failf("v2 role with permission %q asked for %q: %v, the rule says %v", p, r, got, want)
		}
	}
}

func mutateNoBlank(c *C, s string) string { return strings.ReplaceAll(mutate(c, s), " ", "") }
