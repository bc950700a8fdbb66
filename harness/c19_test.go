package harness

import (
	"fmt"
	"runtime"
	"slices"
	"sort"
	"strings"

	v2 "github.com/oarkflow/permission/v2"
)

func init() {
	register("C19", &Prop{
		Rule:  "a case is one random v1 policy and 24 questions judged against what must and what may be granted; non-trivial: distinct (question shape, answer, rows of the principal, rows) combinations",
		Quick: 275000, Thorough: 6000000,
		Need: []string{"yes", "no", "yes to an activity", "no to an activity", "no though another principal's assignment would do", "no because of a foreign namespace or scope", "activity through descendants only"},
		Run:  runC19,
	})
	register("C20", &Prop{
		Rule:  "a case is one random history of v1 assignments over hostile identifiers; after steps every listing for every tenant and principal is compared as a set with the shadow rows; non-trivial: distinct (rows, principals, listing sizes)",
		Quick: 400000, Thorough: 4000000,
		Need: []string{"listings", "repeated assignments", "rows", "child tenants' rows listed"},
		Run:  runC20,
	})
	register("C26", &Prop{
		Rule:  "a case is one random v1 policy, 12 questions for the allowed roles of a principal's assignments compared with the rule, and 24 questions for activities whose answers must be exactly what held and allowed roles give; non-trivial: distinct (namespace and scope named, rows, roles allowed) and (question shape, answer) combinations",
		Quick: 120000, Thorough: 3000000,
		Need: []string{"none allowed", "the namespace's roles allowed", "roles assigned tenant-wide allowed", "roles of exactly this namespace and scope allowed", "inherited activity granted", "inherited activity denied", "activity alone: true", "activity alone: false"},
		Run:  runC26,
	})
	register("C23", &Prop{
		Rule:  "a case is one random v1 policy asked the same questions first by one goroutine and then by many at once, in different orders, with the lists handed out kept and compared again at the end; race detector on; non-trivial: distinct (policy size, questions, goroutines, processors)",
		Quick: 3000, Thorough: 60000,
		Need: []string{"concurrent answers", "concurrent lists", "lists kept", "yields", "first questions asked concurrently"},
		Run:  runC23,
	})
	register("C24", &Prop{
		Rule:  "a case is one history of setting defaults, placing tenants and assigning (root package, v1) with all rows compared with a shadow after every step, or of tenants and defaults in v2 with requests that name no namespace compared with ones naming the default; non-trivial: distinct (generation, step kind, defaults set, rows)",
		Quick: 360000, Thorough: 6000000,
		Need: []string{"root steps", "v1 steps", "v2 requests", "defaults set", "unknown defaults ignored", "assignments doubled into the default namespace", "defaults passed to tenants below"},
		Run:  runC24,
	})
}

func runC19(c *C) {
	w, m, g := v1Case(c)
	for range 24 {
		if g.step != nil && c.Chance(25) {
			g.step()
		}
		q := g.req(c, m)
		must, may, _ := m.authorize(q)
		got := w.ask(q)
		c.Judged(1)
		c.Logf("Authorize(%s) = %v (must %v may %v)", q, got, must, may)
		if must && !got || got && !may {
			c.Failf("v1 Authorize(%s) answered %v; must be granted: %v, may be granted: %v\npolicy:%s", q, got, must, may, m.describe(g.Hist))
		}
		act := ""
		if q.Act != nil {
			act = " to an activity"
		}
		if got {
			c.Count("yes", 1)
			if act != "" {
				c.Count("yes"+act, 1)
			}
		} else {
			c.Count("no", 1)
			if act != "" {
				c.Count("no"+act, 1)
			}
			for p := range m.Principals {
				if o := q; p != q.P && q.T != nil {
					o.P = p
					if y, _, _ := m.authorize(o); y {
						c.Count("no though another principal's assignment would do", 1)
						break
					}
				}
			}
			if o := q; q.T != nil && act != "" {
				o.N, o.S = nil, nil
				if y, _, _ := m.authorize(o); y {
					c.Count("no because of a foreign namespace or scope", 1)
				}
			}
		}
		if may && !must && q.T != nil {
			c.Count("activity through descendants only", 1)
		}
		n := 0
		for r := range m.Rows {
			if r.PrincipalID == q.P {
				n++
			}
		}
		c.Seen(q.shape(), got, n, len(m.Rows))
	}
}

func runC26(c *C) {
	w, m, g := v1Case(c)
	for range 12 {
		if g.step != nil && c.Chance(25) {
			g.step()
		}
		t, p := pick(c, g.T), pick(c, g.P)
		if g.Unreg != "" && c.Chance(10) {
			t = g.Unreg
		}
		n, s := orEmpty(c, g.N, 35), orEmpty(c, g.S, 35)
		if c.Chance(2) {
			n = "nowhere"
		} else if c.Chance(2) {
			s = "nowhere"
		}
		rows := w.M.GetPrincipalRoles(t, p)
		if mine := m.of(t, p); len(mine) > 0 && c.Chance(30) { // any part of them
			rows = nil
			for _, r := range mine {
				if c.Chance(60) {
					rows = append(rows, r)
				}
			}
		}
		want := m.allowed(rows, t, n, s)
		given := slices.Clone(rows)
		got := w.M.GetAllowedRoles(rows, n, s)
		c.Judged(2)
		if !slices.Equal(rows, given) {
			c.Failf("GetAllowedRoles changed the list of rows it was given")
		}
		c.Logf("GetAllowedRoles(%d rows of %q in %q, %q, %q) = %q", len(rows), p, t, n, s, got)
		if !sameSet(setOf(got...), want) {
			h, _ := rows1(rows)
			c.Failf("GetAllowedRoles(%s, %q, %q) = %q, should be %q\npolicy:%s", fmtRows1(h), n, s, got, sortedKeys(want), m.describe(g.Hist))
		}
		switch {
		case len(want) == 0:
			c.Count("none allowed", 1)
		case len(m.NSRoles[n]) > 0:
			c.Count("the namespace's roles allowed", 1)
		default:
			c.Count("roles assigned tenant-wide allowed", 1)
		}
		if n != "" && s != "" && len(want) > 0 {
			for _, r := range rows {
				if r.NamespaceID == n && r.ScopeID == s && want[r.RoleID] {
					c.Count("roles of exactly this namespace and scope allowed", 1)
					break
				}
			}
		}
		scribble(got, "scribbled") // it is the caller's
		c.Seen("allowed", n != "", s != "", len(rows), len(want), len(m.NSRoles[n]), len(m.NSScopes[n]))
	}
	for range 24 {
		if g.step != nil && c.Chance(25) {
			g.step()
		}
		q := g.req(c, m)
		if q.Act == nil {
			x := pick(c, g.acts)
			if c.Chance(60) {
				x = instance(c, x)
			}
			q.Act = x.String()
			if q.T != nil {
				q.Grp = pick(c, g.G)
			}
		}
		must, may, exact := m.authorize(q)
		got := w.ask(q)
		c.Judged(1)
		c.Logf("Authorize(%s) = %v", q, got)
		c.Check(got == exact, "v1 Authorize(%s) answered %v, the held and allowed roles give %v\npolicy:%s", q, got, exact, m.describe(g.Hist))
		if may && !must {
			if got {
				c.Count("inherited activity granted", 1)
			} else {
				c.Count("inherited activity denied", 1)
			}
		}
		if q.T == nil && q.Grp == nil {
			c.Count(fmt.Sprintf("activity alone: %v", got), 1)
		}
		c.Seen(q.shape(), got, must, may)
	}
}

func rows1(rs []row1) (map[row1]bool, bool) {
	out := map[row1]bool{}
	for _, r := range rs {
		out[r] = true
	}
	return out, len(out) == len(rs)
}

func runC20(c *C) {
	w, m, g := newV1(c)
	var ops []vop
	bulk := g.bulkOps(c)
	n := 6 + c.IntN(6+4*c.Size) + len(bulk)
	for i := range n {
		o := g.change(c)
		if c.Chance(10) && len(ops) > 0 {
			o = pick(c, ops)
		}
		if i >= n-len(bulk) {
			o = bulk[i-n+len(bulk)]
		}
		before := len(m.Rows)
		w.apply(o)
		m.apply(o)
		ops = append(ops, o)
		c.Logf("%s", o)
		if len(m.Rows) == before && o.K == "row" {
			c.Count("repeated assignments", 1)
		}
		if i < n-1 && (len(bulk) > 0 || !c.Chance(15)) {
			continue
		}
		c.Count("rows", len(m.Rows))
		judge := func(what string, got []row1, once bool, want func(row1) bool) {
			c.Judged(1)
			c.Count("listings", 1)
			w := map[row1]bool{}
			for r := range m.Rows {
				if want(r) {
					w[r] = true
				}
			}
			h, uniq := rows1(got)
			scribble(got, row1{PrincipalID: "scribbled"})
			if !sameSet(h, w) || once && !uniq {
				c.Failf("%s lists %s (each once: %v), assigned were %s\npolicy:%s", what, fmtRows1(h), uniq, fmtRows1(w), m.describe(ops))
			}
			c.Seen(strings.SplitN(what, "(", 2)[0], len(w), len(m.Rows))
		}
		strs := func(what string, got []string, once bool, want map[string]bool) {
			c.Judged(1)
			c.Count("listings", 1)
			h := setOf(got...)
			defer scribble(got, "scribbled")
			if !sameSet(h, want) || once && len(h) != len(got) {
				c.Failf("%s lists %q, assigned were %q\npolicy:%s", what, got, sortedKeys(want), m.describe(ops))
			}
		}
		for _, t := range g.T {
			judge(fmt.Sprintf("GetTenantRoles(%q)", t), w.M.GetTenantRoles(t), true, func(r row1) bool { return r.TenantID == t })
			judge(fmt.Sprintf("GetPrincipalRolesByTenant(%q)", t), w.M.GetPrincipalRolesByTenant(t), true, func(r row1) bool { return r.TenantID == t })
			for _, p := range append([]string{"nobody"}, g.P...) {
				judge(fmt.Sprintf("GetPrincipalRoles(%q, %q)", t, p), w.M.GetPrincipalRoles(t, p), true, func(r row1) bool { return r.TenantID == t && r.PrincipalID == p })
				judge(fmt.Sprintf("GetImplicitPrincipalRoles(%q, %q)", t, p), w.M.GetImplicitPrincipalRoles(t, p), false, func(r row1) bool {
					if r.PrincipalID == p && m.Desc[t][r.TenantID] {
						c.Count("child tenants' rows listed", 1)
						return true
					}
					return r.TenantID == t && r.PrincipalID == p
				})
				var withPerms []row1
				for _, x := range w.M.GetPermissionsForPrincipal(t, p) {
					withPerms = append(withPerms, x.TenantPrincipal)
					if s := diffPerms(perms1(x.Permissions), m.Perms[x.RoleID]); s != "" {
						c.Failf("GetPermissionsForPrincipal(%q, %q), role %q: %s\npolicy:%s", t, p, x.RoleID, s, m.describe(ops))
					}
				}
				judge(fmt.Sprintf("GetPermissionsForPrincipal(%q, %q)", t, p), withPerms, true, func(r row1) bool { return r.TenantID == t && r.PrincipalID == p && m.Roles[r.RoleID] })
				scopes, err := w.M.GetTenantScopesForPrincipal(t, p)
				if (err == nil) != m.Principals[p] {
					c.Failf("GetTenantScopesForPrincipal(%q, %q): error %v", t, p, err)
				}
				if err == nil {
					want := map[string]bool{}
					for r := range m.Rows {
						if r.TenantID == t && r.PrincipalID == p && r.ScopeID != "" {
							want[r.ScopeID] = true
						}
					}
					strs(fmt.Sprintf("GetTenantScopesForPrincipal(%q, %q)", t, p), scopes, false, want)
				}
			}
		}
		for _, p := range g.P {
			if got, err := w.M.GetTenantScopesForPrincipal("no such tenant", p); err == nil && len(got) > 0 {
				c.Failf("GetTenantScopesForPrincipal of a tenant nobody registered lists %q for %q", got, p)
			}
			tenants, scopesWant := map[string]bool{}, map[string]bool{}
			for r := range m.Rows {
				if r.PrincipalID == p {
					tenants[r.TenantID] = true
					if r.ScopeID != "" {
						scopesWant[r.ScopeID] = true
					}
				}
			}
			ts, err := w.M.GetTenantsForPrincipal(p)
			if err != nil {
				c.Failf("GetTenantsForPrincipal(%q): %v", p, err)
			}
			strs(fmt.Sprintf("GetTenantsForPrincipal(%q)", p), ts, true, tenants)
			scopes, err := w.M.GetScopesForPrincipal(p)
			if (err == nil) != m.Principals[p] {
				c.Failf("GetScopesForPrincipal(%q): error %v", p, err)
			}
			if err == nil {
				strs(fmt.Sprintf("GetScopesForPrincipal(%q)", p), scopes, false, scopesWant)
			}
		}
		for _, r := range g.R {
			ps, err := w.M.GetRolePermissions(r)
			if (err == nil) != m.Roles[r] {
				c.Failf("GetRolePermissions(%q): error %v", r, err)
			}
			if err == nil {
				if s := diffPerms(perms1(ps), m.Perms[r]); s != "" {
					c.Failf("GetRolePermissions(%q): %s", r, s)
				}
			}
		}
	}
}

func runC23(c *C) {
	w, m, g := v1Case(c)
	type answer struct {
		what string
		call func() string
		list func() []string
	}
	var qs []answer
	sorted := func(xs []string) string {
		out := sortedKeys(setOf(xs...))
		return fmt.Sprintf("%q", out)
	}
	rowsText := func(rs []row1) string {
		h, _ := rows1(rs)
		return fmtRows1(h)
	}
	for range 14 {
		q := g.req(c, m)
		qs = append(qs, answer{what: "Authorize(" + q.String() + ")", call: func() string { return fmt.Sprint(w.ask(q)) }})
	}
	for range 10 {
		t, p := pick(c, g.T), pick(c, g.P)
		if len(m.Rows) > 0 && c.Chance(70) {
			var keys []row1
			for r := range m.Rows {
				keys = append(keys, r)
			}
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprintf("%+v", keys[i]) < fmt.Sprintf("%+v", keys[j]) })
			r := pick(c, keys)
			t, p = r.TenantID, r.PrincipalID
		}
		n, s := orEmpty(c, g.N, 50), orEmpty(c, g.S, 50)
		rs := m.of(t, p)
		list := func() []string { return w.M.GetAllowedRoles(rs, n, s) }
		qs = append(qs, answer{what: fmt.Sprintf("GetAllowedRoles(%q %q, %q, %q)", t, p, n, s), list: list, call: func() string { return sorted(list()) }})
	}
	t, p := pick(c, g.T), pick(c, g.P)
	qs = append(qs,
		answer{what: "GetTenantRoles", call: func() string { return rowsText(w.M.GetTenantRoles(t)) }},
		answer{what: "GetPrincipalRoles", call: func() string { return rowsText(w.M.GetPrincipalRoles(t, p)) }},
		answer{what: "GetImplicitPrincipalRoles", call: func() string { return rowsText(w.M.GetImplicitPrincipalRoles(t, p)) }},
		answer{what: "GetTenantsForPrincipal", call: func() string { x, _ := w.M.GetTenantsForPrincipal(p); return sorted(x) }},
		answer{what: "GetScopesForPrincipal", call: func() string { x, _ := w.M.GetScopesForPrincipal(p); return sorted(x) }},
		answer{what: "GetPermissionsForPrincipal", call: func() string {
			var out []string
			for _, x := range w.M.GetPermissionsForPrincipal(t, p) {
				pp := perms1(x.Permissions)
				for _, k := range sortedKeys(pp) {
					sort.Strings(pp[k])
					out = append(out, fmt.Sprintf("%+v %q %q", x.TenantPrincipal, k, pp[k]))
				}
			}
			return sorted(out)
		}},
		answer{what: "Summary", call: func() string { return w.M.String() }},
	)
	// Cold: the concurrent questions are the first ones ever, whatever they fill is filled by them
	cold := c.Chance(50)
	want := make([]string, len(qs))
	alone := func() {
		for i, q := range qs {
			want[i] = q.call()
			c.Logf("%s = %s", q.what, want[i])
		}
	}
	if !cold {
		alone()
	} else {
		c.Count("first questions asked concurrently", 1)
	}
	n := 2 + c.IntN(7)
	rounds := 2 + c.IntN(3)
	order := make([][]int, n)
	for i := range order {
		for range rounds {
			order[i] = append(order[i], c.Perm(len(qs))...)
		}
	}
	spin := make([]int, n)
	for i := range spin {
		spin[i] = c.IntN(4)
	}
	type kept struct {
		q    int
		list []string
		copy string
	}
	keep := make([][]kept, n)
	answers := make([][]string, n)
	// No shared counters or locks of the harness inside: they would order the goroutines
	// for the race detector and hide races
	yields := make([]int, n)
	c.Go(n, func(i int) {
		for _, k := range order[i] {
			if q := qs[k]; q.list != nil {
				l := q.list()
				answers[i] = append(answers[i], sorted(l))
				keep[i] = append(keep[i], kept{k, l, fmt.Sprintf("%q", l)})
			} else {
				answers[i] = append(answers[i], q.call())
			}
			for range spin[i] {
				runtime.Gosched()
				yields[i]++
			}
			for _, x := range keep[i] {
				if s := fmt.Sprintf("%q", x.list); s != x.copy {
					c.Failf("a list returned by %s changed from %s to %s", qs[x.q].what, x.copy, s)
				}
			}
		}
	})
	if cold {
		alone()
	}
	for i := range keep {
		for j, k := range order[i] {
			if answers[i][j] != want[k] {
				c.Failf("%s answers %s while others ask, %s alone\npolicy:%s", qs[k].what, answers[i][j], want[k], m.describe(g.Hist))
			}
		}
		c.Judged(len(order[i]))
		c.Count("concurrent answers", len(order[i]))
		c.Count("concurrent lists", len(keep[i]))
		c.Count("yields", yields[i])
		for _, x := range keep[i] {
			c.Judged(1)
			c.Count("lists kept", 1)
			if s := fmt.Sprintf("%q", x.list); s != x.copy {
				c.Failf("a list returned by %s changed from %s to %s", qs[x.q].what, x.copy, s)
			}
		}
	}
	c.Seen(len(m.Rows), n, rounds, len(keep[0]), runtime.GOMAXPROCS(0))
}

func runC24(c *C) {
	switch c.IntN(5) {
	case 0, 1:
		c24Root(c)
	case 2, 3:
		c24V1(c)
	default:
		c24V2(c)
	}
}

func c24Root(c *C) {
	g, ops := genRootSized(c)
	w, m := newRootWorld(), newRootModel()
	for _, o := range ops {
		_ = w.apply(o)
		m.apply(o)
	}
	for range 6 + c.IntN(4+3*c.Size) {
		var o rop
		switch c.IntN(6) {
		case 0, 1:
			o = rop{K: "t.default", T: pick(c, g.regT), N: pick(c, g.N)}
			if m.NS[o.N] {
				c.Count("defaults set", 1)
			} else {
				c.Count("unknown defaults ignored", 1)
			}
		case 2:
			o = rop{K: "desc", T: pick(c, g.regT), T2: pick(c, g.regT)}
			for c.Chance(25) {
				o.IDs = append(o.IDs, pick(c, g.regT))
			}
			if m.HasDefault[o.T] {
				c.Count("defaults passed to tenants below", 1)
			}
		default:
			if o = g.op(c); o.K == "desc" || o.K == "perm" || o.K == "roledesc" {
				continue
			}
		}
		before := len(m.Rows)
		err := w.apply(o)
		ok := m.apply(o)
		ops = append(ops, o)
		c.Logf("%s -> %v", o, err)
		c.Judged(1)
		c.Count("root steps", 1)
		if len(m.Rows) > before+1 {
			c.Count("assignments doubled into the default namespace", 1)
		}
		if ok != (err == nil) {
			c.Failf("root: %s returned %v\nhistory:%s", o, err, fmtOps(ops))
		}
		got := map[row]bool{}
		for _, r := range w.M.Data().Data() {
			got[*r] = true
		}
		if !sameSet(got, m.Rows) {
			c.Failf("root: after %s the rows are %s, expected %s\nhistory:%s", o, fmtRows(got), fmtRows(m.Rows), fmtOps(ops))
		}
		if q := g.req(c, m, false); q.T != nil {
			if a, b := w.ask(q), m.authorize(q); a != b {
				c.Failf("root: after %s Authorize(%s) = %v, expected %v\nhistory:%s", o, q, a, b, fmtOps(ops))
			}
		}
		c.Seen(0, o.K, len(m.HasDefault), len(m.Rows))
	}
}

func c24V1(c *C) {
	w, m, g := newV1(c)
	var ops []vop
	for i := range 10 + c.IntN(6+4*c.Size) {
		o := g.op(c)
		switch {
		case i < 6:
			o = g.attach(c)
		case c.Chance(25):
			o = vop{K: "t.default", T: pick(c, g.T), N: pick(c, g.N)}
			if m.NS[o.T][o.N] {
				c.Count("defaults set", 1)
			} else {
				c.Count("unknown defaults ignored", 1)
			}
		}
		before := len(m.Rows)
		w.apply(o)
		m.apply(o)
		ops = append(ops, o)
		c.Logf("%s", o)
		c.Judged(1)
		c.Count("v1 steps", 1)
		if _, d := m.Default[o.T]; d && len(m.Rows) > before+1 {
			c.Count("assignments doubled into the default namespace", 1)
		}
		got := map[row1]bool{}
		for _, t := range append([]string{"unregistered"}, g.T...) {
			for _, r := range w.M.GetTenantRoles(t) {
				got[r] = true
			}
		}
		if !sameSet(got, m.Rows) {
			c.Failf("v1: after %s the rows are %s, expected %s\nhistory:%s", o, fmtRows1(got), fmtRows1(m.Rows), fmtVops(ops))
		}
		// the default takes effect in decisions
		if o.K == "t.p" {
			if d, ok := m.Default[o.T]; ok && m.Principals[o.P] {
				for _, r := range o.IDs {
					if m.TRoles[o.T][r] && !w.ask(rreq{P: o.P, T: o.T, N: d}) {
						c.Failf("v1: after %s the principal is not authorized in the default namespace %q\nhistory:%s", o, d, fmtVops(ops))
					}
				}
			}
		}
		c.Seen(1, o.K, len(m.Default), len(m.Rows))
	}
}

// c24V2: a request that names no namespace is decided as if it named the default.
func c24V2(c *C) {
	nss := names(c, "n", 2+c.IntN(3))
	for i, n := range nss {
		if n == "" {
			nss[i] = "n"
		}
	}
	def, ctor := "", c.Chance(50)
	var t *v2.Tenant
	known := map[string]bool{}
	if ctor {
		def = pick(c, nss)
		t = v2.NewTenant("t", def)
		known[def] = true
	} else {
		t = v2.NewTenant("t")
	}
	a := v2.NewAuthorizer()
	a.AddTenant(t)
	for _, n := range nss {
		r := v2.NewRole("role in " + n)
		r.AddPermission(v2.NewPermission("c", "/only/"+fmt.Sprintf("%x", n), "GET"))
		a.AddRole(r)
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Namespace: n, Role: "role in " + n})
	}
	for range 2 + c.IntN(6) {
		n := pick(c, nss)
		known[n] = true
		if c.Chance(40) {
			t.AddNamespace(n, true)
			def = n
			c.Count("defaults set", 1)
		} else {
			t.AddNamespace(n, c.Chance(50) && false)
		}
		c.Logf("AddNamespace(%q), default now %q", n, def)
		for _, x := range nss {
			r := v2.Request{Principal: "p", Tenant: "t", Resource: "/only/" + fmt.Sprintf("%x", x), Action: "GET"}
			want := x == def
			if def == "" {
				want = len(known) == 1 && known[x] // its only one
			}
			c.Judged(2)
			c.Count("v2 requests", 1)
			if got := a.Authorize(r); got != want {
				c.Failf("v2: with default namespace %q of %q, a request for what only namespace %q gives answered %v", def, sortedKeys(known), x, got)
			}
			if got := a.Can(r, "role in "+x); got != want {
				c.Failf("v2: with default namespace %q of %q, the role question for namespace %q answered %v", def, sortedKeys(known), x, got)
			}
		}
		c.Seen(2, ctor, len(known), def != "")
	}
}
