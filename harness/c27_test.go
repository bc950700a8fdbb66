package harness

import (
	"fmt"
	"slices"
	"time"

	v2 "github.com/oarkflow/permission/v2"
)

func init() {
	register("C27", &Prop{
		Rule:  "a case is one history that builds a v2 policy step by step (registering again, namespaces, defaults, scopes, child tenants, statuses, roles, permissions, edges, assignments, default tenant), with lookups and decisions judged against the policy built so far after every step; non-trivial: distinct (step kind, question shape, answer, sizes) combinations",
		Quick: 48000, Thorough: 2000000,
		Need: []string{"steps", "granted", "denied", "answer changed by the step", "unknown namespace refused", "tenant registered again", "role registered again", "default tenant found", "default tenant missing", "tenants read back"},
		Run:  runC27,
	})
}

func runC27(c *C) {
	final, g := genV2(c)
	if c.Chance(10) { // several scopes and namespaces in one call
		for i := range 3 + c.IntN(12) {
			g.scopes = append(g.scopes, fmt.Sprintf("more%d", i))
		}
	}
	p := &v2Policy{} // the policy so far
	a := v2.NewAuthorizer()
	ts, rs := map[string]*v2.Tenant{}, map[string]*v2.Role{}
	for _, id := range g.tenants {
		ts[id] = v2.NewTenant(id)
		p.Tenants = append(p.Tenants, &v2Tenant{ID: id, Scopes: map[string][]string{}})
	}
	for _, n := range g.roles {
		rs[n] = v2.NewRole(n)
		p.Roles = append(p.Roles, &v2Role{Name: n})
	}
	var old []*v2.Role // replaced: what happens to them no longer counts
	add := func(xs []string, x string) []string {
		if slices.Contains(xs, x) {
			return xs
		}
		return append(xs, x)
	}
	step := func() (kind string) {
		t := pick(c, p.Tenants)
		rt := ts[t.ID]
		f := final.tenant(t.ID)
		switch k := c.IntN(100); {
		case k < 10:
			if t.Registered && c.Chance(40) { // a new one under the same identifier
				n := &v2Tenant{ID: t.ID, Scopes: map[string][]string{}}
				if c.Chance(50) {
					n.Default = pick(c, g.namespaces)
				}
				if n.Default != "" {
					n.NS = []string{n.Default}
					rt = v2.NewTenant(t.ID, n.Default)
				} else {
					rt = v2.NewTenant(t.ID)
				}
				ts[t.ID] = rt
				*t = *n
				for _, u := range p.Tenants {
					if u != t && slices.Contains(u.Children, t.ID) {
						ts[u.ID].AddChildTenant(rt)
					}
				}
				c.Count("tenant registered again", 1)
			}
			t.Registered = true
			var got *v2.Tenant
			if c.Chance(50) {
				got = a.AddTenant(rt)
			} else {
				a.AddTenants(rt)
				got, _ = a.GetTenant(t.ID)
			}
			c.Check(got == rt, "adding tenant %q handed back another tenant", t.ID)
			c.Logf("AddTenant(%q)", t.ID)
			return "tenant"
		case k < 24:
			n := pick(c, g.namespaces)
			if len(f.NS) > 0 && c.Chance(80) {
				n = pick(c, f.NS)
			}
			t.NS = add(t.NS, n)
			switch {
			case f.Default == n && c.Chance(50) || c.Chance(10):
				rt.AddNamespace(n, true)
				t.Default = n
			case c.Chance(30):
				rt.AddNamespace(n, false)
			default:
				rt.AddNamespace(n)
			}
			c.Logf("%q.AddNamespace(%q), default now %q", t.ID, n, t.Default)
			return "namespace"
		case k < 38:
			n := pick(c, g.namespaces)
			ss := subset(c, g.scopes, 60)
			var given []*v2.Scope
			for _, s := range ss {
				given = append(given, v2.NewScope(s))
			}
			err := rt.AddScopeToNamespace(n, given...)
			known := slices.Contains(t.NS, n)
			c.Logf("%q.AddScopeToNamespace(%q, %q) = %v", t.ID, n, ss, err)
			c.Check((err == nil) == known, "%q.AddScopeToNamespace(%q) returned %v; its namespaces are %q", t.ID, n, err, t.NS)
			if !known {
				c.Count("unknown namespace refused", 1)
				return "scope refused"
			}
			for _, s := range ss {
				t.Scopes[n] = add(t.Scopes[n], s)
			}
			return "scope"
		case k < 44:
			var us []*v2.Tenant
			for us == nil || c.Chance(30) {
				if u := pick(c, p.Tenants); u != t {
					us = append(us, ts[u.ID])
				} else if us == nil {
					return "none"
				}
			}
			us = stretch(c, us)
			rt.AddChildTenant(us...)
			for _, u := range us {
				t.Children = add(t.Children, u.ID)
				c.Logf("%q.AddChildTenant(%q), %d at once", t.ID, u.ID, len(us))
			}
			return "child"
		case k < 47:
			t.Status = v2.TenantStatusActive
			if c.Chance(50) {
				t.Status = v2.TenantStatus(c.IntN(5))
			}
			rt.Status = t.Status
			c.Logf("%q.Status = %v", t.ID, t.Status)
			return "status"
		case k < 57:
			r := pick(c, p.Roles)
			if r.Registered && c.Chance(40) {
				old = append(old, rs[r.Name])
				rs[r.Name] = v2.NewRole(r.Name)
				r.Perms = nil
				c.Count("role registered again", 1)
			}
			r.Registered = true
			if c.Chance(50) {
				c.Check(a.AddRole(rs[r.Name]) == rs[r.Name], "adding role %q handed back another role", r.Name)
			} else {
				a.AddRoles(rs[r.Name])
			}
			c.Logf("AddRole(%q with %q)", r.Name, r.Perms)
			return "role"
		case k < 69:
			r := pick(c, p.Roles)
			q := genPerm(c)
			if fr := final.role(r.Name); fr != nil && len(fr.Perms) > 0 && c.Chance(70) {
				q = pick(c, fr.Perms)
			}
			if len(old) > 0 && c.Chance(10) {
				pick(c, old).AddPermission(v2.NewPermission(category(q), q.Res, q.Act))
				return "replaced role"
			}
			qs := []perm{q}
			for c.Chance(20) {
				qs = append(qs, genPerm(c))
			}
			var given []*v2.Permission
			for _, q := range stretch(c, qs) {
				given = append(given, v2.NewPermission(category(q), q.Res, q.Act))
			}
			rs[r.Name].AddPermission(given...)
			r.Perms = append(r.Perms, qs...)
			c.Logf("%q.AddPermission(%q), %d at once", r.Name, qs, len(given))
			return "permission"
		case k < 72:
			r := pick(c, p.Roles)
			if len(r.Perms) == 0 {
				return "none"
			}
			q := pick(c, r.Perms)
			rs[r.Name].RemovePermission(v2.NewPermission(category(q), q.Res, q.Act))
			r.Perms = slices.DeleteFunc(r.Perms, func(x perm) bool { return x.String() == q.String() })
			c.Logf("%q.RemovePermission(%q)", r.Name, q)
			return "permission removed"
		case k < 77:
			if len(final.Edges) == 0 {
				return "none"
			}
			e := pick(c, final.Edges)
			children := []string{e[1]}
			for _, o := range final.Edges {
				if o[0] == e[0] && c.Chance(30) {
					children = append(children, o[1])
				}
			}
			for _, ch := range children {
				p.Edges = append(p.Edges, [2]string{e[0], ch})
			}
			children = stretch(c, children)
			if err := a.AddChildRole(e[0], children...); err != nil {
				c.Failf("AddChildRole(%q, %q): %v, though the graph has no cycle", e[0], children, err)
			}
			c.Logf("AddChildRole(%q, %q)", e[0], children)
			return "edge"
		case k < 92:
			x := genAssign(c, g)
			if len(final.Assign) > 0 && c.Chance(60) {
				x = pick(c, final.Assign)
			}
			xs := []v2Assign{x}
			for c.Chance(20) {
				xs = append(xs, genAssign(c, g))
			}
			var given []*v2.PrincipalRole
			for _, x := range xs {
				given = append(given, x.real())
			}
			a.AddPrincipalRole(given...)
			p.Assign = append(p.Assign, xs...)
			c.Logf("AddPrincipalRole(%+v)", xs)
			return "assignment"
		case k < 95:
			if len(p.Assign) == 0 {
				return "none"
			}
			x := pick(c, p.Assign)
			if err := a.RemovePrincipalRole(v2.PrincipalRole{Principal: x.Principal, Tenant: x.Tenant}); err != nil && x.Principal+x.Tenant != "" {
				c.Failf("RemovePrincipalRole(%q in %q): %v", x.Principal, x.Tenant, err)
			}
			p.Assign = slices.DeleteFunc(p.Assign, func(y v2Assign) bool {
				return (x.Principal == "" || y.Principal == x.Principal) && (x.Tenant == "" || y.Tenant == x.Tenant)
			})
			c.Logf("RemovePrincipalRole(%q in %q)", x.Principal, x.Tenant)
			return "removal"
		default:
			p.DefaultTenant = ""
			if c.Chance(60) {
				p.DefaultTenant = pick(c, g.tenants)
			} else if c.Chance(20) {
				p.DefaultTenant = "no-such-tenant"
			}
			a.SetDefaultTenant(p.DefaultTenant)
			c.Logf("SetDefaultTenant(%q)", p.DefaultTenant)
			return "default tenant"
		}
	}
	type asked struct {
		r     v2.Request
		roles []string // nil: a permission
		ans   bool
	}
	var before []asked // the last questions are asked again: their answers may have been remembered
	judge := func(kind string, q asked) asked {
		var got, want bool
		if q.roles == nil {
			got, want = a.Authorize(q.r), p.authorize(q.r, time.Time{})
		} else {
			got, want = a.Can(q.r, q.roles...), p.can(q.r, q.roles, time.Time{})
		}
		c.Judged(1)
		c.Logf("ask %s roles %q = %v", fmtReq(q.r), q.roles, got)
		c.Check(got == want, "after a step (%s), %s with roles %q was answered %v; the policy built so far says %v\npolicy: %s", kind, fmtReq(q.r), q.roles, got, want, p.describe())
		q.ans = got
		if got {
			c.Count("granted", 1)
		} else {
			c.Count("denied", 1)
		}
		c.Seen(kind, shape(q.r), q.roles != nil, got, len(p.Assign))
		return q
	}
	for range 20 + c.IntN(20+5*c.Size) {
		kind := step()
		c.Count("steps", 1)
		changed := false
		for _, q := range before {
			if q.roles == nil {
				changed = changed || p.authorize(q.r, time.Time{}) != q.ans
			} else {
				changed = changed || p.can(q.r, q.roles, time.Time{}) != q.ans
			}
		}
		if changed && c.IntN(30) == 0 { // and many that change nothing
			var idle []func()
			for _, t := range p.Tenants {
				if t.Registered {
					idle = append(idle, func() { a.AddTenant(ts[t.ID]) })
				}
				for _, n := range t.NS {
					idle = append(idle, func() { ts[t.ID].AddNamespace(n) })
				}
			}
			for _, r := range p.Roles {
				if r.Registered {
					idle = append(idle, func() { a.AddRoles(rs[r.Name]) }, func() { a.AddRoles(rs[r.Name]) })
				}
				for _, q := range r.Perms {
					idle = append(idle, func() { rs[r.Name].AddPermission(v2.NewPermission(category(q), q.Res, q.Act)) })
				}
			}
			idle = append(idle, func() { a.SetDefaultTenant(p.DefaultTenant) }, func() {
				_ = a.RemovePrincipalRole(v2.PrincipalRole{Principal: "an idle principal"})
			})
			if len(p.Assign) > 0 && c.Chance(30) {
				x := pick(c, p.Assign)
				for range often(c) % 2048 {
					p.Assign = append(p.Assign, x)
					a.AddPrincipalRole(x.real())
				}
			} else {
				f := pick(c, idle)
				for range often(c) {
					f()
				}
			}
			c.Count("long runs of changes without effect", 1)
		}
		for i, q := range before {
			n := judge(kind, q)
			if n.ans != q.ans {
				c.Count("answer changed by the step", 1)
			}
			before[i] = n
		}
		q := asked{r: genV2Req(c, p, g)}
		if c.Chance(40) {
			q.roles = append(genRoleList(c, p, g), pick(c, g.roles))
		}
		q = judge(kind, q)
		if len(before) < 4 {
			before = append(before, q)
		} else {
			before[c.IntN(4)] = q
		}
		if !c.Chance(25) {
			continue
		}
		for _, t := range p.Tenants {
			got, ok := a.GetTenant(t.ID)
			c.Check(ok == t.Registered && (!ok || got == ts[t.ID]), "GetTenant(%q) after %s: found %v, registered %v, the one registered last: %v", t.ID, kind, ok, t.Registered, got == ts[t.ID])
			if ok {
				c.Judged(1)
				c.Count("tenants read back", 1)
				bad := got.ID != t.ID || got.DefaultNS != t.Default || got.Status != t.Status || len(got.Namespaces) != len(t.NS) || len(got.ChildTenants) != len(t.Children)
				for _, n := range t.NS {
					ns := got.Namespaces[n]
					if ns == nil {
						bad = true
						break
					}
					bad = bad || ns.ID != n || len(ns.Scopes) != len(t.Scopes[n])
					for _, s := range t.Scopes[n] {
						bad = bad || ns.Scopes[s] == nil || ns.Scopes[s].ID != s
					}
				}
				for _, ch := range t.Children {
					bad = bad || got.ChildTenants[ch] == nil || got.ChildTenants[ch].ID != ch
				}
				c.Check(!bad, "tenant %q looked up after %s shows id %q, default %q, status %v, namespaces %v, children %d; it was given %+v", t.ID, kind, got.ID, got.DefaultNS, got.Status, got.Namespaces, len(got.ChildTenants), *t)
			}
		}
		for _, r := range p.Roles {
			got, ok := a.GetRole(r.Name)
			c.Check(ok == r.Registered && (!ok || got == rs[r.Name]), "GetRole(%q) after %s: found %v, registered %v, the one registered last: %v", r.Name, kind, ok, r.Registered, got == rs[r.Name])
			if ok {
				c.Judged(1)
				held := map[string]bool{}
				for _, q := range r.Perms {
					held[q.String()] = true
				}
				bad := got.Name != r.Name || len(got.Permissions) != len(held)
				for q := range held {
					_, in := got.Permissions[q]
					bad = bad || !in
				}
				c.Check(!bad, "role %q looked up after %s shows name %q and permissions %v; it was given %q", r.Name, kind, got.Name, got.Permissions, r.Perms)
			}
		}
		_, ok := a.GetTenant("no-such-tenant")
		_, ok2 := a.GetRole("no-such-role")
		c.Check(!ok && !ok2, "a tenant or role that was never registered was found")
		d, ok := a.GetDefaultTenant()
		want := p.tenant(p.DefaultTenant)
		if p.DefaultTenant == "" || want != nil && !want.Registered {
			want = nil
		}
		c.Check(ok == (want != nil) && (!ok || d == ts[want.ID]), "GetDefaultTenant() found %v; the default is %q, tenants %s", ok, p.DefaultTenant, p.describe())
		if ok {
			c.Count("default tenant found", 1)
		} else {
			c.Count("default tenant missing", 1)
		}
		c.Judged(3 + len(p.Tenants) + len(p.Roles))
	}
}
