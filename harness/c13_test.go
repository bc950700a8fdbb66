package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	perm0 "github.com/oarkflow/permission"
)

func init() {
	register("C13", &Prop{
		Rule:  "a case is one history of root policy changes with questions and listings strewn in between; at several points every answer is compared with a fresh manager that was given the changes only; non-trivial: distinct (steps, questions asked before, battery answers) combinations where a change came after a question",
		Quick: 14000, Thorough: 700000,
		Need: []string{"decisions compared", "listings compared", "questions asked before a change", "answers changed by a change", "repeated questions"},
		Run:  runC13,
	})
	register("C21", &Prop{
		Rule:  "a case is one random root policy; every listing is called for every argument (or a sample) and compared as a set with a scan of the shadow rows; non-trivial: distinct (listing, rows, non-empty result size)",
		Quick: 28800, Thorough: 700000,
		Need: []string{"non-empty listings", "empty listings", "scopes with roles, direct", "scopes with roles, managed", "scopes with roles, nothing"},
		Run:  runC21,
	})
}

// listing is one listing call, its result put into a comparable form, and what it should be.
type listing struct {
	name string
	call func(w *rootWorld) map[string]int
	want func(m *rootModel) map[string]bool
	dups bool // the same row may be listed more than once
}

func rowsOf(rs []*row) map[string]int {
	out := map[string]int{}
	for _, r := range rs {
		if r == nil {
			out["nil row"]++
			continue
		}
		out[fmtRow(*r)]++
	}
	scribble(rs, nil)
	return out
}

func valsOf(xs []any) map[string]int {
	out := map[string]int{}
	for _, x := range xs {
		out[fmt.Sprintf("%#v", x)]++
	}
	scribble(xs, any("scribbled"))
	return out
}

func rowKeys(rows map[row]bool) map[string]bool {
	out := map[string]bool{}
	for r := range rows {
		out[fmtRow(r)] = true
	}
	return out
}

func strKeys(ids map[string]bool) map[string]bool {
	out := map[string]bool{}
	for s := range ids {
		out[fmt.Sprintf("%#v", any(s))] = true
	}
	return out
}

// listings returns every listing the manager offers, with random arguments.
func (g *rootGen) listings(c *C) []listing {
	p, t, n, s := pick(c, g.P), pick(c, g.T), pick(c, g.N), pick(c, g.S)
	nm := func(f string, args ...any) string {
		return fmt.Sprintf("%s(%s)", f, fmt.Sprintf(strings.Repeat("%q ", len(args)), args...))
	}
	sel := func(f func(r row) bool) func(m *rootModel) map[string]bool {
		return func(m *rootModel) map[string]bool { return rowKeys(m.select_(f)) }
	}
	nsFor := func(tt any) func(r row) bool {
		return func(r row) bool { return r.Tenant == tt && r.Namespace != nil && nilOr(r.Principal, p) }
	}
	scFor := func(tt any) func(r row) bool {
		return func(r row) bool {
			return r.Tenant == tt && r.Scope != nil && nilOr(r.Principal, p) && nilOr(r.Namespace, n)
		}
	}
	overDirect := func(f func(tt any) func(r row) bool) func(m *rootModel) map[string]bool {
		return func(m *rootModel) map[string]bool {
			out := map[string]bool{}
			for d := range m.direct(p) {
				for k := range rowKeys(m.select_(f(d))) {
					out[k] = true
				}
			}
			return out
		}
	}
	return []listing{
		{nm("GetTenantsByPrincipal", p), func(w *rootWorld) map[string]int { return valsOf(w.M.GetTenantsByPrincipal(p)) },
			func(m *rootModel) map[string]bool { return strKeys(m.direct(p)) }, false},
		{nm("GetTenants", p), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetTenants(p)) },
			sel(func(r row) bool { return r.Principal == p && r.Tenant != nil }), false},
		{nm("GetTenantIDs(GetTenants)", p), func(w *rootWorld) map[string]int { return valsOf(perm0.GetTenantIDs(w.M.GetTenants(p))) },
			func(m *rootModel) map[string]bool { return strKeys(m.direct(p)) }, false},
		{nm("GetImplicitTenants", p), func(w *rootWorld) map[string]int {
			out := map[string]int{}
			ts := w.M.GetImplicitTenants(p)
			for k := range ts {
				out[fmt.Sprintf("%#v", any(k))]++
			}
			clear(ts)
			ts["scribbled"] = struct{}{}
			return out
		}, func(m *rootModel) map[string]bool { return strKeys(m.implicit(p)) }, false},
		{nm("GetDescendantTenant", t), func(w *rootWorld) map[string]int { return valsOf(w.M.GetDescendantTenant(t)) },
			func(m *rootModel) map[string]bool { return strKeys(m.below(t)) }, false},
		{nm("TenantChildren", t), func(w *rootWorld) map[string]int { return valsOf(w.M.TenantChildren(t)) },
			func(m *rootModel) map[string]bool { return strKeys(m.below(t)) }, false},
		{nm("GetScopesByPrincipal", p), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetScopesByPrincipal(p)) },
			sel(func(r row) bool { return r.Principal == p && r.Tenant != nil && r.Scope != nil }), false},
		{nm("GetRolesByTenant", t), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetRolesByTenant(t)) },
			sel(func(r row) bool { return r.Tenant == t && r.Role != nil }), false},
		{nm("GetRoleIDs(GetRolesByTenant)", t), func(w *rootWorld) map[string]int { return valsOf(perm0.GetRoleIDs(w.M.GetRolesByTenant(t))) },
			func(m *rootModel) map[string]bool {
				out := map[string]bool{}
				for r := range m.Rows {
					if r.Tenant == t && r.Role != nil {
						out[fmt.Sprintf("%#v", r.Role)] = true
					}
				}
				return out
			}, false},
		{nm("GetNamespacesByPrincipal", p), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetNamespacesByPrincipal(p)) }, overDirect(nsFor), false},
		{nm("GetNamespacesForPrincipalByTenant", p, t), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetNamespacesForPrincipalByTenant(p, t)) }, sel(nsFor(t)), false},
		{nm("GetNamespaceForPrincipalByTenant", p, t), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetNamespaceForPrincipalByTenant(p, t)) }, sel(nsFor(t)), false},
		{nm("GetNamespacesByTenant", t), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetNamespacesByTenant(t)) },
			sel(func(r row) bool { return r.Tenant == t && r.Namespace != nil }), false},
		{nm("GetNamespaceByTenant", t), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetNamespaceByTenant(t)) },
			sel(func(r row) bool { return r.Tenant == t && r.Namespace != nil }), false},
		{nm("GetScopesByTenant", t), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetScopesByTenant(t)) },
			sel(func(r row) bool { return r.Tenant == t && r.Scope != nil }), false},
		{nm("GetScopesForPrincipalByTenant", p, t), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetScopesForPrincipalByTenant(p, t)) },
			sel(func(r row) bool { return r.Tenant == t && r.Scope != nil && nilOr(r.Principal, p) }), false},
		{nm("GetScopeForPrincipalByNamespace", p, n), func(w *rootWorld) map[string]int { return rowsOf(w.M.GetScopeForPrincipalByNamespace(p, n)) }, overDirect(scFor), false},
		{nm("GetScopesForPrincipalByTenantAndNamespace", p, t, n), func(w *rootWorld) map[string]int {
			return rowsOf(w.M.GetScopesForPrincipalByTenantAndNamespace(p, t, n))
		}, sel(scFor(t)), false},
		{nm("GetRolesForPrincipalByTenantNamespaceAndScope", p, t, n, s), func(w *rootWorld) map[string]int {
			return rowsOf(w.M.GetRolesForPrincipalByTenantNamespaceAndScope(p, t, n, s))
		}, sel(func(r row) bool {
			return r.Tenant == t && r.Principal == p && r.Role != nil && nilOr(r.Namespace, n) && nilOr(r.Scope, s)
		}), false},
		{nm("GetRolesForPrincipalByTenantAndNamespace", p, t, n), func(w *rootWorld) map[string]int {
			return rowsOf(w.M.GetRolesForPrincipalByTenantAndNamespace(p, t, n))
		}, sel(func(r row) bool { return r.Tenant == t && r.Principal == p && r.Role != nil && nilOr(r.Namespace, n) }), false},
		{nm("GetRolesForPrincipalByTenantAndScope", p, t, s), func(w *rootWorld) map[string]int {
			return rowsOf(w.M.GetRolesForPrincipalByTenantAndScope(p, t, s))
		}, sel(func(r row) bool { return r.Tenant == t && r.Principal == p && r.Role != nil && nilOr(r.Scope, s) }), false},
		{"Data().Data()", func(w *rootWorld) map[string]int { return rowsOf(w.M.Data().Data()) }, sel(func(r row) bool { return true }), false},
		{"AsString()", func(w *rootWorld) map[string]int {
			var rs []*row
			if err := json.Unmarshal([]byte(w.M.AsString()), &rs); err != nil {
				return map[string]int{"unreadable: " + err.Error(): 1}
			}
			return rowsOf(rs)
		}, sel(func(r row) bool { return true }), false},
		{nm("GetNamespaceIDs(GetNamespacesByTenant)", t), func(w *rootWorld) map[string]int { return valsOf(perm0.GetNamespaceIDs(w.M.GetNamespacesByTenant(t))) },
			func(m *rootModel) map[string]bool {
				out := map[string]bool{}
				for r := range m.Rows {
					if r.Tenant == t && r.Namespace != nil {
						out[fmt.Sprintf("%#v", r.Namespace)] = true
					}
				}
				return out
			}, false},
		{nm("GetScopeIDs(GetScopesByTenant)", t), func(w *rootWorld) map[string]int { return valsOf(perm0.GetScopeIDs(w.M.GetScopesByTenant(t))) },
			func(m *rootModel) map[string]bool {
				out := map[string]bool{}
				for r := range m.Rows {
					if r.Tenant == t && r.Scope != nil {
						out[fmt.Sprintf("%#v", r.Scope)] = true
					}
				}
				return out
			}, false},
		{nm("GetPrincipalIDs(GetRolesByTenant)", t), func(w *rootWorld) map[string]int { return valsOf(perm0.GetPrincipalIDs(w.M.GetRolesByTenant(t))) },
			func(m *rootModel) map[string]bool {
				out := map[string]bool{}
				for r := range m.Rows {
					if r.Tenant == t && r.Role != nil {
						out[fmt.Sprintf("%#v", r.Principal)] = true
					}
				}
				return out
			}, false},
	}
}

func jsonSafe(ids ...[]string) bool {
	for _, xs := range ids {
		for _, x := range xs {
			b, _ := json.Marshal(x)
			var y string
			if json.Unmarshal(b, &y) != nil || y != x {
				return false
			}
		}
	}
	return true
}

func fmtSet(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return "[" + strings.Join(out, " ") + "]"
}

func fmtBag(m map[string]int) string {
	var out []string
	for k, n := range m {
		if n > 1 {
			k += fmt.Sprintf("×%d", n)
		}
		out = append(out, k)
	}
	sort.Strings(out)
	return "[" + strings.Join(out, " ") + "]"
}

// scopesWithRoles puts the listing of scopes with roles into a comparable form.
func scopesWithRoles(rs []perm0.ScopeRoles) (pairs map[[2]string]bool, scopes map[string]int) {
	pairs, scopes = map[[2]string]bool{}, map[string]int{}
	for _, r := range rs {
		k := fmt.Sprintf("%#v", r.Scope)
		scopes[k]++
		for _, x := range r.Roles {
			if x != nil {
				pairs[[2]string{k, fmt.Sprintf("%#v", x)}] = true
			}
		}
	}
	return
}

// scopesWithRolesBounds gives, for a base tenant, what must and may be shown.
func (m *rootModel) scopesWithRolesBounds(p, base string, n any) (must, may map[[2]string]bool, scopes map[string]bool) {
	must, may, scopes = map[[2]string]bool{}, map[[2]string]bool{}, map[string]bool{}
	narrowed := false
	for r := range m.Rows {
		if r.Tenant == base && r.Scope != nil && n != nil && r.Namespace == n {
			narrowed = true
		}
	}
	for s := range m.Rows {
		if s.Tenant != base || s.Scope == nil {
			continue
		}
		own := s.Principal == p && s.Role != nil
		if narrowed && s.Namespace != n && !own {
			continue
		}
		scopes[fmt.Sprintf("%#v", s.Scope)] = true
		for r := range m.Rows {
			if r.Tenant != base || r.Principal != p || r.Role == nil {
				continue
			}
			if narrowed && s.Namespace != n && r.Scope != s.Scope {
				continue // shown for its own assignment only
			}
			k := [2]string{fmt.Sprintf("%#v", s.Scope), fmt.Sprintf("%#v", r.Role)}
			may[k] = true
			if r.Namespace == nil && r.Scope == nil && (!narrowed || s.Namespace == n) {
				must[k] = true
			}
		}
	}
	return
}

func (m *rootModel) judgeScopesWithRoles(p, t string, n any, rs []perm0.ScopeRoles) (string, string) {
	pairs, scopes := scopesWithRoles(rs)
	for s, k := range scopes {
		if k > 1 {
			return "", fmt.Sprintf("scope %s is listed %d times", s, k)
		}
	}
	bases := []string{t}
	kind := "direct"
	if !m.direct(p)[t] {
		bases, kind = sortedKeys(m.managing(p, t)), "managed"
	}
	if len(bases) == 0 {
		if len(scopes) > 0 {
			return "", fmt.Sprintf("shows %v for a principal with no assignment there", scopes)
		}
		return "nothing", ""
	}
	why := ""
	for _, b := range bases {
		must, may, shown := m.scopesWithRolesBounds(p, b, n)
		ok := true
		for k := range scopes {
			if !shown[k] {
				ok, why = false, fmt.Sprintf("shows scope %s, which is not one of tenant %q and the namespace", k, b)
			}
		}
		for k := range pairs {
			if !may[k] {
				ok, why = false, fmt.Sprintf("shows scope %s with role %s, not held in %q", k[0], k[1], b)
			}
		}
		for k := range must {
			if !pairs[k] {
				ok, why = false, fmt.Sprintf("lacks scope %s with role %s held in %q", k[0], k[1], b)
			}
		}
		if ok {
			return kind, ""
		}
	}
	return "", why
}

func runC21(c *C) {
	w, m, g, ops := rootCase(c)
	safe := jsonSafe(g.T, g.N, g.S, g.P, g.R)
	for range 6 {
		for _, l := range g.listings(c) {
			if l.name == "AsString()" && !safe {
				continue
			}
			got, want := l.call(w), l.want(m)
			c.Judged(1)
			bad := len(got) != len(want)
			for k, n := range got {
				bad = bad || !want[k] || n > 1
			}
			c.Logf("%s = %s", l.name, fmtBag(got))
			if bad {
				c.Failf("%s listed %s, the policy has %s\npolicy:%s", l.name, fmtBag(got), fmtSet(want), fmtOps(ops))
			}
			if len(want) > 0 {
				c.Count("non-empty listings", 1)
				c.Seen(l.name[:strings.IndexByte(l.name, '(')], len(want), len(m.Rows))
			} else {
				c.Count("empty listings", 1)
			}
		}
		p, t := pick(c, g.P), pick(c, g.T)
		var n any
		if c.Chance(70) {
			n = pick(c, g.N)
		}
		rs := w.M.GetScopesWithRolesForPrincipal(p, t, n)
		c.Judged(1)
		kind, why := m.judgeScopesWithRoles(p, t, n, rs)
		if why != "" {
			c.Failf("GetScopesWithRolesForPrincipal(%q, %q, %#v) %s\npolicy:%s", p, t, n, why, fmtOps(ops))
		}
		c.Count("scopes with roles, "+kind, 1)
		c.Seen("scopes with roles", kind, len(rs), len(m.Rows))
	}
}

func runC13(c *C) {
	g, ops := genRootSized(c)
	// late registrations: some of the entities appear only in the course of the history
	var late []rop
	for i := 0; i < len(ops); {
		if c.Chance(25) && ops[i].K != "tenant" {
			late = append(late, ops[i])
			ops = append(ops[:i], ops[i+1:]...)
		} else {
			i++
		}
	}
	w, m := newRootWorld(), newRootModel()
	for _, o := range ops {
		_ = w.apply(o)
		m.apply(o)
	}
	// a fixed battery of questions, asked again and again
	var battery []rreq
	for range 5 {
		battery = append(battery, g.req(c, m, c.Chance(50)))
	}
	var lists []listing
	for _, l := range g.listings(c) {
		if c.Chance(40) && l.name != "AsString()" {
			lists = append(lists, l)
		}
	}
	last := map[int]bool{}
	asked := 0
	steps := 6 + c.IntN(6+4*c.Size)
	for i := range steps {
		var o rop
		if len(late) > 0 && c.Chance(30) {
			o, late = late[0], late[1:]
		} else if o = g.op(c); c.Chance(8) {
			o = rop{K: "t.default", T: pick(c, g.regT), N: pick(c, g.N)}
		}
		if o.K == "desc" && len(m.HasDefault) > 0 { // a default is passed down: registered tenants only
			o.T, o.T2, o.IDs = pick(c, g.regT), pick(c, g.regT), nil
		}
		long := c.IntN(3000) == 0
		if long {
			for _, q := range battery {
				_ = w.ask(q)
			}
			for _, l := range lists {
				_ = l.call(w)
			}
		}
		_ = w.apply(o)
		m.apply(o)
		if long { // the same change again and again
			for range often(c) {
				_ = w.apply(o)
			}
			c.Count("long runs of changes without effect", 1)
			steps = i + 1
		}
		ops = append(ops, o)
		c.Logf("%s", o)
		if !long && c.Chance(60) {
			for range 1 + c.IntN(3) {
				if c.Chance(70) {
					q := pick(c, battery)
					if c.Chance(30) {
						q = g.req(c, m, c.Chance(50))
					}
					a := w.ask(q)
					c.Logf("  Authorize(%s) = %v", q, a)
					if c.Chance(20) {
						c.Count("repeated questions", 1)
						c.Judged(1)
						if b := w.ask(q); b != a {
							c.Failf("Authorize(%s) answered %v and, asked again, %v\nhistory:%s", q, a, b, fmtOps(ops))
						}
					}
				} else if len(lists) > 0 {
					_ = pick(c, lists).call(w)
				} else {
					_ = w.M.GetScopesWithRolesForPrincipal(pick(c, g.P), pick(c, g.T), pick(c, g.N))
				}
				asked++
			}
		}
		if i < steps-1 && !c.Chance(25) {
			continue
		}
		f := newRootWorld()
		for _, o := range ops {
			_ = f.apply(o)
		}
		c.Count("questions asked before a change", asked)
		for j, q := range battery {
			got, want := w.ask(q), f.ask(q)
			c.Judged(1)
			c.Count("decisions compared", 1)
			if got != want {
				c.Failf("Authorize(%s) answers %v after this history, a fresh manager given only the changes answers %v\nhistory:%s", q, got, want, fmtOps(ops))
			}
			if was, ok := last[j]; ok && was != got {
				c.Count("answers changed by a change", 1)
				c.Seen(q.shape(), was, got, o.K, asked)
			}
			last[j] = got
		}
		for _, l := range lists {
			got, want := l.call(w), l.call(f)
			c.Judged(1)
			c.Count("listings compared", 1)
			if fmtBag(got) != fmtBag(want) {
				c.Failf("%s lists %s after this history, a fresh manager given only the changes lists %s\nhistory:%s", l.name, fmtBag(got), fmtBag(want), fmtOps(ops))
			}
		}
	}
}
