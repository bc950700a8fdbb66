package harness

import (
	"fmt"
	"slices"
	"strings"
	"time"

	v2 "github.com/oarkflow/permission/v2"
)

// v2Policy describes a v2 policy as plain data, from which real authorizers are built and
// on which the model decides.
type v2Policy struct {
	Tenants       []*v2Tenant
	Roles         []*v2Role
	Edges         [][2]string
	Assign        []v2Assign
	DefaultTenant string
}

type v2Tenant struct {
	ID         string
	NS         []string
	Scopes     map[string][]string
	Ctor       bool // default namespace given to the constructor
	Default    string
	Status     v2.TenantStatus
	Children   []string
	Registered bool
}

type v2Role struct {
	Name       string
	Perms      []perm
	Registered bool
}

type v2Assign struct {
	Principal, Tenant, Namespace, Scope, Role string
	Manage                                    bool
	Expiry                                    *time.Time
}

func (a v2Assign) real() *v2.PrincipalRole {
	return &v2.PrincipalRole{Principal: a.Principal, Tenant: a.Tenant, Namespace: a.Namespace, Scope: a.Scope, Role: a.Role, ManageChildTenant: a.Manage, Expiry: a.Expiry}
}

func (p *v2Policy) describe() string {
	var b strings.Builder
	for _, t := range p.Tenants {
		fmt.Fprintf(&b, "tenant %q ns=%q default=%q scopes=%q status=%v children=%q registered=%v; ", t.ID, t.NS, t.Default, t.Scopes, t.Status, t.Children, t.Registered)
	}
	for _, r := range p.Roles {
		fmt.Fprintf(&b, "role %q perms=%q registered=%v; ", r.Name, r.Perms, r.Registered)
	}
	fmt.Fprintf(&b, "inherits=%q; ", p.Edges)
	for _, a := range p.Assign {
		fmt.Fprintf(&b, "assign principal=%q tenant=%q ns=%q scope=%q role=%q manage=%v expiry=%v; ", a.Principal, a.Tenant, a.Namespace, a.Scope, a.Role, a.Manage, a.Expiry)
	}
	fmt.Fprintf(&b, "defaultTenant=%q", p.DefaultTenant)
	return b.String()
}

// category is a label without influence on decisions.
func category(p perm) string { return []string{"c", "", "other"}[(len(p.Res)+len(p.Act))%3] }

type v2World struct {
	A       *v2.Authorizer
	Tenants map[string]*v2.Tenant
	Roles   map[string]*v2.Role
}

// build makes a real authorizer for the policy, tenants first or roles first.
func (p *v2Policy) build(a *v2.Authorizer) *v2World {
	return p.buildPausing(a, []int{0, 1, 2}, nil)
}

// buildPausing builds the parts in the order given, with a pause before the steps of each.
func (p *v2Policy) buildPausing(a *v2.Authorizer, order []int, pause func()) *v2World {
	w := &v2World{A: a, Tenants: map[string]*v2.Tenant{}, Roles: map[string]*v2.Role{}}
	if pause == nil {
		pause = func() {}
	}
	pausing := order[0] != 0 || order[1] != 1
	roles := func() {
		for _, r := range p.Roles {
			pause()
			role := v2.NewRole(r.Name)
			var ps []*v2.Permission
			for _, pm := range r.Perms {
				ps = append(ps, v2.NewPermission(category(pm), pm.Res, pm.Act))
			}
			w.Roles[r.Name] = role
			if pausing && r.Registered {
				a.AddRole(role)
				pause()
			}
			role.AddPermission(ps...) // several at once
			if !pausing && r.Registered {
				a.AddRole(role)
			}
		}
		for _, e := range p.Edges {
			pause()
			if err := a.AddChildRole(e[0], e[1]); err != nil {
				panic("harness: generated a cyclic role graph: " + err.Error())
			}
		}
	}
	tenants := func() {
		for _, t := range p.Tenants {
			var rt *v2.Tenant
			if t.Ctor && t.Default != "" {
				rt = v2.NewTenant(t.ID, t.Default)
			} else {
				rt = v2.NewTenant(t.ID)
			}
			if pausing && t.Registered { // to be completed while it is asked about
				w.Tenants[t.ID] = rt
				a.AddTenant(rt)
			}
			for _, ns := range t.NS {
				pause()
				rt.AddNamespace(ns, ns == t.Default)
				var ss []*v2.Scope
				for _, s := range t.Scopes[ns] {
					ss = append(ss, v2.NewScope(s))
				}
				if len(ss)%2 == 0 { // all at once or one by one
					_ = rt.AddScopeToNamespace(ns, ss...)
					continue
				}
				for _, s := range ss {
					_ = rt.AddScopeToNamespace(ns, s)
				}
			}
			if !slices.Contains(t.NS, t.Default) {
				rt.DefaultNS = t.Default // a default namespace the tenant does not have
			}
			pause()
			rt.Status = t.Status
			w.Tenants[t.ID] = rt
		}
		for _, t := range p.Tenants {
			pause()
			var cs []*v2.Tenant
			for _, ch := range t.Children {
				cs = append(cs, w.Tenants[ch])
			}
			w.Tenants[t.ID].AddChildTenant(cs...)
		}
		var ts []*v2.Tenant
		for _, t := range p.Tenants {
			if t.Registered && !pausing {
				ts = append(ts, w.Tenants[t.ID])
			}
		}
		a.AddTenants(ts...)
	}
	assignments := func() {
		var as []*v2.PrincipalRole
		for _, x := range p.Assign {
			as = append(as, x.real())
		}
		if len(as)%2 == 0 && !pausing {
			a.AddPrincipalRole(as...)
			scribble(as, &v2.PrincipalRole{})
		} else {
			for _, x := range as {
				pause()
				a.AddPrincipalRole(x)
			}
		}
	}
	for _, i := range order {
		[]func(){roles, tenants, assignments}[i]()
	}
	pause()
	if p.DefaultTenant != "" {
		a.SetDefaultTenant(p.DefaultTenant)
	}
	return w
}

func (p *v2Policy) tenant(id string) *v2Tenant {
	for _, t := range p.Tenants {
		if t.ID == id {
			return t
		}
	}
	return nil
}

func (p *v2Policy) role(name string) *v2Role {
	for _, r := range p.Roles {
		if r.Name == name && r.Registered {
			return r
		}
	}
	return nil
}

// reach lists the registered roles reachable from name through registered roles.
func (p *v2Policy) reach(name string) map[string]bool {
	out := map[string]bool{}
	var walk func(string)
	walk = func(n string) {
		if out[n] || p.role(n) == nil {
			return
		}
		out[n] = true
		for _, e := range p.Edges {
			if e[0] == n {
				walk(e[1])
			}
		}
	}
	walk(name)
	return out
}

type target struct {
	t  *v2Tenant
	ns string
}

// targets applies the tenant, namespace and scope rules of a request.
func (p *v2Policy) targets(r v2.Request, now time.Time) []target {
	var ts []*v2Tenant
	name := r.Tenant
	if name == "" {
		name = p.DefaultTenant
	}
	if name != "" {
		t := p.tenant(name)
		if t == nil || !t.Registered {
			return nil
		}
		ts = []*v2Tenant{t}
	} else {
		for _, t := range p.Tenants {
			if !t.Registered {
				continue
			}
			for _, a := range p.Assign {
				if a.Principal == r.Principal && a.Tenant == t.ID {
					ts = append(ts, t)
					break
				}
			}
		}
	}
	var out []target
	for _, t := range ts {
		ns := r.Namespace
		if ns == "" {
			if t.Default != "" {
				ns = t.Default
			} else if len(t.NS) == 1 {
				ns = t.NS[0]
			} else {
				continue
			}
		}
		if !slices.Contains(t.NS, ns) {
			continue
		}
		if r.Scope != "" && !slices.Contains(t.Scopes[ns], r.Scope) {
			continue
		}
		out = append(out, target{t, ns})
	}
	return out
}

// reached lists the tenants whose assignments count: the target and, level by level, the
// children of tenants the principal manages. Tenants that are not active are not entered.
func (p *v2Policy) reached(t *v2Tenant, principal string, now time.Time) []*v2Tenant {
	var out []*v2Tenant
	seen := map[string]bool{}
	var walk func(t *v2Tenant)
	walk = func(t *v2Tenant) {
		if seen[t.ID] || t.Status != v2.TenantStatusActive {
			return
		}
		seen[t.ID] = true
		out = append(out, t)
		manages := false
		for _, a := range p.Assign {
			if a.Principal == principal && a.Tenant == t.ID && a.Manage && !expired(a, now) {
				manages = true
			}
		}
		if manages {
			for _, ch := range t.Children {
				walk(p.tenant(ch))
			}
		}
	}
	walk(t)
	return out
}

func expired(a v2Assign, now time.Time) bool { return a.Expiry != nil && now.After(*a.Expiry) }

func (p *v2Policy) authorize(r v2.Request, now time.Time) bool {
	if r.Resource == "" && r.Action == "" {
		return false
	}
	for _, tg := range p.targets(r, now) {
		scoped, global := map[string]bool{}, map[string]bool{}
		for _, t := range p.reached(tg.t, r.Principal, now) {
			for _, a := range p.Assign {
				if a.Principal != r.Principal || a.Tenant != t.ID || expired(a, now) || a.Namespace != "" && a.Namespace != tg.ns {
					continue
				}
				if a.Scope != "" && a.Scope != r.Scope {
					continue
				}
				for role := range p.reach(a.Role) {
					for _, pm := range p.role(role).Perms {
						if a.Scope == r.Scope {
							scoped[pm.String()] = true
						} else {
							global[pm.String()] = true
						}
					}
				}
			}
		}
		perms := scoped
		if len(perms) == 0 {
			perms = global
		}
		for pm := range perms {
			if specMatch(r.Resource+" "+r.Action, pm) {
				return true
			}
		}
	}
	return false
}

func (p *v2Policy) can(r v2.Request, roles []string, now time.Time) bool {
	for _, tg := range p.targets(r, now) {
		for _, t := range p.reached(tg.t, r.Principal, now) {
			for _, a := range p.Assign {
				if a.Principal != r.Principal || a.Tenant != t.ID || expired(a, now) || a.Namespace != "" && a.Namespace != tg.ns {
					continue
				}
				if r.Scope != "" && a.Scope != "" && a.Scope != r.Scope || a.Role == "" {
					continue
				}
				if slices.Contains(roles, a.Role) {
					return true
				}
				for role := range p.reach(a.Role) {
					if slices.Contains(roles, role) {
						return true
					}
				}
			}
		}
	}
	return false
}

type v2Gen struct {
	principals, tenants, namespaces, scopes, roles []string
	focus                                          []v2.Request // what a bulk policy is about
}

// genV2Bulk makes a policy in which one thing comes in large numbers and only one of them matters.
func genV2Bulk(c *C) (*v2Policy, *v2Gen) {
	kind := c.IntN(8)
	n := 2 + c.IntN(1<<(1+c.IntN(8)))
	if kind == 3 && c.Chance(40) {
		n = 257 + c.IntN(500)
	}
	if c.Chance(6) {
		n = 257 + c.IntN(pick(c, []int{300, 900, 1900}))
		if kind <= 2 { // a request without a tenant takes time with the cube of them
			n = min(n, 257+c.IntN(150))
		}
		c.Count("huge policies", 1)
	}
	many := func(prefix string) (out []string) {
		for i := range n {
			out = append(out, fmt.Sprintf("%s%d", prefix, i))
		}
		return
	}
	g := &v2Gen{principals: names(c, "p", 2), tenants: names(c, "t", 2), namespaces: []string{"n0"}, scopes: []string{"s0"}, roles: []string{"filler", "needle"}}
	p := &v2Policy{}
	me := g.principals[0]
	needle, filler := perm{"/needle/:id", "GET"}, perm{"/filler", "GET"}
	tenant := func(id string) *v2Tenant {
		return &v2Tenant{ID: id, NS: g.namespaces, Scopes: map[string][]string{"n0": g.scopes}, Default: "n0", Ctor: c.Chance(50), Registered: true}
	}
	assign := func(t, role string) v2Assign {
		return v2Assign{Principal: me, Tenant: t, Role: role}
	}
	ask := func(t, ns, sc string) {
		g.focus = append(g.focus, v2.Request{Principal: me, Tenant: t, Namespace: ns, Scope: sc, Resource: "/needle/1", Action: "GET"})
	}
	roles := true
	at := n - 1 - c.IntN(1+c.IntN(n)) // mostly towards the end
	switch kind {
	case 0, 1: // a chain or a fan of managed tenants
		g.tenants = many("t")
		for i, id := range g.tenants {
			t := tenant(id)
			if kind == 0 && i+1 < n {
				t.Children = []string{g.tenants[i+1]}
			} else if kind == 1 && i == 0 {
				t.Children = g.tenants[1:]
			}
			p.Tenants = append(p.Tenants, t)
			a := assign(id, "filler")
			a.Manage = kind == 0 || i == 0
			p.Assign = append(p.Assign, a)
		}
		p.Assign = append(p.Assign, assign(g.tenants[at], "needle"))
		ask(g.tenants[0], "", "")
		ask(g.tenants[0], "n0", "s0")
		ask(g.tenants[at/2], "", "")
	case 2: // assigned in many tenants
		g.tenants = many("t")
		for i, id := range g.tenants {
			p.Tenants = append(p.Tenants, tenant(id))
			p.Assign = append(p.Assign, assign(id, []string{"filler", "needle"}[b2i(i == at)]))
		}
		ask("", "", "")
		ask("", "n0", "s0")
		ask(g.tenants[at], "", "")
	case 3: // many assignments, of others too
		for _, id := range g.tenants {
			p.Tenants = append(p.Tenants, tenant(id))
		}
		g.principals = append(g.principals, many("q")...)
		for i := range n {
			a := assign(g.tenants[0], []string{"filler", "needle"}[b2i(i == at)])
			if i != at && c.Chance(70) {
				a.Principal = pick(c, g.principals)
			}
			p.Assign = append(p.Assign, a)
		}
		ask(g.tenants[0], "", "")
		ask("", "", "")
	case 4: // many namespaces and scopes
		g.namespaces, g.scopes = many("n"), many("s")
		t := tenant(g.tenants[0])
		t.Default, t.Ctor = "", false
		t.Scopes = map[string][]string{}
		for i, ns := range g.namespaces {
			t.Scopes[ns] = []string{g.scopes[i]}
		}
		t.Scopes[g.namespaces[at]] = g.scopes
		p.Tenants = append(p.Tenants, t, tenant(g.tenants[1]))
		a := assign(t.ID, "needle")
		a.Namespace = g.namespaces[at]
		if c.Chance(50) {
			a.Scope = g.scopes[at]
		}
		p.Assign = append(p.Assign, a)
		ask(t.ID, g.namespaces[at], g.scopes[at])
		ask(t.ID, g.namespaces[at], g.scopes[0])
		ask(t.ID, g.namespaces[0], g.scopes[0])
		ask(t.ID, "", "")
	case 5, 6: // one role with many child roles, or a chain of them
		p.Tenants = append(p.Tenants, tenant(g.tenants[0]), tenant(g.tenants[1]))
		g.roles = many("r")
		roles = false
		for i, id := range g.roles {
			r := &v2Role{Name: id, Registered: true, Perms: []perm{{fmt.Sprintf("/f/%d", i), "GET"}}}
			if i == at {
				r.Perms = append(r.Perms, needle)
			}
			p.Roles = append(p.Roles, r)
			if i > 0 {
				p.Edges = append(p.Edges, [2]string{g.roles[(i-1)*b2i(kind == 5)], id})
			}
		}
		p.Assign = append(p.Assign, assign(g.tenants[0], g.roles[0]))
		ask(g.tenants[0], "", "")
		ask("", "", "s0")
	case 7: // many permissions, long identifiers
		p.Tenants = append(p.Tenants, tenant(g.tenants[0]), tenant(g.tenants[1]))
		roles = false
		r := &v2Role{Name: strings.Repeat("needle", n), Registered: true}
		for i := range n {
			r.Perms = append(r.Perms, perm{fmt.Sprintf("/f/%d", i), "GET"})
		}
		r.Perms[at] = needle
		g.roles = []string{r.Name, "filler"}
		p.Roles = append(p.Roles, r)
		g.principals[0] = strings.Repeat("p", n)
		g.principals[1] = strings.Repeat("p", n-1) + "q"
		me = g.principals[0]
		p.Assign = append(p.Assign, assign(g.tenants[0], r.Name))
		ask(g.tenants[0], "", "")
		me = g.principals[1]
		ask(g.tenants[0], "", "")
	}
	if roles {
		p.Roles = []*v2Role{{Name: "needle", Registered: true, Perms: []perm{needle}}, {Name: "filler", Registered: true, Perms: []perm{filler}}}
	}
	c.Shuffle(len(p.Assign), func(i, j int) { p.Assign[i], p.Assign[j] = p.Assign[j], p.Assign[i] })
	c.Count("bulk policies", 1)
	return p, g
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// genV2 makes a random policy. Sizes are small so that dimensions collide often.
func genV2(c *C) (*v2Policy, *v2Gen) {
	if c.IntN(400) == 0 {
		return genV2Bulk(c)
	}
	g := &v2Gen{
		principals: names(c, "p", 1+c.IntN(3)),
		tenants:    names(c, "t", 1+c.IntN(2+c.Size/2)),
		namespaces: names(c, "n", 1+c.IntN(3)),
		scopes:     names(c, "s", 1+c.IntN(3)),
		roles:      names(c, "r", 1+c.IntN(3+c.Size/3)),
	}
	wide := c.Chance(4) // more of everything than any small fixed buffer holds
	if wide {
		g.tenants = names(c, "t", 11+c.IntN(10))
		if c.Chance(30) {
			g.roles = names(c, "r", 6+c.IntN(12))
		}
	}
	if c.Chance(6) {
		g.namespaces = names(c, "n", 4+c.IntN(6))
		if c.Chance(50) {
			g.scopes = names(c, "s", 4+c.IntN(6))
		}
		c.Count("policies with many namespaces", 1)
	}
	p := &v2Policy{}
	for _, id := range g.tenants {
		t := &v2Tenant{ID: id, Scopes: map[string][]string{}, Registered: c.Chance(93)}
		t.NS = subset(c, g.namespaces, 75)
		if c.Chance(50) && len(t.NS) > 0 {
			t.Default = pick(c, t.NS)
			t.Ctor = c.Chance(50)
		}
		for _, ns := range t.NS {
			t.Scopes[ns] = subset(c, g.scopes, 70)
		}
		if c.Chance(2) && !slices.Contains(t.NS, g.namespaces[0]) {
			t.Default, t.Ctor = g.namespaces[0], false
			c.Count("defaults the tenant does not have", 1)
		}
		p.Tenants = append(p.Tenants, t)
	}
	// Hierarchy: mostly forests, sometimes shared children and cycles
	for i, t := range p.Tenants {
		for j, u := range p.Tenants {
			if pct := 35 * 4 / max(4, len(p.Tenants)); i < j && c.Chance(pct) || i > j && c.Chance(4*pct/35) {
				t.Children = append(t.Children, u.ID)
			}
		}
	}
	fillers := 0
	if c.Chance(3) {
		fillers = 1 + c.IntN(40)
		c.Count("policies with large roles", 1)
	}
	for _, n := range g.roles {
		r := &v2Role{Name: n, Registered: c.Chance(92)}
		for i := range fillers {
			r.Perms = append(r.Perms, perm{fmt.Sprintf("/f/%s/%d", n, i), "GET"})
		}
		for range c.IntN(4) {
			r.Perms = append(r.Perms, genPerm(c))
		}
		p.Roles = append(p.Roles, r)
	}
	for i := range g.roles {
		for j := i + 1; j < len(g.roles); j++ {
			if c.Chance(30) {
				p.Edges = append(p.Edges, [2]string{g.roles[i], g.roles[j]})
			}
		}
	}
	c.Shuffle(len(p.Edges), func(i, j int) { p.Edges[i], p.Edges[j] = p.Edges[j], p.Edges[i] })
	for range c.IntN(3 + c.Size) {
		p.Assign = append(p.Assign, genAssign(c, g))
	}
	if wide {
		// one principal assigned nearly everywhere, with a role that counts in few places
		for _, t := range g.tenants {
			if !c.Chance(90) {
				continue
			}
			a := genAssign(c, g)
			a.Principal, a.Tenant, a.Manage = g.principals[0], t, c.Chance(5)
			p.Assign = append(p.Assign, a)
		}
		c.Shuffle(len(p.Assign), func(i, j int) { p.Assign[i], p.Assign[j] = p.Assign[j], p.Assign[i] })
		c.Count("wide policies", 1)
	}
	if c.Chance(20) {
		p.DefaultTenant = pick(c, g.tenants)
	} else if c.Chance(4) {
		p.DefaultTenant = "no-such-tenant"
	}
	return p, g
}

func genAssign(c *C, g *v2Gen) v2Assign {
	a := v2Assign{
		Principal: pick(c, g.principals), Tenant: pick(c, g.tenants),
		Namespace: orEmpty(c, g.namespaces, 55), Scope: orEmpty(c, g.scopes, 55),
		Role: pick(c, g.roles), Manage: c.Chance(45),
	}
	if c.Chance(4) {
		a.Role = ""
	}
	if c.Chance(3) {
		a.Tenant = "no-such-tenant"
	}
	return a
}

// genV2Req makes a request: usually close to an assignment of the policy, so that grants and
// near misses are both common.
func genV2Req(c *C, p *v2Policy, g *v2Gen) v2.Request {
	r := v2.Request{
		Principal: pick(c, g.principals), Tenant: orEmpty(c, g.tenants, 20),
		Namespace: orEmpty(c, g.namespaces, 40), Scope: orEmpty(c, g.scopes, 45),
	}
	if len(g.focus) > 0 && c.Chance(50) {
		return pick(c, g.focus)
	}
	q := genReq(c)
	if len(p.Assign) > 0 && c.Chance(80) {
		a := pick(c, p.Assign)
		r.Principal = a.Principal
		if c.Chance(75) {
			r.Tenant = a.Tenant
			if c.Chance(30) { // a tenant above the assignment
				for _, t := range p.Tenants {
					if slices.Contains(t.Children, a.Tenant) {
						r.Tenant = t.ID
					}
				}
			}
			if c.Chance(15) {
				r.Tenant = ""
			}
		}
		if t := p.tenant(a.Tenant); t != nil && c.Chance(80) {
			switch {
			case a.Namespace != "" && c.Chance(70):
				r.Namespace = a.Namespace
			case len(t.NS) > 0 && c.Chance(60):
				r.Namespace = pick(c, t.NS)
			default:
				r.Namespace = ""
			}
			switch {
			case a.Scope != "" && c.Chance(70):
				r.Scope = a.Scope
			case len(t.Scopes[r.Namespace]) > 0 && c.Chance(60):
				r.Scope = pick(c, t.Scopes[r.Namespace])
			default:
				r.Scope = ""
			}
		}
		var cand []perm
		for role := range p.reach(a.Role) {
			cand = append(cand, p.role(role).Perms...)
		}
		if len(cand) > 0 && c.Chance(80) {
			slices.SortFunc(cand, func(a, b perm) int { return strings.Compare(a.String(), b.String()) })
			q = instance(c, pick(c, cand))
			if c.Chance(15) {
				q.Act = pick(c, reqActions)
			}
		}
	}
	if c.Chance(3) {
		r.Principal = "nobody"
	}
	if c.Chance(2) {
		r.Tenant = "no-such-tenant"
	}
	if c.Chance(2) {
		q = perm{}
	}
	r.Resource, r.Action = q.Res, q.Act
	return r
}

func genRoleList(c *C, p *v2Policy, g *v2Gen) []string {
	out := subset(c, g.roles, 25)
	if len(g.roles) > 20 {
		out = []string{pick(c, g.roles)}
	} else if len(g.focus) > 0 && c.Chance(50) {
		out = []string{"needle"}
	}
	if c.Chance(10) {
		out = append(out, "")
	}
	if c.Chance(10) {
		out = append(out, "no-such-role")
	}
	return out
}
