package harness

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	v2 "github.com/oarkflow/permission/v2"
)

func init() {
	register("C03", &Prop{
		Rule:  "a case is a random v2 policy and a history of additions, removals by partial description and questions; after each change a fresh authorizer holding the surviving assignments is built and both are asked the same questions; non-trivial: distinct (fields given, matched, survivors, duplicates) of removals",
		Quick: 80000, Thorough: 1500000,
		Need: []string{"removals that matched", "removals refused", "decisions compared", "compared grants"},
		Run:  runC03,
	})
	register("C04", &Prop{
		Rule:  "a case is a history of role registrations, inheritance edges (many cyclic, shared or repeated), permission grants and removals on a role graph and an authorizer, each step followed by resolving roles and asking for decisions, judged against the graph as it stands; non-trivial: distinct (graph size, edges, refused or accepted, reachable) states",
		Quick: 360000, Thorough: 3000000,
		Need: []string{"edges accepted", "edges refused", "resolutions", "decisions granted", "decisions denied", "shared descendants"},
		Run:  runC04,
	})
	register("C05", &Prop{
		Rule:  "a case is a random v2 policy with expiries in virtual time; at instants just before, at and after each expiry every decision is compared with a fresh authorizer holding exactly the unexpired assignments without expiry, and the expiry setters are exercised; non-trivial: distinct (number expired, position relative to an expiry, answer, kind of question)",
		Quick: 36000, Thorough: 400000,
		Need: []string{"decisions compared", "decisions that expiry changed", "instants at an expiry", "refused past expiries", "malformed durations", "other time scales", "expiries far away", "cleared expiries", "expiries shared by two assignments"},
		Run:  runC05,
	})
	register("C08", &Prop{
		Rule:  "a case is a random v2 policy and several assignments of statuses to its tenants; every decision is compared with the same policy, all active, without the assignments in tenants that are not active, then all tenants are made active again and the first answers must return; non-trivial: distinct (statuses, request shape, answer, changed by status)",
		Quick: 60000, Thorough: 1000000,
		Need: []string{"decisions compared", "decisions that a status changed", "grants beside inactive tenants", "restored decisions"},
		Run:  runC08,
	})
}

func runC03(c *C) {
	p, g := genV2(c)
	initial := p.Assign
	p.Assign = nil
	w := p.build(v2.NewAuthorizer())
	for _, a := range initial {
		w.A.AddPrincipalRole(a.real())
		p.Assign = append(p.Assign, a)
	}
	c.Logf("%s", p.describe())
	compare := func(n int) {
		fresh := p.build(v2.NewAuthorizer())
		for range n {
			r := genV2Req(c, p, g)
			if c.Chance(30) && len(initial) > 0 {
				// about an assignment that may be gone
				q := *p
				q.Assign = initial
				r = genV2Req(c, &q, g)
			}
			got, want := w.A.Authorize(r), fresh.A.Authorize(r)
			c.Judged(2)
			c.Logf("Authorize(%s) = %v", fmtReq(r), got)
			c.Check(got == want, "Authorize(%s) answered %v, an authorizer holding only the surviving assignments answers %v\npolicy: %s", fmtReq(r), got, want, p.describe())
			if got {
				c.Count("compared grants", 1)
			}
			roles := genRoleList(c, p, g)
			got, want = w.A.Can(r, roles...), fresh.A.Can(r, roles...)
			c.Check(got == want, "Can(%s, %q) answered %v, an authorizer holding only the surviving assignments answers %v\npolicy: %s", fmtReq(r), roles, got, want, p.describe())
			c.Count("decisions compared", 2)
		}
	}
	compare(3)
	steps := 3 + c.IntN(4+c.Size)
	for range steps {
		if c.Chance(45) {
			n := 1 + c.IntN(2)
			var rs []*v2.PrincipalRole
			for range n {
				a := genAssign(c, g)
				if len(p.Assign) > 0 && c.Chance(25) {
					a = pick(c, p.Assign) // a duplicate
				}
				if c.Chance(15) { // expired or not, an assignment is there until it is removed
					e := time.Now().Add(pick(c, []time.Duration{-time.Hour, 24 * time.Hour}))
					a.Expiry = &e
				}
				p.Assign = append(p.Assign, a)
				initial = append(initial, a)
				rs = append(rs, a.real())
				c.Logf("AddPrincipalRole(%+v)", a)
			}
			rs = lend(c, rs)
			w.A.AddPrincipalRole(rs...)
			scribble(rs, &v2.PrincipalRole{})
		} else {
			var t v2.PrincipalRole
			if len(p.Assign) > 0 && c.Chance(80) {
				a := pick(c, p.Assign)
				t = *a.real()
				t.Expiry, t.ManageChildTenant = nil, c.Chance(50)
				if c.Chance(25) { // no part of the description
					e := time.Now().Add(pick(c, []time.Duration{-time.Hour, 24 * time.Hour}))
					t.Expiry = &e
				}
				for _, f := range []*string{&t.Principal, &t.Tenant, &t.Namespace, &t.Scope, &t.Role} {
					if c.Chance(45) {
						*f = ""
					}
				}
				if c.Chance(15) {
					t.Principal = pick(c, g.principals)
				}
				if c.Chance(15) {
					t.Role = pick(c, g.roles)
				}
			} else {
				t = v2.PrincipalRole{Principal: orEmpty(c, g.principals, 50), Tenant: orEmpty(c, g.tenants, 50), Namespace: orEmpty(c, g.namespaces, 60), Scope: orEmpty(c, g.scopes, 60), Role: orEmpty(c, g.roles, 50)}
			}
			if t.Principal == "" && t.Tenant == "" && t.Namespace == "" && t.Scope == "" && t.Role == "" && c.Chance(80) {
				t.Principal = pick(c, g.principals) // removing everything is legal but rarely interesting
			}
			var keep []v2Assign
			for _, a := range p.Assign {
				if t.Principal != "" && a.Principal != t.Principal || t.Tenant != "" && a.Tenant != t.Tenant || t.Namespace != "" && a.Namespace != t.Namespace ||
					t.Scope != "" && a.Scope != t.Scope || t.Role != "" && a.Role != t.Role {
					keep = append(keep, a)
				}
			}
			err := w.A.RemovePrincipalRole(t)
			matched := len(p.Assign) - len(keep)
			c.Judged(1)
			c.Logf("RemovePrincipalRole(%+v) = %v; matches %d of %d", t, err, matched, len(p.Assign))
			c.Check((err != nil) == (matched == 0), "RemovePrincipalRole(%+v) returned %v although %d assignments match\npolicy: %s", t, err, matched, p.describe())
			if matched > 0 {
				c.Count("removals that matched", 1)
			} else {
				c.Count("removals refused", 1)
			}
			c.Seen(t.Principal != "", t.Tenant != "", t.Namespace != "", t.Scope != "", t.Role != "", matched, len(keep))
			p.Assign = keep
		}
		compare(3)
	}
}

// c04Shapes: deep chains and ladders of diamonds, in which resolution must reach the far end
// and in which following every path instead of every role never ends.
func c04Shapes(c *C) {
	a, dag := v2.NewAuthorizer(), v2.NewRoleDAG()
	a.AddTenant(v2.NewTenant("T", "N"))
	levels, width := 2+c.IntN(300), 1
	if c.Chance(2) {
		levels = 302 + c.IntN(2000)
		c.Count("very deep chains", 1)
	}
	if c.Chance(50) {
		levels, width = 25+c.IntN(25), 2+c.IntN(2)
	}
	name := func(l, w int) string { return fmt.Sprintf("r%d_%d", l, w) }
	order := c.Perm(levels - 1) // edges in any order of levels
	want := map[string]bool{}
	for l := range levels {
		for w := range width {
			r := v2.NewRole(name(l, w))
			r.AddPermission(v2.NewPermission("", "p"+name(l, w), "X"))
			dag.AddRole(r)
			a.AddRole(r)
			if l > 0 || w == 0 {
				want["p"+name(l, w)+" X"] = true
			}
		}
	}
	for _, l := range order {
		for w := range width {
			var children []string
			for v := range width {
				children = append(children, name(l+1, v))
			}
			c.Shuffle(len(children), func(i, j int) { children[i], children[j] = children[j], children[i] })
			if err := dag.AddChildRole(name(l, w), children...); err != nil {
				c.Failf("AddChildRole(%q, %q) was refused: %v; the graph is a ladder without cycles", name(l, w), children, err)
			}
			if err := a.AddChildRole(name(l, w), children...); err != nil {
				c.Failf("AddChildRole(%q, %q) was refused: %v; the graph is a ladder without cycles", name(l, w), children, err)
			}
		}
	}
	c.Logf("%d levels of %d roles, each with every role of the next level as child", levels, width)
	top, bottom := name(0, 0), name(levels-1, c.IntN(width))
	got := map[string]bool{}
	for p := range dag.ResolvePermissions(top) {
		got[p] = true
	}
	c.Check(sameSet(got, want), "%d levels of %d roles: %d permissions resolved at the top, %d reachable", levels, width, len(got), len(want))
	c.Check(len(dag.ResolveChildRoles(top)) == len(want), "%d levels of %d roles: %d roles resolved at the top, %d reachable", levels, width, len(dag.ResolveChildRoles(top)), len(want))
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "P", Tenant: "T", Role: top})
	c.Check(a.Authorize(v2.Request{Principal: "P", Tenant: "T", Resource: "p" + bottom, Action: "X"}), "%d levels of %d roles: a permission of the bottom role is not granted at the top", levels, width)
	c.Check(a.Can(v2.Request{Principal: "P", Tenant: "T"}, bottom), "%d levels of %d roles: the top role cannot act as the bottom one", levels, width)
	c.Check(dag.AddChildRole(bottom, top) != nil && a.AddChildRole(bottom, top) != nil, "%d levels of %d roles: an edge from bottom to top was accepted", levels, width)
	c.Check(dag.AddChildRole(bottom, "new") == nil && a.AddChildRole(top, bottom) == nil, "%d levels of %d roles: an edge to a new role was refused", levels, width)
	c.Judged(7)
	c.Count("deep chains and ladders", 1)
	c.Seen("shape", levels, width)
}

func runC04(c *C) {
	if c.Index%240 == 3 { // one process only: a graph followed path by path eats memory
		c04Shapes(c)
		return
	}
	g := names(c, "r", 2+c.IntN(2+c.Size))
	type state struct {
		registered map[string]*v2.Role
		perms      map[*v2.Role]map[string]bool
		edges      [][2]string
	}
	s := state{map[string]*v2.Role{}, map[*v2.Role]map[string]bool{}, nil}
	dag := v2.NewRoleDAG()
	a := v2.NewAuthorizer()
	t := v2.NewTenant("T", "N")
	a.AddTenant(t)
	for _, r := range g {
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "P" + r, Tenant: "T", Role: r})
	}
	reachAll := func(from string) map[string]bool { // ignoring registration
		out := map[string]bool{}
		var walk func(string)
		walk = func(n string) {
			if out[n] {
				return
			}
			out[n] = true
			for _, e := range s.edges {
				if e[0] == n {
					walk(e[1])
				}
			}
		}
		walk(from)
		return out
	}
	reach := func(from string) map[string]bool {
		out := map[string]bool{}
		var walk func(string)
		walk = func(n string) {
			if out[n] || s.registered[n] == nil {
				return
			}
			out[n] = true
			for _, e := range s.edges {
				if e[0] == n {
					walk(e[1])
				}
			}
		}
		walk(from)
		return out
	}
	permNames := []string{"a", "b", "c", "d"}
	var roles []*v2.Role
	newRole := func() *v2.Role {
		r := v2.NewRole(pick(c, g))
		s.perms[r] = map[string]bool{}
		roles = append(roles, r)
		return r
	}
	verify := func() {
		for range 3 {
			n := pick(c, g)
			reached := reach(n)
			want := map[string]bool{}
			for r := range reached {
				for p := range s.perms[s.registered[r]] {
					want[p+" X"] = true
				}
			}
			c.Judged(4)
			got := map[string]bool{}
			resolved := dag.ResolvePermissions(n)
			for p := range resolved {
				got[p] = true
			}
			clear(resolved) // what was handed out is the caller's
			for _, p := range permNames {
				resolved[p+" X"] = struct{}{}
			}
			c.Check(sameSet(got, want), "ResolvePermissions(%q) = %v, the graph gives %v", n, got, want)
			gotRoles := map[string]bool{}
			resolved = dag.ResolveChildRoles(n)
			for r := range resolved {
				gotRoles[r] = true
			}
			clear(resolved)
			for _, r := range g {
				resolved[r] = struct{}{}
			}
			c.Check(sameSet(gotRoles, reached), "ResolveChildRoles(%q) = %v, the graph gives %v", n, gotRoles, reached)
			c.Count("resolutions", 2)
			p := pick(c, permNames)
			ok := a.Authorize(v2.Request{Principal: "P" + n, Tenant: "T", Resource: p, Action: "X"})
			c.Check(ok == want[p+" X"], "a principal holding %q asking for %q was answered %v, its permissions are %v", n, p, ok, want)
			if ok {
				c.Count("decisions granted", 1)
			} else {
				c.Count("decisions denied", 1)
			}
			m := pick(c, g)
			ok = a.Can(v2.Request{Principal: "P" + n, Tenant: "T"}, m)
			c.Check(ok == (reached[m] || n == m), "whether a principal holding %q can act as %q was answered %v, it reaches %v", n, m, ok, reached)
			c.Seen(len(g), len(s.edges), len(s.registered), len(reached), len(want), ok)
		}
	}
	for range 4 + c.IntN(10+2*c.Size) {
		switch k := c.IntN(100); {
		case k < 25:
			r := newRole()
			if len(roles) > 0 && c.Chance(20) {
				r = pick(c, roles)
			}
			var given []*v2.Permission
			for range c.IntN(4) {
				p := pick(c, permNames)
				given = append(given, v2.NewPermission(pick(c, []string{"", "", "page"}), p, "X"))
				s.perms[r][p] = true
			}
			given = lend(c, stretch(c, given))
			r.AddPermission(given...)
			scribble(given, &v2.Permission{})
			rs := []*v2.Role{r}
			for c.Chance(25) {
				rs = append(rs, newRole())
			}
			dag.AddRole(lend(c, rs)...)
			if len(rs) == 1 && c.Chance(50) {
				a.AddRole(r)
			} else {
				a.AddRoles(rs...)
			}
			for _, r := range rs {
				s.registered[r.Name] = r
				c.Logf("AddRole(%q with %v), %d at once", r.Name, s.perms[r], len(rs))
			}
		case k < 60:
			parent := pick(c, g)
			var children []string
			for range 1 + c.IntN(3) {
				children = append(children, pick(c, g))
			}
			cyclic := false
			for _, ch := range children {
				if reachAll(ch)[parent] {
					cyclic = true
				}
			}
			children = stretch(c, children)
			lent := lend(c, children)
			err := dag.AddChildRole(parent, lent...)
			err2 := a.AddChildRole(parent, lent...)
			scribble(lent, pick(c, g))
			c.Judged(2)
			c.Logf("AddChildRole(%q, %q) = %v", parent, children, err)
			c.Check((err != nil) == cyclic && (err2 != nil) == cyclic, "AddChildRole(%q, %q) returned %v and %v; making a role its own ancestor: %v; edges %q", parent, children, err, err2, cyclic, s.edges)
			if cyclic {
				c.Count("edges refused", 1)
			} else {
				for _, ch := range children {
					s.edges = append(s.edges, [2]string{parent, ch})
				}
				c.Count("edges accepted", 1)
				in := map[string]map[string]bool{}
				for _, e := range s.edges {
					if in[e[1]] == nil {
						in[e[1]] = map[string]bool{}
					}
					in[e[1]][e[0]] = true
					if len(in[e[1]]) > 1 {
						c.Count("shared descendants", 1)
						break
					}
				}
			}
		case k < 80 && len(roles) > 0:
			r, p := pick(c, roles), pick(c, permNames)
			r.AddPermission(v2.NewPermission("", p, "X"))
			s.perms[r][p] = true
			c.Logf("%q.AddPermission(%s)", r.Name, p)
		case len(roles) > 0:
			r := pick(c, roles)
			var taken []*v2.Permission
			for range 1 + c.IntN(5) {
				p := pick(c, permNames)
				taken = append(taken, v2.NewPermission(pick(c, []string{"", "", "other"}), p, "X"))
				delete(s.perms[r], p)
				c.Logf("%q.RemovePermission(%s)", r.Name, p)
			}
			r.RemovePermission(taken...)
		}
		if c.IntN(4000) == 0 {
			var idle []func()
			for _, r := range s.registered {
				idle = append(idle, func() { dag.AddRole(r); a.AddRole(r) })
				for p := range s.perms[r] {
					idle = append(idle, func() { r.AddPermission(v2.NewPermission("", p, "X")) })
					break
				}
				break
			}
			if len(s.edges) > 0 {
				e := pick(c, s.edges)
				idle = append(idle, func() { _, _ = dag.AddChildRole(e[0], e[0]), a.AddChildRole(e[0], e[0]) })
				if c.Chance(50) {
					idle = append(idle, func() { _, _ = dag.AddChildRole(e[0], e[1]), a.AddChildRole(e[0], e[1]) })
				}
			}
			if len(idle) > 0 {
				f := pick(c, idle)
				for range often(c) % 2048 {
					f()
				}
				c.Count("long runs of changes without effect", 1)
			}
			for range 4 {
				verify()
			}
		}
		verify()
	}
}

func runC05(c *C) {
	var v *violationOut
	synctest.Test(c.T, func(*testing.T) { v = c.Protect(func() { c05(c) }) })
	if v != nil {
		panic(v)
	}
}

func c05(c *C) {
	p, g := genV2(c)
	base := time.Now()
	w := p.build(v2.NewAuthorizer())
	// Assignments with expiries are kept by reference, to set and clear them later
	var live []*v2.PrincipalRole
	var model []*v2Assign
	instants := map[time.Duration]bool{}
	unit := time.Second
	if c.Chance(40) {
		unit = pick(c, []time.Duration{3, 7 * time.Microsecond, time.Millisecond, 61 * time.Second, time.Hour, 25 * time.Hour, 31 * 24 * time.Hour, 3000 * 24 * time.Hour})
		c.Count("other time scales", 1)
	}
	for range 1 + c.IntN(3+c.Size/2) {
		a := genAssign(c, g)
		pr := a.real()
		m := &a
		d := time.Duration(1+c.IntN(5)) * unit
		at := base.Add(d)
		switch c.IntN(6) {
		case 0:
			pr.Expiry = nil
		case 1:
			given := at
			pr.Expiry, m.Expiry = &given, &at
			if c.Chance(50) && len(live) > 0 { // one time shared by two assignments, each to be changed alone
				j := c.IntN(len(live))
				live[j].Expiry, model[j].Expiry = &given, &at
				c.Count("expiries shared by two assignments", 1)
			}
		case 2:
			u := at.Round(0).UTC()
			c.Check(pr.SetExpiry(u) == nil, "SetExpiry %v from now was refused", d)
			m.Expiry = &u
		case 3:
			c.Check(pr.SetExpiryDuration(d) == nil, "SetExpiryDuration(%v) was refused", d)
			m.Expiry = &at
		case 4:
			c.Check(pr.SetExpiryDuration(d.String()) == nil, "SetExpiryDuration(%q) was refused", d.String())
			m.Expiry = &at
		case 5:
			in := at.In(time.FixedZone("X", 3600*c.IntN(14)))
			c.Check(pr.SetExpiry(in) == nil, "SetExpiry %v from now in another zone was refused", d)
			m.Expiry = &in
		}
		c.Check((pr.Expiry == nil) == (m.Expiry == nil) && (pr.Expiry == nil || pr.Expiry.Equal(*m.Expiry)), "expiry is %v, should be %v", pr.Expiry, m.Expiry)
		c.Judged(1)
		w.A.AddPrincipalRole(pr)
		live, model = append(live, pr), append(model, m)
		instants[d] = true
	}
	if c.Chance(40) { // an expiry in the past, set directly
		a := genAssign(c, g)
		past := base.Add(-time.Duration(1+c.IntN(1000)) * time.Nanosecond)
		a.Expiry = &past
		pr := a.real()
		w.A.AddPrincipalRole(pr)
		live, model = append(live, pr), append(model, &a)
	}
	if c.Chance(30) { // far away, beyond what fits into nanoseconds or 32 bits
		a := genAssign(c, g)
		far := time.Date(pick(c, []int{1, 1600, 1901, 1969, 1970, 1999, 2262, 2263, 2300, 2600, 9999}), time.June, 1, 0, 0, 0, 0, time.UTC)
		if c.Chance(10) {
			far = time.Time{}
		}
		pr := a.real()
		if far.After(base) && c.Chance(50) {
			c.Check(pr.SetExpiry(far) == nil, "SetExpiry(%v) was refused", far)
		} else if c.Chance(50) && !far.After(base) {
			c.Check(pr.SetExpiry(far) != nil && pr.Expiry == nil, "SetExpiry(%v) was accepted at %v", far, base)
			pr.Expiry = &far
		} else {
			pr.Expiry = &far
		}
		a.Expiry = &far
		w.A.AddPrincipalRole(pr)
		live, model = append(live, pr), append(model, &a)
		c.Count("expiries far away", 1)
	}
	fixed := p.Assign
	compare := func(n int, pos string) {
		now := time.Now()
		q := *p
		q.Assign = append([]v2Assign(nil), fixed...)
		all := *p
		all.Assign = append([]v2Assign(nil), fixed...)
		gone := 0
		for i, m := range model {
			a := *m
			exp := a.Expiry != nil && now.After(*a.Expiry)
			c.Check(live[i].IsExpired() == exp, "IsExpired of an assignment expiring at %v is %v at %v", a.Expiry, live[i].IsExpired(), now)
			a.Expiry = nil
			all.Assign = append(all.Assign, a)
			if exp {
				gone++
				continue
			}
			q.Assign = append(q.Assign, a)
		}
		ref, refAll := q.build(v2.NewAuthorizer()), all.build(v2.NewAuthorizer())
		for range n {
			r := genV2Req(c, &all, g)
			got, want := w.A.Authorize(r), ref.A.Authorize(r)
			c.Logf("at %v: Authorize(%s) = %v", now.Sub(base), fmtReq(r), got)
			c.Check(got == want, "%v after the start Authorize(%s) answered %v, with exactly the unexpired assignments the answer is %v\nunexpired: %s\nall: %s", now.Sub(base), fmtReq(r), got, want, q.describe(), all.describe())
			if want != refAll.A.Authorize(r) {
				c.Count("decisions that expiry changed", 1)
			}
			roles := genRoleList(c, p, g)
			got, want = w.A.Can(r, roles...), ref.A.Can(r, roles...)
			c.Check(got == want, "%v after the start Can(%s, %q) answered %v, with exactly the unexpired assignments the answer is %v\nunexpired: %s\nall: %s", now.Sub(base), fmtReq(r), roles, got, want, q.describe(), all.describe())
			if want != refAll.A.Can(r, roles...) {
				c.Count("decisions that expiry changed", 1)
			}
			c.Judged(2)
			c.Count("decisions compared", 2)
			c.Seen(pos, gone, shape(r), got, len(model))
		}
	}
	compare(2, "start")
	for s := 1; s <= 5; s++ {
		d := time.Duration(s) * unit
		if !instants[d] {
			continue
		}
		time.Sleep(base.Add(d - time.Nanosecond).Sub(time.Now()))
		compare(2, "before")
		time.Sleep(time.Nanosecond)
		compare(2, "at")
		c.Count("instants at an expiry", 1)
		time.Sleep(time.Nanosecond)
		compare(3, "after")
		// Exercise the setters on a live assignment
		i := c.IntN(len(live))
		pr, m := live[i], model[i]
		now := time.Now()
		var before *time.Time
		if pr.Expiry != nil {
			t := *pr.Expiry
			before = &t
		}
		unchanged := func() bool {
			return (pr.Expiry == nil) == (before == nil) && (before == nil || pr.Expiry.Equal(*before))
		}
		switch c.IntN(7) {
		case 6: // short, long and negative durations in every notation
			d := time.Duration(c.IntN(2000)) * pick(c, []time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour})
			if c.Chance(30) {
				d = -d
			}
			var arg any = d
			switch c.IntN(4) {
			case 0:
				arg = d.String()
			case 1:
				arg = fmt.Sprintf("%+dns", d.Nanoseconds())
			case 2:
				t := pick(c, []struct {
					s string
					d time.Duration
				}{{"1.5h", 90 * time.Minute}, {"-1h2m3s", -3723 * time.Second}, {"+.5s", time.Second / 2}, {"0", 0}, {"-0", 0}, {"1µs", time.Microsecond}, {"1h1h", 2 * time.Hour}, {"87600h", 87600 * time.Hour}})
				arg, d = t.s, t.d
			}
			err := pr.SetExpiryDuration(arg)
			e := now.Add(d)
			c.Check(err == nil && pr.Expiry != nil && pr.Expiry.Equal(e), "SetExpiryDuration(%v) at %v gave %v, %v", arg, now, pr.Expiry, err)
			m.Expiry = &e
			c.Count("durations in other notations", 1)
		case 0:
			err := pr.SetExpiry(now.Add(-time.Duration(1+c.IntN(100)) * pick(c, []time.Duration{1, time.Millisecond, time.Second, 24 * time.Hour})))
			c.Check(err != nil && unchanged(), "an expiry in the past was accepted: %v", pr.Expiry)
			c.Count("refused past expiries", 1)
		case 1:
			bad := pick(c, []string{"", "5", "soon", "1h ", "3 s", "5x", "s", "1.2.3s", "９s"})
			err := pr.SetExpiryDuration(bad)
			c.Check(err != nil && unchanged(), "the duration %q was accepted or changed the expiry to %v", bad, pr.Expiry)
			c.Count("malformed durations", 1)
		case 2:
			pr.ClearExpiry()
			m.Expiry = nil
			c.Check(pr.Expiry == nil, "after ClearExpiry the expiry is %v", pr.Expiry)
			c.Count("cleared expiries", 1)
		case 3:
			d := max(1, time.Duration(1+c.IntN(3))*unit-2*time.Nanosecond)
			var arg any = d
			if c.Chance(50) {
				arg = fmt.Sprintf("%dns", d.Nanoseconds())
			}
			err := pr.SetExpiryDuration(arg)
			e := now.Add(d)
			c.Check(err == nil && pr.Expiry != nil && pr.Expiry.Equal(e), "SetExpiryDuration(%v) at %v gave %v, %v", arg, now, pr.Expiry, err)
			m.Expiry = &e
		case 4:
			e := now.Add(time.Duration(c.IntN(3)) * unit)
			err := pr.SetExpiry(e)
			c.Check(err == nil && pr.Expiry != nil && pr.Expiry.Equal(e), "SetExpiry(%v) at %v gave %v, %v", e, now, pr.Expiry, err)
			m.Expiry = &e
		case 5: // extend an expiry already set
			e := now.Add(10 * time.Second)
			err := pr.SetExpiry(e)
			c.Check(err == nil && pr.Expiry.Equal(e), "SetExpiry(%v) gave %v, %v", e, pr.Expiry, err)
			e2 := now.Add(unit)
			err = pr.SetExpiry(e2)
			c.Check(err == nil && pr.Expiry.Equal(e2), "SetExpiry(%v) gave %v, %v", e2, pr.Expiry, err)
			m.Expiry = &e2
		}
		for i, m := range model {
			e := live[i].Expiry
			c.Check((e == nil) == (m.Expiry == nil) && (e == nil || e.Equal(*m.Expiry)), "after changing the expiry of another assignment, or none, the expiry of %+v is %v, it was %v", *live[i], e, m.Expiry)
		}
		c.Judged(1 + len(model))
		compare(2, "set")
	}
	time.Sleep(30 * unit)
	compare(3, "end")
}

func runC08(c *C) {
	p, g := genV2(c)
	for range 3 { // management is what makes children reachable
		a := genAssign(c, g)
		a.Manage = c.Chance(80)
		p.Assign = append(p.Assign, a)
	}
	c.Logf("%s", p.describe())
	w := p.build(v2.NewAuthorizer())
	type q struct {
		r     v2.Request
		roles []string
	}
	var qs []q
	for range 10 {
		qs = append(qs, q{genV2Req(c, p, g), genRoleList(c, p, g)})
	}
	ask := func(w *v2World) (out []bool) {
		for _, q := range qs {
			out = append(out, w.A.Authorize(q.r), w.A.Can(q.r, q.roles...))
		}
		return
	}
	first := ask(w)
	for range 3 {
		off := map[string]bool{}
		var desc string
		for _, t := range p.Tenants {
			st := v2.TenantStatusActive
			if c.Chance(35) {
				st = v2.TenantStatus(1 + c.IntN(4))
				off[t.ID] = true
			}
			w.Tenants[t.ID].Status = st
			desc += fmt.Sprintf("%q %v; ", t.ID, st)
		}
		ref := *p
		ref.Assign = nil
		for _, a := range p.Assign {
			if !off[a.Tenant] {
				ref.Assign = append(ref.Assign, a)
			}
		}
		got, want := ask(w), ask(ref.build(v2.NewAuthorizer()))
		for i := range got {
			q := qs[i/2]
			c.Judged(1)
			c.Logf("with %s question %d (%s, %q) = %v", desc, i, fmtReq(q.r), q.roles, got[i])
			c.Check(got[i] == want[i], "with statuses %s the question %s roles %q (%s) was answered %v, without the assignments in tenants that are not active the answer is %v\npolicy: %s",
				desc, fmtReq(q.r), q.roles, []string{"Authorize", "Can"}[i%2], got[i], want[i], p.describe())
			c.Count("decisions compared", 1)
			if got[i] != first[i] {
				c.Count("decisions that a status changed", 1)
			}
			if got[i] && len(off) > 0 {
				c.Count("grants beside inactive tenants", 1)
			}
			c.Seen(len(off), len(p.Tenants), shape(q.r), got[i], first[i], i%2)
		}
	}
	for _, t := range p.Tenants {
		w.Tenants[t.ID].Status = v2.TenantStatusActive
	}
	again := ask(w)
	for i := range again {
		c.Judged(1)
		c.Check(again[i] == first[i], "after making every tenant active again question %d (%s) was answered %v, before %v", i, fmtReq(qs[i/2].r), again[i], first[i])
		c.Count("restored decisions", 1)
	}
}
