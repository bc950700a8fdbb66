package harness

import (
	"fmt"
	"slices"
)

func init() {
	register("C10", &Prop{
		Rule:  "a case is one random root policy; every question naming a tenant outside the principal's must be denied, and questions that are denied are asked again after a burst of changes in other tenants (shared identifiers, powerful roles, other and the same principal); non-trivial: distinct (question shape, perturbation size, where the principal is assigned) of denied questions",
		Quick: 57600, Thorough: 3000000,
		Need: []string{"denied outside the principal's tenants", "denied again after changes elsewhere", "changes in unmanaged tenants above", "grants elsewhere while denied here"},
		Run:  runC10,
	})
	register("C11", &Prop{
		Rule:  "a case is one random root policy and 24 membership questions judged against the model; non-trivial: distinct (question shape, answer, tenants assigned, tenants managed, rows) combinations",
		Quick: 72000, Thorough: 4000000,
		Need: []string{"yes", "no", "yes through a managed tenant", "yes without a tenant", "no to an activity or group alone"},
		Run:  func(c *C) { runRootModel(c, false) },
	})
	register("C12", &Prop{
		Rule:  "a case is one random root policy and 24 activity questions judged against the model; non-trivial: distinct (question shape, answer, roles held, rows) combinations where the principal is assigned",
		Quick: 30000, Thorough: 4000000,
		Need: []string{"yes", "no", "yes through a managed tenant", "yes without a tenant", "yes through a descendant role", "no though another principal's role would do"},
		Run:  func(c *C) { runRootModel(c, true) },
	})
}

func runRootModel(c *C, activity bool) {
	w, m, g, ops := rootCase(c)
	if c.Chance(15) { // a locked role refuses changes, it is held and asked like any other
		for _, r := range g.R {
			if c.Chance(60) {
				w.role(r).Lock()
				c.Count("locked roles", 1)
			}
		}
	}
	for range 24 {
		q := g.req(c, m, activity)
		if !activity && c.Chance(6) {
			if c.Chance(50) {
				q.Grp = pick(c, g.G)
			} else {
				q.Act = pick(c, g.acts).String()
			}
			c.Count("no to an activity or group alone", 1)
		}
		want := m.authorize(q)
		got := w.ask(q)
		c.Judged(1)
		c.Logf("Authorize(%s) = %v", q, got)
		if got != want {
			c.Failf("Authorize(%s) answered %v, the policy says %v\npolicy:%s", q, got, want, fmtOps(ops))
		}
		if !want {
			c.Count("no", 1)
			if activity && m.Principals[q.P] && q.T != nil {
				for p := range m.Principals {
					if o := q; p != q.P {
						o.P = p
						if m.authorize(o) {
							c.Count("no though another principal's role would do", 1)
							break
						}
					}
				}
			}
		} else {
			c.Count("yes", 1)
			if q.T == nil {
				c.Count("yes without a tenant", 1)
			} else if n := *m; true {
				n.Desc = nil
				if !n.authorize(q) {
					c.Count("yes through a managed tenant", 1)
				}
			}
			if n := *m; activity {
				n.RoleDesc = nil
				if !n.authorize(q) {
					c.Count("yes through a descendant role", 1)
				}
			}
		}
		if d := len(m.direct(q.P)); d > 0 {
			c.Seen(q.shape(), want, d, len(m.implicit(q.P)), len(m.Rows), len(m.Roles))
		}
	}
}

func runC10(c *C) {
	w, m, g, ops := rootCase(c)
	var denied []rreq
	for range 30 {
		q := g.req(c, m, c.Chance(50))
		if q.T == nil {
			continue
		}
		got := w.ask(q)
		if _, in := m.implicit(q.P)[q.T.(string)]; !in {
			c.Judged(1)
			c.Count("denied outside the principal's tenants", 1)
			if got {
				c.Failf("Authorize(%s) granted although the principal has no assignment in that tenant nor manages one above it\npolicy:%s", q, fmtOps(ops))
			}
		}
		if !got {
			denied = append(denied, q)
		}
	}
	if len(denied) == 0 {
		return
	}
	q := pick(c, denied)
	t := q.T.(string)
	// Changes elsewhere: not in t, not in a tenant above it that the principal manages, and no new
	// place in the hierarchy above t. Tenants above it that are not managed are elsewhere too, as
	// long as the changes do not make the principal manage them.
	above := map[string]bool{}
	strict := c.Chance(40)
	unmanaged := map[string]bool{}
	for _, a := range g.T {
		if reach(m.Desc, a)[t] {
			above[a] = strict || m.managing(q.P, t)[a]
			unmanaged[a] = !above[a]
		}
	}
	var other []string
	for _, a := range g.T {
		if a != t && !above[a] {
			other = append(other, a)
		}
	}
	if len(other) == 0 {
		return
	}
	isOther := setOf(other...)
	var extra []rop
	for range 4 + c.IntN(16) {
		o := g.op(c)
		switch o.K {
		case "perm", "roledesc":
			continue // not something done in a tenant
		case "desc":
			// placing other tenants below one another, or below t, adds nothing above t
			bad := func(d string) bool { return !isOther[d] || unmanaged[d] }
			if bad(o.T2) || !isOther[o.T] && o.T != t || slices.ContainsFunc(o.IDs, bad) {
				continue
			}
		case "raw":
			o.Row.Tenant = pick(c, other)
			if c.Chance(70) {
				o.Row.Principal = q.P
			}
		default:
			o.T = pick(c, other)
			if !m.Tenants[o.T] {
				continue
			}
			if c.Chance(70) && o.P != "" {
				o.P = q.P
			}
		}
		if c.Chance(60) {
			// as close to the question as can be
			if o.N != "" && q.N != nil {
				o.N = q.N.(string)
			}
			if o.S != "" && q.S != nil {
				o.S = q.S.(string)
			}
			if o.Row.Namespace != nil {
				o.Row.Namespace = q.N
			}
			if o.Row.Scope != nil {
				o.Row.Scope = q.S
			}
		}
		if unmanaged[o.T] || o.K == "raw" && unmanaged[fmt.Sprint(o.Row.Tenant)] {
			o.M = false
			if o.Row.ManageDescendants != nil {
				o.Row.ManageDescendants = false
			}
			c.Count("changes in unmanaged tenants above", 1)
		}
		extra = append(extra, o)
	}
	for _, o := range extra {
		_ = w.apply(o)
		m.apply(o)
		if c.Chance(20) {
			_ = w.ask(g.req(c, m, c.Chance(50)))
		}
	}
	got := w.ask(q)
	c.Judged(1)
	c.Count("denied again after changes elsewhere", 1)
	c.Logf("Authorize(%s) = %v after%s", q, got, fmtOps(extra))
	if got {
		c.Failf("Authorize(%s) was denied and is granted after changes in other tenants only:%s\nbefore:%s", q, fmtOps(extra), fmtOps(ops))
	}
	for _, o := range other {
		r := q
		r.T = o
		if w.ask(r) {
			c.Count("grants elsewhere while denied here", 1)
			break
		}
	}
	c.Seen(q.shape(), len(extra), len(m.direct(q.P)), len(above), len(other))
}
