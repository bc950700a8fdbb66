package harness

import (
	"fmt"
	"slices"
	"time"

	v2 "github.com/oarkflow/permission/v2"
)

func init() {
	register("C01", &Prop{
		Rule:  "a case is one random v2 policy and 24 requests near its assignments, each judged against the model; non-trivial: distinct (tenant/namespace/scope shape, answer, reached tenants, roles and assignments) combinations where the principal is assigned somewhere",
		Quick: 600000, Thorough: 6000000,
		Need: []string{"granted", "denied", "granted through a child tenant", "granted with the scope's own permissions", "granted in one of more than ten tenants"},
		Run:  runC01,
	})
	register("C02", &Prop{
		Rule:  "a case is one random v2 policy and 24 role questions, each judged against the model, permission questions interleaved; non-trivial: distinct (request shape, roles asked, answer) where the principal is assigned somewhere",
		Quick: 600000, Thorough: 6000000,
		Need: []string{"yes", "no", "yes through inheritance", "yes through a child tenant"},
		Run:  runC02,
	})
}

func fmtReq(r v2.Request) string {
	return fmt.Sprintf("principal=%q tenant=%q ns=%q scope=%q resource=%q action=%q", r.Principal, r.Tenant, r.Namespace, r.Scope, r.Resource, r.Action)
}

func shape(r v2.Request) string {
	b := func(s string) byte {
		if s == "" {
			return '0'
		}
		return '1'
	}
	return string([]byte{b(r.Tenant), b(r.Namespace), b(r.Scope), b(r.Resource), b(r.Action)})
}

// buildAsking builds the policy, now and then with questions asked while it is being built: what was
// answered then must not linger.
func buildAsking(c *C, p *v2Policy, g *v2Gen) (*v2World, []v2.Request) {
	if len(p.Assign)+len(p.Roles)+len(p.Tenants) > 40 || !c.Chance(25) {
		return p.build(v2.NewAuthorizer()), nil
	}
	a := v2.NewAuthorizer()
	var asked []v2.Request
	w := p.buildPausing(a, pick(c, [][]int{{2, 1, 0}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}}), func() {
		if !c.Chance(30) {
			return
		}
		r := genV2Req(c, p, g)
		if len(asked) > 0 && c.Chance(50) {
			r = pick(c, asked)
		}
		a.Authorize(r)
		a.Can(r, genRoleList(c, p, g)...)
		if len(asked) < 6 {
			asked = append(asked, r)
		}
		c.Count("questions asked before a change", 1)
	})
	return w, asked
}

func runC01(c *C) {
	p, g := genV2(c)
	c.Logf("%s", p.describe())
	w, asked := buildAsking(c, p, g)
	for range 24 {
		r := genV2Req(c, p, g)
		if len(asked) > 0 && c.Chance(40) {
			r = pick(c, asked)
		}
		want := p.authorize(r, time.Time{})
		got := w.A.Authorize(r)
		c.Judged(1)
		c.Logf("Authorize(%s) = %v", fmtReq(r), got)
		if got != want {
			c.Failf("Authorize(%s) answered %v, the policy entitles %v\npolicy: %s", fmtReq(r), got, want, p.describe())
		}
		if want {
			c.Count("granted", 1)
			if r.Tenant == "" && len(p.targets(r, time.Time{})) > 10 {
				c.Count("granted in one of more than ten tenants", 1)
			}
		} else {
			c.Count("denied", 1)
		}
		assigned := 0
		for _, a := range p.Assign {
			if a.Principal == r.Principal {
				assigned++
			}
		}
		if assigned == 0 {
			continue
		}
		reached := 0
		for _, tg := range p.targets(r, time.Time{}) {
			n := len(p.reached(tg.t, r.Principal, time.Time{}))
			reached += n
			if want && n > 1 {
				q := *p // the same without the children
				q.Tenants = nil
				for _, t := range p.Tenants {
					u := *t
					u.Children = nil
					q.Tenants = append(q.Tenants, &u)
				}
				if !q.authorize(r, time.Time{}) {
					c.Count("granted through a child tenant", 1)
				}
			}
			if want && r.Scope != "" {
				for _, a := range p.Assign {
					if a.Principal == r.Principal && a.Scope == r.Scope {
						c.Count("granted with the scope's own permissions", 1)
						break
					}
				}
			}
		}
		c.Seen(shape(r), want, reached, assigned, len(p.Roles), len(p.Edges), len(p.Tenants), p.DefaultTenant != "")
	}
}

func runC02(c *C) {
	p, g := genV2(c)
	c.Logf("%s", p.describe())
	w, asked := buildAsking(c, p, g)
	for range 24 {
		r := genV2Req(c, p, g)
		if len(asked) > 0 && c.Chance(40) {
			r = pick(c, asked)
		} else if c.Chance(60) {
			r.Resource, r.Action = "", ""
		}
		roles := genRoleList(c, p, g)
		if c.Chance(30) {
			w.A.Authorize(r) // an earlier permission question must not matter
		}
		want := p.can(r, roles, time.Time{})
		lent := lend(c, roles)
		got := w.A.Can(r, lent...)
		c.Judged(2)
		if !slices.Equal(lent, roles) {
			c.Failf("Can(%s, %q) changed the list of roles it was given to %q", fmtReq(r), roles, lent)
		}
		c.Logf("Can(%s, %q) = %v", fmtReq(r), roles, got)
		if got != want {
			c.Failf("Can(%s, %q) answered %v, the policy says %v\npolicy: %s", fmtReq(r), roles, got, want, p.describe())
		}
		if got {
			c.Count("yes", 1)
			q := *p
			q.Edges = nil
			if !q.can(r, roles, time.Time{}) {
				c.Count("yes through inheritance", 1)
			}
			q = *p
			q.Tenants = nil
			for _, t := range p.Tenants {
				u := *t
				u.Children = nil
				q.Tenants = append(q.Tenants, &u)
			}
			if !q.can(r, roles, time.Time{}) {
				c.Count("yes through a child tenant", 1)
			}
		} else {
			c.Count("no", 1)
		}
		for _, a := range p.Assign {
			if a.Principal == r.Principal {
				c.Seen(shape(r), len(roles), want, len(p.Assign), len(p.Edges), len(p.Tenants), p.DefaultTenant != "")
				break
			}
		}
	}
}
