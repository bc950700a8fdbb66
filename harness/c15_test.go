package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	perm0 "github.com/oarkflow/permission"
	v1 "github.com/oarkflow/permission/v1"
)

func init() {
	register("C15", &Prop{
		Rule:  "a case is one role graph (random, chain, layered, cyclic, complete) with permissions scattered over groups, in the root package or v1, asked about permissions with and without allowed lists and for its listings, and one tenant graph; non-trivial: distinct (generation, graph kind, roles, edges, reachable roles, answer) combinations",
		Quick: 96000, Thorough: 2400000,
		Need: []string{"has", "has not", "has through descendants only", "cut off by the allowed list", "cyclic graphs", "deep chains", "layered graphs", "tenant graphs", "role listings for permissions", "locked roles asked", "roles over many groups"},
		Run:  runC15,
	})
	register("C16", &Prop{
		Rule:  "a case is one history of permission, group, descendant, lock and unlock operations over a few roles and groups of the root package or v1; after every step the contents of every role are compared with their shadow; non-trivial: distinct (generation, operation, outcome, roles changed) combinations",
		Quick: 390000, Thorough: 6000000,
		Need: []string{"refused by a lock", "accepted", "refused by the manager", "group attached", "group shared by roles"},
		Run:  runC16,
	})
	register("C17", &Prop{
		Rule:  "a case is one sequence of registrations of every kind with repeated, hostile and numerous identifiers in the root package or v1, compared with shadow registries; non-trivial: distinct (generation, sizes of the registries) combinations",
		Quick: 48000, Thorough: 700000,
		Need: []string{"first registrations", "repeated registrations", "summaries", "large registries", "registered several at once", "contents compared"},
		Run:  runC17,
	})
}

// roleAPI hides which of the two role implementations is under test.
type roleAPI struct {
	id       string
	has      func(group, perm string, allowed ...string) bool
	addPerm  func(group string, xs ...perm) error
	addDesc  func(d ...*roleAPI) error
	addGroup func(g *groupAPI) error
	lock     func(bool)
	perms    func() map[string][]string
	group    func(g string) []string
	implicit func() map[string][]string
	desc     func() []string
	r0       *perm0.Role
	r1       *v1.Role
}

type groupAPI struct {
	id  string
	add func(xs ...perm)
	g0  *perm0.AttributeGroup
	g1  *v1.AttributeGroup
}

func v1attrs(xs []perm) []*v1.Attribute {
	var out []*v1.Attribute
	for _, x := range xs {
		if len(x.Res)%2 == 0 {
			out = append(out, v1.NewAttributes(x.Res, x.Act)...)
			continue
		}
		out = append(out, v1.NewAttribute(x.Res, x.Act))
	}
	if n := len(xs); n > 1 && xs[n-1].Res == xs[n-2].Res {
		out = append(out[:n-2], v1.NewAttributes(xs[n-1].Res, xs[n-2].Act, xs[n-1].Act)...)
	}
	return out
}

func perms0(m map[string][]perm0.Attribute) map[string][]string {
	out := map[string][]string{}
	for g, as := range m {
		for _, a := range as {
			out[g] = append(out[g], a.String())
		}
		scribble(as, perm0.Attribute{})
	}
	clear(m) // what was handed out is the caller's
	return out
}

func perms1(m map[string][]v1.Attribute) map[string][]string {
	out := map[string][]string{}
	for g, as := range m {
		for _, a := range as {
			out[g] = append(out[g], a.String())
		}
		scribble(as, v1.Attribute{})
	}
	clear(m) // what was handed out is the caller's
	return out
}

func newRole(gen int, id string) *roleAPI {
	if gen == 0 {
		return wrapRole0(perm0.NewRole(id))
	}
	return wrapRole1(v1.NewRole(id))
}

func wrapRole0(r *perm0.Role) *roleAPI {
	return &roleAPI{id: r.ID(), r0: r,
		has:     r.Has,
		addPerm: func(g string, xs ...perm) error { return r.AddPermission(g, attrs(xs)...) },
		addDesc: func(ds ...*roleAPI) error {
			var rs []*perm0.Role
			for _, d := range ds {
				rs = append(rs, d.r0)
			}
			return r.AddDescendant(rs...)
		},
		addGroup: func(g *groupAPI) error { return r.AddPermissionResourceGroup(g.g0) },
		lock: func(on bool) {
			if on {
				r.Lock()
			} else {
				r.Unlock()
			}
		},
		perms: func() map[string][]string {
			m := r.GetPermissions()
			out := perms0(m)
			for g := range m { // the caller's copy
				for i := range m[g] {
					m[g][i] = perm0.Attribute{}
				}
				delete(m, g)
			}
			return out
		},
		group: func(g string) (out []string) {
			as := r.GetResourceGroupPermissions(g)
			for _, a := range as {
				out = append(out, a.String())
			}
			scribble(as, nil)
			return
		},
		implicit: func() map[string][]string {
			given := map[string][]perm0.Attribute{"\x00given": {*perm0.NewAttribute("x", "y")}}
			out := r.GetAllImplicitPermissions(given) // into a map of the caller's
			if len(out["\x00given"]) != 1 || len(given) != len(out) {
				panic(violation{fmt.Sprintf("collecting inherited permissions into a map that had an entry gave %v and left the map %v", out, given)})
			}
			delete(out, "\x00given")
			a, b := perms0(out), perms0(r.GetAllImplicitPermissions())
			if len(a) != len(b) {
				panic(violation{fmt.Sprintf("inherited permissions: %v into a given map, %v otherwise", a, b)})
			}
			return b
		},
		desc: func() (out []string) {
			ds := r.GetDescendantRoles()
			for _, d := range ds {
				out = append(out, d.ID())
			}
			scribble(ds, nil)
			return
		}}
}

func wrapRole1(r *v1.Role) *roleAPI {
	return &roleAPI{id: r.ID(), r1: r,
		has:     r.Has,
		addPerm: func(g string, xs ...perm) error { return r.AddPermission(g, v1attrs(xs)...) },
		addDesc: func(ds ...*roleAPI) error {
			var rs []*v1.Role
			for _, d := range ds {
				rs = append(rs, d.r1)
			}
			return r.AddDescendent(rs...)
		},
		addGroup: func(g *groupAPI) error { return r.AddPermissionResourceGroup(g.g1) },
		lock: func(on bool) {
			if on {
				r.Lock()
			} else {
				r.Unlock()
			}
		},
		perms: func() map[string][]string {
			m := r.GetPermissions()
			out := perms1(m)
			for g := range m {
				for i := range m[g] {
					m[g][i] = v1.Attribute{}
				}
				delete(m, g)
			}
			return out
		},
		group: func(g string) (out []string) {
			as := r.GetResourceGroupPermissions(g)
			for _, a := range as {
				out = append(out, a.String())
			}
			scribble(as, nil)
			return
		},
		implicit: func() map[string][]string {
			given := map[string][]v1.Attribute{"\x00given": {*v1.NewAttribute("x", "y")}}
			out := r.GetAllImplicitPermissions(given) // into a map of the caller's
			if len(out["\x00given"]) != 1 || len(given) != len(out) {
				panic(violation{fmt.Sprintf("collecting inherited permissions into a map that had an entry gave %v and left the map %v", out, given)})
			}
			delete(out, "\x00given")
			a, b := perms1(out), perms1(r.GetAllImplicitPermissions())
			if len(a) != len(b) {
				panic(violation{fmt.Sprintf("inherited permissions: %v into a given map, %v otherwise", a, b)})
			}
			return b
		},
		desc: func() (out []string) {
			ds := r.GetDescendantRoles()
			for _, d := range ds {
				out = append(out, d.ID())
			}
			scribble(ds, nil)
			return
		}}
}

func newGroup(gen int, id string) *groupAPI {
	if gen == 0 {
		g := perm0.NewAttributeGroup(id)
		return &groupAPI{id: id, g0: g, add: func(xs ...perm) { g.AddAttributes(attrs(xs)...) }}
	}
	g := v1.NewAttributeGroup(id)
	return &groupAPI{id: id, g1: g, add: func(xs ...perm) { g.AddAttributes(v1attrs(xs)...) }}
}

var genName = [...]string{"root", "v1"}

func runC15(c *C) {
	gen := c.IntN(2)
	edges := map[string]map[string]bool{}
	var ids []string
	kind := "random"
	switch r := c.IntN(1000); {
	case r < 4:
		kind = "chain"
		n := 500 + c.IntN(1500)
		for i := range n {
			ids = append(ids, fmt.Sprintf("c%d", i))
			if i > 0 {
				link(edges, ids[i-1], ids[i])
			}
		}
		if c.Chance(30) {
			link(edges, ids[n-1], ids[0])
		}
		c.Count("deep chains", 1)
	case r < 12:
		kind = "layered" // exponentially many paths
		w, d := 2+c.IntN(3), 24+c.IntN(20)
		for i := range w * d {
			ids = append(ids, fmt.Sprintf("l%d", i))
		}
		for i := range w * (d - 1) {
			for j := range w {
				link(edges, ids[i], ids[(i/w+1)*w+j])
			}
		}
		c.Count("layered graphs", 1)
	default:
		n := 1 + c.IntN(2+c.Size)
		ids = names(c, "r", n)
		if c.Chance(8) {
			ids[0] = ""
		}
		m := c.IntN(2*n + 1)
		if c.Chance(10) {
			kind, m = "complete", 0
			for _, a := range ids {
				for _, b := range ids {
					link(edges, a, b)
				}
			}
		}
		dag := c.Chance(40)
		for range m {
			a, b := c.IntN(n), c.IntN(n)
			if dag && a > b {
				a, b = b, a
			}
			if dag && a == b {
				continue
			}
			link(edges, ids[a], ids[b])
		}
	}
	for _, a := range ids {
		if edges[a][a] {
			c.Count("cyclic graphs", 1)
			break
		}
		if len(ids) < 50 && func() bool {
			for b := range reach(edges, a) {
				if reach(edges, b)[a] {
					return true
				}
			}
			return false
		}() {
			c.Count("cyclic graphs", 1)
			break
		}
	}
	groups := names(c, "g", 1+c.IntN(2))
	if c.Chance(12) {
		groups = names(c, "g", 3+c.IntN(8))
		c.Count("roles over many groups", 1)
	}
	if c.Chance(12) { // an empty identifier is an identifier like any other
		groups[0] = ""
	}
	roles := map[string]*roleAPI{}
	m0, m1 := perm0.New(), v1.New()
	registered := map[string]bool{}
	for _, id := range ids {
		roles[id] = newRole(gen, id)
		if c.Chance(80) {
			registered[id] = true
			if gen == 0 {
				m0.AddRole(roles[id].r0)
			} else {
				m1.AddRole(roles[id].r1)
			}
		}
	}
	held := map[string]map[string]map[string]bool{} // role, group, permission
	give := func(id string) {
		g, x := pick(c, groups), genPerm(c)
		if held[id] == nil {
			held[id] = map[string]map[string]bool{}
		}
		if held[id][g] == nil {
			held[id][g] = map[string]bool{}
		}
		held[id][g][x.String()] = true
		if err := roles[id].addPerm(g, x); err != nil {
			c.Failf("AddPermission on an unlocked role: %v", err)
		}
		c.Logf("%s role %q has %q in group %q", genName[gen], id, x, g)
	}
	nperm := 1 + c.IntN(len(ids)+len(groups))
	if len(groups) > 2 {
		nperm += 2 * len(groups)
	}
	if len(ids) > 50 {
		nperm = 3
		give(ids[len(ids)-1])
	}
	for range nperm {
		give(pick(c, ids))
	}
	type hasQ struct{ id, g, act string }
	var asked []hasQ
	asking := len(ids) < 50 && c.Chance(30)
	ask := func() { // what was asked before a change must not linger
		q := hasQ{pick(c, ids), pick(c, groups), genReq(c).String()}
		if h := pick(c, ids); len(held[h][q.g]) > 0 {
			x := strings.SplitN(pick(c, sortedKeys(held[h][q.g])), " ", 2)
			q.act = instance(c, perm{x[0], x[1]}).String()
		}
		_ = roles[q.id].has(q.g, q.act)
		_ = roles[q.id].desc()
		_ = roles[q.id].implicit()
		asked = append(asked, q)
		c.Count("questions asked before a change", 1)
	}
	for _, a := range ids {
		for _, b := range sortedKeys(edges[a]) {
			if asking && c.Chance(40) {
				ask()
			}
			if err := roles[a].addDesc(roles[b]); err != nil {
				c.Failf("AddDescendant on an unlocked role: %v", err)
			}
			if len(ids) < 50 {
				c.Logf("%q inherits %q", a, b)
			}
		}
	}
	if asking {
		for range c.IntN(4) {
			ask()
			give(pick(c, ids))
		}
	}
	if c.Chance(25) { // a lock stops changes, not questions
		for _, id := range subset(c, ids, 40) {
			roles[id].lock(true)
			c.Count("locked roles asked", 1)
		}
	}
	own := func(id, g, act string) bool {
		for x := range held[id][g] {
			if dpMatch(act, x) {
				return true
			}
		}
		return false
	}
	nq := 16
	if len(ids) > 50 {
		nq = 6
	}
	for i := range nq {
		id := pick(c, ids)
		if len(ids) > 50 && i < 3 {
			id = ids[i]
		}
		below := reach(edges, id)
		g := pick(c, groups)
		act := genReq(c).String()
		if c.Chance(70) && len(held) > 0 {
			h := pick(c, sortedKeys(held))
			if len(held[h]) > 0 {
				g = pick(c, sortedKeys(held[h]))
				x := strings.SplitN(pick(c, sortedKeys(held[h][g])), " ", 2)
				act = instance(c, perm{x[0], x[1]}).String()
			}
		}
		if len(asked) > 0 && c.Chance(40) {
			q := pick(c, asked)
			id, g, act = q.id, q.g, q.act
			below = reach(edges, id)
		}
		var allowed []string
		if c.Chance(40) {
			allowed = subset(c, ids, 50)
			if len(ids) > 50 {
				allowed = []string{pick(c, ids), ids[len(ids)-1]}
			}
			if c.Chance(20) {
				allowed = append(allowed, "no such role")
			}
		}
		want, wantAll := own(id, g, act), own(id, g, act)
		al := setOf(allowed...)
		for d := range below {
			if own(d, g, act) {
				wantAll = true
				if len(allowed) == 0 || al[d] {
					want = true
				}
			}
		}
		got := roles[id].has(g, act, allowed...)
		c.Judged(1)
		c.Logf("%q.Has(%q, %q, %q) = %v", id, g, act, allowed, got)
		if got != want {
			c.Failf("%s role %q: Has(%q, %q, allowed %q) = %v, its own and inherited permissions say %v", genName[gen], id, g, act, allowed, got, want)
		}
		switch {
		case !want && wantAll:
			c.Count("cut off by the allowed list", 1)
			c.Count("has not", 1)
		case !want:
			c.Count("has not", 1)
		default:
			c.Count("has", 1)
			if !own(id, g, act) {
				c.Count("has through descendants only", 1)
			}
		}
		c.Seen(gen, kind, len(ids), len(edges), len(below), want, len(allowed))
	}
	// listings
	for i, id := range ids {
		if len(ids) > 50 && i > 2 {
			break
		}
		below := reach(edges, id)
		seen := map[string]bool{}
		for _, d := range roles[id].desc() {
			if seen[d] {
				c.Failf("%s role %q: descendant %q listed twice", genName[gen], id, d)
			}
			seen[d] = true
		}
		delete(seen, id) // whether a role in a cycle lists itself is not specified
		c.Judged(2)
		if !sameSet(seen, below) {
			c.Failf("%s role %q: descendants %s, the graph has %s", genName[gen], id, fmtSet(seen), fmtSet(below))
		}
		want := map[string]map[string]bool{}
		add := func(r string) {
			for g, xs := range held[r] {
				for x := range xs {
					link(want, g, x)
				}
			}
		}
		add(id)
		for d := range below {
			add(d)
		}
		if s := diffPerms(roles[id].implicit(), want); s != "" {
			c.Failf("%s role %q: implicit permissions: %s", genName[gen], id, s)
		}
	}
	if gen == 0 && len(ids) < 50 {
		c15Available(c, m0, ids, registered, edges, held)
	}
	c15Tenants(c, gen, kind, ids, edges, m0, m1)
}

func diffPerms(got map[string][]string, want map[string]map[string]bool) string {
	for g, xs := range got {
		for _, x := range xs {
			if !want[g][x] {
				return fmt.Sprintf("%q in group %q is listed but not held", x, g)
			}
		}
	}
	for g, xs := range want {
		have := setOf(got[g]...)
		for x := range xs {
			if !have[x] {
				return fmt.Sprintf("%q in group %q is held but not listed", x, g)
			}
		}
	}
	return ""
}

func c15Available(c *C, m *perm0.RoleManager, ids []string, registered map[string]bool, edges map[string]map[string]bool, held map[string]map[string]map[string]bool) {
	want := map[string]map[string]bool{} // "group\x00permission" -> roles
	for _, id := range ids {
		if !registered[id] {
			continue
		}
		b := reach(edges, id)
		b[id] = true
		for d := range b {
			for g, xs := range held[d] {
				for x := range xs {
					link(want, g+"\x00"+x, id)
				}
			}
		}
	}
	got := map[string]map[string]bool{}
	for g, rs := range m.GetRolesForAvailablePermissions() {
		for _, r := range rs {
			for _, id := range r.Roles {
				link(got, g+"\x00"+r.Attribute.String(), id)
			}
		}
	}
	c.Judged(1)
	c.Count("role listings for permissions", 1)
	for k := range want {
		if !sameSet(want[k], got[k]) {
			c.Failf("GetRolesForAvailablePermissions: %q is shown for roles %s, held by %s", k, fmtSet(got[k]), fmtSet(want[k]))
		}
	}
	if len(got) != len(want) {
		c.Failf("GetRolesForAvailablePermissions shows %d permissions, %d are held", len(got), len(want))
	}
}

// c15Tenants uses the same graph as a tenant hierarchy.
func c15Tenants(c *C, gen int, kind string, ids []string, edges map[string]map[string]bool, m0 *perm0.RoleManager, m1 *v1.RoleManager) {
	c.Count("tenant graphs", 1)
	var list func(id string) []string
	if gen == 0 {
		ts := map[string]*perm0.Tenant{}
		for _, id := range ids {
			ts[id] = m0.AddTenant(perm0.NewTenant(id))
		}
		for a, bs := range edges {
			for b := range bs {
				_ = ts[a].AddDescendant(ts[b])
			}
		}
		list = func(id string) (out []string) {
			for _, x := range ts[id].GetDescendants() {
				out = append(out, x.(string))
			}
			return
		}
	} else {
		ts := map[string]*v1.Tenant{}
		for _, id := range ids {
			ts[id] = m1.AddTenant(v1.NewTenant(id))
		}
		for a, bs := range edges {
			for b := range bs {
				_ = ts[a].AddDescendent(ts[b])
			}
		}
		list = func(id string) (out []string) {
			for _, x := range ts[id].GetDescendantTenants() {
				out = append(out, x.ID())
			}
			return
		}
	}
	for i, id := range ids {
		if len(ids) > 50 && i > 2 {
			break
		}
		seen := map[string]bool{}
		for _, d := range list(id) {
			if seen[d] {
				c.Failf("%s tenant %q: descendant %q listed twice", genName[gen], id, d)
			}
			seen[d] = true
		}
		delete(seen, id)
		c.Judged(1)
		if b := reach(edges, id); !sameSet(seen, b) {
			c.Failf("%s tenant %q: descendants %s, the graph has %s", genName[gen], id, fmtSet(seen), fmtSet(b))
		}
	}
}

func runC16(c *C) {
	gen := c.IntN(2)
	m0, m1 := perm0.New(), v1.New()
	rids, gids := names(c, "r", 2+c.IntN(3)), names(c, "g", 1+c.IntN(3))
	if c.Chance(8) {
		gids[0] = ""
	}
	if c.Chance(8) {
		rids[0] = ""
	}
	var roles []*roleAPI
	registered, regGroup := map[string]bool{}, map[string]bool{}
	for _, id := range rids {
		r := newRole(gen, id)
		roles = append(roles, r)
		if c.Chance(80) {
			registered[id] = true
			if gen == 0 {
				m0.AddRole(r.r0)
			} else {
				m1.AddRole(r.r1)
			}
		}
	}
	var groups []*groupAPI
	for _, id := range gids {
		g := newGroup(gen, id)
		groups = append(groups, g)
		if c.Chance(75) {
			regGroup[id] = true
			if gen == 0 {
				m0.AddAttributeGroup(g.g0)
			} else {
				m1.AddAttributeGroup(g.g1)
			}
		}
	}
	if c.Chance(30) { // another group of the same name
		groups = append(groups, newGroup(gen, gids[0]))
	}
	vocab := []perm{genPerm(c), genPerm(c), genPerm(c), genPerm(c), genPerm(c)}
	some := func() (xs []perm) {
		n := 1 + c.IntN(3)
		if c.Chance(6) {
			return // nothing at all: a lock refuses that too
		}
		if c.Chance(4) {
			n = 4 + c.IntN(40)
		}
		for range n {
			xs = append(xs, pick(c, vocab))
		}
		return
	}
	inGroup := make([]map[string]bool, len(groups))
	for i := range inGroup {
		inGroup[i] = map[string]bool{}
	}
	held := map[string]map[string]map[string]bool{}
	desc := map[string]map[string]bool{}
	locked := map[string]bool{}
	attached := map[string]int{}
	for _, id := range rids {
		held[id] = map[string]map[string]bool{}
	}
	grant := func(id, g string, xs []perm) {
		if held[id][g] == nil {
			held[id][g] = map[string]bool{}
		}
		for _, x := range xs {
			held[id][g][x.String()] = true
		}
	}
	steps := 5 + c.IntN(5+3*c.Size)
	for range steps {
		r := pick(c, roles)
		gi := c.IntN(len(groups))
		g := groups[gi]
		var err error
		what, wantErr, merge := "", locked[r.id], false
		switch c.IntN(9) {
		case 0, 1:
			xs := some()
			what = fmt.Sprintf("role %q AddPermission(%q, %q)", r.id, g.id, xs)
			err = r.addPerm(g.id, xs...)
			if !wantErr {
				grant(r.id, g.id, xs)
			}
		case 2:
			what = fmt.Sprintf("role %q AddPermissionResourceGroup(group %d %q holding %s)", r.id, gi, g.id, fmtSet(inGroup[gi]))
			err = r.addGroup(g)
			if !wantErr {
				if held[r.id][g.id] == nil {
					grant(r.id, g.id, nil)
					for x := range inGroup[gi] {
						held[r.id][g.id][x] = true
					}
					attached[g.id]++
					c.Count("group attached", 1)
					if attached[g.id] > 1 {
						c.Count("group shared by roles", 1)
					}
				} else {
					merge = true // a group the role already has: nothing, or the rest of it
				}
			}
		case 3:
			xs := some()
			what = fmt.Sprintf("group %d %q AddAttributes(%q)", gi, g.id, xs)
			g.add(xs...)
			for _, x := range xs {
				inGroup[gi][x.String()] = true
			}
			wantErr = false
		case 4:
			ds := []*roleAPI{pick(c, roles)}
			for c.Chance(35) {
				ds = append(ds, pick(c, roles))
			}
			what = fmt.Sprintf("role %q AddDescendant", r.id)
			for _, d := range ds {
				what += fmt.Sprintf(" %q", d.id)
			}
			ds = stretch(c, ds)
			err = r.addDesc(ds...)
			if !wantErr {
				for _, d := range ds {
					link(desc, r.id, d.id)
				}
			}
		case 5:
			what = fmt.Sprintf("role %q Lock", r.id)
			r.lock(true)
			locked[r.id], wantErr = true, false
		case 6:
			what = fmt.Sprintf("role %q Unlock", r.id)
			r.lock(false)
			locked[r.id], wantErr = false, false
		default:
			xs := some()
			if len(xs) == 0 {
				xs = append(xs, pick(c, vocab))
			}
			rid, gid := r.id, g.id
			if c.Chance(8) {
				rid = "no such role"
			}
			if c.Chance(8) {
				gid = "no such group"
			}
			what = fmt.Sprintf("manager AddPermissionsToRole(%q, %q, %q)", rid, gid, xs)
			if gen == 0 {
				err = m0.AddPermissionsToRole(rid, gid, attrs(xs)...)
			} else {
				err = m1.AddPermissionsToRole(rid, gid, v1attrs(xs)...)
			}
			wantErr = wantErr && rid == r.id
			if !registered[rid] || !regGroup[gid] {
				wantErr = true
			} else {
				// the registered group of that name is the first one
				for i, h := range groups {
					if h.id == gid {
						for _, x := range xs {
							if !inGroup[i][x.String()] {
								wantErr = true
							}
						}
						break
					}
				}
			}
			if wantErr {
				c.Count("refused by the manager", 1)
			} else {
				grant(rid, gid, xs)
			}
		}
		c.Logf("%s -> %v", what, err)
		c.Judged(1)
		if (err != nil) != wantErr {
			c.Failf("%s: %s returned %v, an error was expected: %v", genName[gen], what, err, wantErr)
		}
		if wantErr && locked[r.id] {
			c.Count("refused by a lock", 1)
		}
		if err == nil {
			c.Count("accepted", 1)
		}
		for _, o := range roles {
			c.Judged(1)
			got := o.perms()
			s := diffPerms(got, held[o.id])
			if s != "" && merge && o == r {
				merged := map[string]map[string]bool{}
				for k, xs := range held[o.id] {
					for x := range xs {
						link(merged, k, x)
					}
				}
				for x := range inGroup[gi] {
					link(merged, g.id, x)
				}
				if s = diffPerms(got, merged); s == "" {
					held[o.id] = merged
				}
			}
			if s != "" {
				c.Failf("%s: after %s, role %q: %s", genName[gen], what, o.id, s)
			}
			for _, gid := range gids {
				one := map[string][]string{gid: o.group(gid)}
				if s := diffPerms(one, map[string]map[string]bool{gid: held[o.id][gid]}); s != "" {
					c.Failf("%s: after %s, role %q, one group: %s", genName[gen], what, o.id, s)
				}
			}
			want := reach(desc, o.id)
			have := setOf(o.desc()...)
			delete(have, o.id)
			if !sameSet(want, have) {
				c.Failf("%s: after %s, role %q has descendants %s, expected %s", genName[gen], what, o.id, fmtSet(have), fmtSet(want))
			}
		}
		if x := pick(c, vocab); true {
			o, gid := pick(c, roles), pick(c, gids)
			want := false
			b := reach(desc, o.id)
			b[o.id] = true
			for d := range b {
				for y := range held[d][gid] {
					want = want || dpMatch(x.String(), y)
				}
			}
			if got := o.has(gid, x.String()); got != want {
				c.Failf("%s: after %s, role %q: Has(%q, %q) = %v, expected %v", genName[gen], what, o.id, gid, x, got, want)
			}
		}
		c.Seen(gen, strings.Fields(what)[0], strings.Fields(what)[2], wantErr, len(held[r.id]), len(locked))
	}
}

// registry is one kind of entity in one generation's manager.
type registry struct {
	name string
	add  func(id string) any        // registers a new object, returns what the manager returned
	fill func(ids ...string)        // the same for several through the plural call
	text func(x any, id string) any // what the object holds, in comparable form; nil if nothing can be seen
	get  func(id string) (any, bool)
	list func() []string
	size func() int
}

// Every new object comes with different contents, so that a later one taking the place of the
// first, or being mixed into it, can be seen.
var contents int // reset for every case

func more() int {
	contents++
	return contents
}

func tenant0(id string) *perm0.Tenant {
	t := perm0.NewTenant(id)
	for i := more(); i%4 > 0; i /= 4 {
		_ = t.AddDescendant(perm0.NewTenant(fmt.Sprint("below", i)))
	}
	return t
}

func tenant1(id string) *v1.Tenant {
	t := v1.NewTenant(id)
	for i := more(); i%4 > 0; i /= 4 {
		_ = t.AddDescendent(v1.NewTenant(fmt.Sprint("below", i)))
	}
	return t
}

func role0(id string) *perm0.Role {
	r := perm0.NewRole(id)
	for i := more(); i%4 > 0; i /= 4 {
		_ = r.AddPermission("g", perm0.NewAttribute(fmt.Sprint("/", i), "GET"))
		_ = r.AddDescendant(perm0.NewRole(fmt.Sprint("below", i)))
	}
	return r
}

func role1(id string) *v1.Role {
	r := v1.NewRole(id)
	for i := more(); i%4 > 0; i /= 4 {
		_ = r.AddPermission("g", v1.NewAttribute(fmt.Sprint("/", i), "GET"))
		_ = r.AddDescendent(v1.NewRole(fmt.Sprint("below", i)))
	}
	return r
}

func group0(id string) *perm0.AttributeGroup {
	g := perm0.NewAttributeGroup(id)
	for i := more(); i%4 > 0; i /= 4 {
		g.AddAttributes(perm0.NewAttribute(fmt.Sprint("/", i), "GET"))
	}
	return g
}

func group1(id string) *v1.AttributeGroup {
	g := v1.NewAttributeGroup(id)
	for i := more(); i%4 > 0; i /= 4 {
		g.AddAttributes(v1.NewAttribute(fmt.Sprint("/", i), "GET"))
	}
	return g
}

func tenantText0(x any, _ string) any {
	out := map[string]bool{}
	for _, d := range x.(*perm0.Tenant).GetDescendants() {
		out[d.(string)] = true
	}
	return fmtSet(out)
}

func tenantText1(x any, _ string) any {
	out := map[string]bool{}
	for _, d := range x.(*v1.Tenant).GetDescendantTenants() {
		out[d.ID()] = true
	}
	return fmtSet(out)
}

func permsText(ps map[string][]string, desc []string) any {
	out := setOf(desc...)
	for g, xs := range ps {
		for _, x := range xs {
			out[g+" "+x] = true
		}
	}
	return fmtSet(out)
}

func roleText0(x any, id string) any {
	r := wrapRole0(x.(*perm0.Role))
	return permsText(r.perms(), r.desc())
}

func roleText1(x any, id string) any {
	r := wrapRole1(x.(*v1.Role))
	return permsText(r.perms(), r.desc())
}

func groupText0(x any, _ string) any {
	r := perm0.NewRole("")
	_ = r.AddPermissionResourceGroup(x.(*perm0.AttributeGroup))
	return permsText(perms0(r.GetPermissions()), nil)
}

func groupText1(x any, _ string) any {
	r := v1.NewRole("")
	_ = r.AddPermissionResourceGroup(x.(*v1.AttributeGroup))
	return permsText(perms1(r.GetPermissions()), nil)
}

func all[T any](ids []string, f func(string) T) (out []T) {
	for _, id := range ids {
		out = append(out, f(id))
	}
	return
}

func registries0(m *perm0.RoleManager) []registry {
	return []registry{
		{"tenants", func(id string) any { return m.AddTenant(tenant0(id)) }, func(ids ...string) { m.AddTenants(all(ids, tenant0)...) }, tenantText0,
			func(id string) (any, bool) { return m.GetTenant(id) }, m.Tenants, m.TotalTenants},
		{"namespaces", func(id string) any { return m.AddNamespace(perm0.NewNamespace(id)) }, func(ids ...string) { m.AddNamespaces(all(ids, perm0.NewNamespace)...) }, nil,
			func(id string) (any, bool) { return m.GetNamespace(id) }, m.Namespaces, m.TotalNamespaces},
		{"scopes", func(id string) any { return m.AddScope(perm0.NewScope(id)) }, func(ids ...string) { m.AddScopes(all(ids, perm0.NewScope)...) }, nil,
			func(id string) (any, bool) { return m.GetScope(id) }, m.Scopes, m.TotalScopes},
		{"principals", func(id string) any { return m.AddPrincipal(perm0.NewPrincipal(id)) }, func(ids ...string) { m.AddPrincipals(all(ids, perm0.NewPrincipal)...) }, nil,
			func(id string) (any, bool) { return m.GetPrincipal(id) }, m.Principals, m.TotalPrincipals},
		{"roles", func(id string) any { return m.AddRole(role0(id)) }, func(ids ...string) { m.AddRoles(all(ids, role0)...) }, roleText0,
			func(id string) (any, bool) { return m.GetRole(id) }, m.Roles, m.TotalRoles},
		{"attributes", func(id string) any { return m.AddAttribute(attribute0(id)) }, func(ids ...string) {
			m.AddAttributes(all(ids, attribute0)...)
		}, nil,
			func(id string) (any, bool) { return m.GetAttribute(id + " " + actionOf(id)) }, func() []string { return resources(m.Attributes()) }, m.TotalAttributes},
		{"attribute_groups", func(id string) any { return m.AddAttributeGroup(group0(id)) }, func(ids ...string) { m.AddAttributeGroups(all(ids, group0)...) }, groupText0,
			func(id string) (any, bool) { return m.GetAttributeGroup(id) }, nil, m.TotalAttributeGroups},
	}
}

func registries1(m *v1.RoleManager) []registry {
	n := func(f func() uintptr) func() int { return func() int { return int(f()) } }
	return []registry{
		{"tenants", func(id string) any { return m.AddTenant(tenant1(id)) }, func(ids ...string) { m.AddTenants(all(ids, tenant1)...) }, tenantText1,
			func(id string) (any, bool) { return m.GetTenant(id) }, m.Tenants, n(m.TotalTenants)},
		{"namespaces", func(id string) any { return m.AddNamespace(v1.NewNamespace(id)) }, func(ids ...string) { m.AddNamespaces(all(ids, v1.NewNamespace)...) }, nil,
			func(id string) (any, bool) { return m.GetNamespace(id) }, m.Namespaces, n(m.TotalNamespaces)},
		{"scopes", func(id string) any { return m.AddScope(v1.NewScope(id)) }, func(ids ...string) { m.AddScopes(all(ids, v1.NewScope)...) }, nil,
			func(id string) (any, bool) { return m.GetScope(id) }, m.Scopes, n(m.TotalScopes)},
		{"principals", func(id string) any { return m.AddPrincipal(v1.NewPrincipal(id)) }, func(ids ...string) { m.AddPrincipals(all(ids, v1.NewPrincipal)...) }, nil,
			func(id string) (any, bool) { return m.GetPrincipal(id) }, m.Principals, n(m.TotalPrincipals)},
		{"roles", func(id string) any { return m.AddRole(role1(id)) }, func(ids ...string) { m.AddRoles(all(ids, role1)...) }, roleText1,
			func(id string) (any, bool) { return m.GetRole(id) }, m.Roles, n(m.TotalRoles)},
		{"attributes", func(id string) any { return m.AddAttribute(attribute1(id)) }, func(ids ...string) {
			m.AddAttributes(all(ids, attribute1)...)
		}, nil,
			func(id string) (any, bool) { return m.GetAttribute(id + " " + actionOf(id)) }, func() []string { return resources(m.Attributes()) }, n(m.TotalAttributes)},
		{"attribute_groups", func(id string) any { return m.AddAttributeGroup(group1(id)) }, func(ids ...string) { m.AddAttributeGroups(all(ids, group1)...) }, groupText1,
			func(id string) (any, bool) { return m.GetAttributeGroup(id) }, nil, n(m.TotalAttributeGroups)},
	}
}

// actionOf gives every resource one action; none has a space in it, so that the name of an
// attribute determines both.
func actionOf(id string) string {
	n := len(id)
	for _, b := range []byte(id) {
		n = n*31 + int(b)
	}
	return []string{"GET", "", "*", "GET", ":x", "get", "日本"}[uint(n)%7]
}

func attribute0(id string) *perm0.Attribute { return perm0.NewAttribute(id, actionOf(id)) }

func attribute1(id string) *v1.Attribute { return v1.NewAttribute(id, actionOf(id)) }

func resources(xs []string) (out []string) {
	for _, x := range xs {
		if i := strings.LastIndexByte(x, ' '); i >= 0 {
			x = x[:i]
		}
		out = append(out, x)
	}
	return
}

func runC17(c *C) {
	gen := c.IntN(2)
	contents = 0
	m0, m1 := perm0.New(), v1.New()
	regs := registries0(m0)
	if gen == 1 {
		regs = registries1(m1)
	}
	shadow, texts := make([]map[string]any, len(regs)), make([]map[string]any, len(regs))
	for i := range shadow {
		shadow[i], texts[i] = map[string]any{}, map[string]any{}
	}
	big := c.Chance(3)
	n := 4 + c.IntN(30*c.Size)
	if big {
		n = pick(c, []int{3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 3000, 12000})
		c.Count("large registries", 1)
	}
	var pool []string
	for range 1 + n/2 {
		switch {
		case c.Chance(40):
			pool = append(pool, pick(c, hostileIDs)+pick(c, hostileIDs))
		case c.Chance(20):
			pool = append(pool, pick(c, hostileIDs))
		default:
			pool = append(pool, fmt.Sprintf("id%d", c.IntN(n*4)))
		}
	}
	if c.Chance(20) {
		pool = append(pool, "")
	}
	if c.Chance(30) {
		pool = append(pool, confusable(c, "id", 4+c.IntN(12))...)
		c.Count("pools with confusable identifiers", 1)
	}
	check := func(i int) {
		r := regs[i]
		c.Judged(1)
		if r.size() != len(shadow[i]) {
			c.Failf("%s: %d %s in total, %d registered", genName[gen], r.size(), r.name, len(shadow[i]))
		}
		if r.list != nil {
			got := map[string]bool{}
			for _, id := range r.list() {
				if got[id] {
					c.Failf("%s: %s lists %q twice", genName[gen], r.name, id)
				}
				got[id] = true
				if _, ok := shadow[i][id]; !ok {
					c.Failf("%s: %s lists %q, never registered", genName[gen], r.name, id)
				}
			}
			if len(got) != len(shadow[i]) {
				for id := range shadow[i] {
					if !got[id] {
						c.Failf("%s: %s does not list %q", genName[gen], r.name, id)
					}
				}
			}
		}
	}
	for step := range n {
		i := c.IntN(len(regs))
		id := pick(c, pool)
		r := regs[i]
		if c.Chance(20) {
			got, ok := r.get(id)
			want, known := shadow[i][id]
			c.Judged(1)
			if ok != known || known && got != want {
				c.Failf("%s: looking up %q in %s: found=%v, registered=%v, the first object: %v", genName[gen], id, r.name, ok, known, got == want)
			}
		}
		var ret any
		ids := []string{id}
		if c.Chance(70) {
			ret = r.add(id)
		} else {
			for c.Chance(50) {
				ids = append(ids, pick(c, pool))
			}
			if len(ids) > 1 {
				c.Count("registered several at once", 1)
			}
			ids = stretch(c, ids)
			r.fill(ids...)
			ret, _ = r.get(id)
		}
		for k, id := range ids {
			c.Judged(1)
			if k > 0 {
				ret, _ = r.get(id)
			}
			if first, ok := shadow[i][id]; ok {
				c.Count("repeated registrations", 1)
				if ret != first {
					c.Failf("%s: registering %q in %s again did not give the first object", genName[gen], id, r.name)
				}
			} else {
				shadow[i][id] = ret
				c.Count("first registrations", 1)
				if named, ok := ret.(interface{ ID() string }); ok {
					c.Count("identifiers read back", 1)
					if named.ID() != id {
						c.Failf("%s: %q in %s says its identifier is %q", genName[gen], id, r.name, named.ID())
					}
				}
				if r.text != nil {
					texts[i][id] = r.text(ret, id)
				}
			}
			if got, ok := r.get(id); !ok || got != shadow[i][id] {
				c.Failf("%s: %q in %s is not what was registered first", genName[gen], id, r.name)
			}
			if r.text != nil {
				c.Count("contents compared", 1)
				if got := r.text(shadow[i][id], id); got != texts[i][id] {
					c.Failf("%s: %q in %s held %v when registered and holds %v after registering it again", genName[gen], id, r.name, texts[i][id], got)
				}
			}
		}
		if step == n-1 || !big && c.Chance(10) {
			for k := range regs {
				check(k)
			}
			c17Summary(c, gen, m0, m1, shadow)
		}
	}
	// everything registered can still be found, nothing else
	for i, r := range regs {
		for id, want := range shadow[i] {
			if got, ok := r.get(id); !ok || got != want {
				c.Failf("%s: %q in %s is no longer what was registered first", genName[gen], id, r.name)
			}
		}
		for _, id := range pool {
			_, known := shadow[i][id]
			if _, ok := r.get(id); ok != known {
				c.Failf("%s: %q in %s found=%v, registered=%v", genName[gen], id, r.name, ok, known)
			}
		}
		c.Judged(len(shadow[i]))
	}
	if gen == 0 {
		c17Unchanged0(c)
	} else {
		c17Unchanged1(c)
	}
	sizes := []int{gen}
	for i := range shadow {
		sizes = append(sizes, len(shadow[i]))
	}
	c.Seen(fmt.Sprint(sizes))
}

func c17Summary(c *C, gen int, m0 *perm0.RoleManager, m1 *v1.RoleManager, shadow []map[string]any) {
	order := []string{"tenants", "namespaces", "scopes", "principals", "roles", "attributes", "attribute_groups"}
	var asMap map[string]any
	var text string
	var value any
	if gen == 0 {
		asMap, text, value = m0.SummaryMap(), m0.String(), m0.Summary()
	} else {
		asMap, text, value = m1.SummaryMap(), m1.String(), m1.Summary()
	}
	var fromText, fromValue map[string]any
	b, _ := json.Marshal(value)
	_ = json.Unmarshal(b, &fromValue)
	if err := json.Unmarshal([]byte(text), &fromText); err != nil {
		c.Failf("%s: the summary text %q is not readable: %v", genName[gen], text, err)
	}
	c.Judged(3)
	c.Count("summaries", 1)
	for i, k := range order {
		want := fmt.Sprint(len(shadow[i]))
		if a, b, d := fmt.Sprint(asMap[k]), fmt.Sprint(fromText[k]), fmt.Sprint(fromValue[k]); a != want || b != want || d != want {
			c.Failf("%s: summary of %s: map %s, text %s, value %s; registered %s", genName[gen], k, a, b, d, want)
		}
	}
	var extra []string
	for k := range asMap {
		extra = append(extra, k)
	}
	sort.Strings(extra)
	if len(extra) != len(order) {
		c.Failf("%s: the summary map has keys %q", genName[gen], extra)
	}
}

// A second registration with different contents leaves the first one as it was.
func c17Unchanged0(c *C) {
	m := perm0.New()
	first, second := perm0.NewRole("r"), perm0.NewRole("r")
	_ = first.AddPermission("g", perm0.NewAttribute("/a", "GET"))
	_ = second.AddPermission("g", perm0.NewAttribute("/b", "GET"))
	m.AddRole(first)
	m.AddRole(second)
	if r, _ := m.GetRole("r"); !r.Has("g", "/a GET") || r.Has("g", "/b GET") {
		c.Failf("root: registering a role again changed its permissions")
	}
	g1, g2 := perm0.NewAttributeGroup("g"), perm0.NewAttributeGroup("g")
	g1.AddAttributes(perm0.NewAttribute("/a", "GET"))
	g2.AddAttributes(perm0.NewAttribute("/b", "GET"))
	m.AddAttributeGroup(g1)
	m.AddAttributeGroup(g2)
	if m.AddPermissionsToRole("r", "g", perm0.NewAttribute("/a", "GET")) != nil || m.AddPermissionsToRole("r", "g", perm0.NewAttribute("/b", "GET")) == nil {
		c.Failf("root: registering a group again changed its attributes")
	}
}

func c17Unchanged1(c *C) {
	m := v1.New()
	first, second := v1.NewRole("r"), v1.NewRole("r")
	_ = first.AddPermission("g", v1.NewAttribute("/a", "GET"))
	_ = second.AddPermission("g", v1.NewAttribute("/b", "GET"))
	m.AddRole(first)
	m.AddRole(second)
	if r, _ := m.GetRole("r"); !r.Has("g", "/a GET") || r.Has("g", "/b GET") {
		c.Failf("v1: registering a role again changed its permissions")
	}
	g1, g2 := v1.NewAttributeGroup("g"), v1.NewAttributeGroup("g")
	g1.AddAttributes(v1.NewAttribute("/a", "GET"))
	g2.AddAttributes(v1.NewAttribute("/b", "GET"))
	m.AddAttributeGroup(g1)
	m.AddAttributeGroup(g2)
	if m.AddPermissionsToRole("r", "g", v1.NewAttribute("/a", "GET")) != nil || m.AddPermissionsToRole("r", "g", v1.NewAttribute("/b", "GET")) == nil {
		c.Failf("v1: registering a group again changed its attributes")
	}
}
