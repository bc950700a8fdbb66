package harness

import (
	"fmt"
	"sort"
	"strings"

	v1 "github.com/oarkflow/permission/v1"
)

type row1 = v1.TenantPrincipal

// vop is one change of a v1 policy.
type vop struct {
	K             string
	T, N, S, P, R string
	T2            string
	M             int // manage: 0 not given, 1 false, 2 true
	IDs           []string
}

func (o vop) String() string {
	s := o.K
	for _, f := range []struct{ n, v string }{{"T", o.T}, {"N", o.N}, {"S", o.S}, {"P", o.P}, {"R", o.R}, {"T2", o.T2}} {
		if f.v != "" {
			s += fmt.Sprintf(" %s=%q", f.n, f.v)
		}
	}
	if o.M > 0 {
		s += fmt.Sprintf(" manage=%v", o.M == 2)
	}
	if o.IDs != nil {
		s += fmt.Sprintf(" %q", o.IDs)
	}
	return s
}

type v1World struct {
	M *v1.RoleManager
	t map[string]*v1.Tenant
	n map[string]*v1.Namespace
	s map[string]*v1.Scope
	r map[string]*v1.Role
}

type v1Model struct {
	Principals, Roles map[string]bool
	Tenants           map[string]bool
	NS, Scopes        map[string]map[string]bool // by tenant
	TRoles            map[string]map[string]bool
	Rows              map[row1]bool
	Desc, RoleDesc    map[string]map[string]bool
	Perms             map[string]map[string]map[string]bool
	Default           map[string]string
	NSRoles, NSScopes map[string]map[string]bool // by namespace: the object is shared by the tenants that have it
}

type v1Gen struct {
	T, N, S, P, R, G []string
	acts             []perm
	Bulk             int    // how many more of one kind there are than usual
	Unreg            string // a tenant that exists as an object but is not registered, if not empty
	Asked            []rreq // questions asked while the policy was being built
	Hist             []vop
	step             func() // one more change, if the policy goes on changing
}

func newV1(c *C) (*v1World, *v1Model, *v1Gen) {
	n := func(lo, hi int) int {
		hi = min(hi, lo+c.Size)
		return lo + c.IntN(hi-lo+1)
	}
	g := &v1Gen{T: names(c, "t", n(1, 4)), N: names(c, "n", n(1, 3)), S: names(c, "s", n(1, 3)), P: names(c, "p", n(1, 4)), R: names(c, "r", n(1, 4)), G: names(c, "g", n(1, 2))}
	for range 3 {
		g.acts = append(g.acts, genPerm(c))
	}
	if c.IntN(250) == 0 { // one kind of thing in large numbers
		g.Bulk = 4 + c.IntN(1<<pick(c, []int{2, 4, 6, 7, 7, 8}))
		pool := pick(c, []*[]string{&g.T, &g.N, &g.S, &g.P, &g.R})
		for i := range g.Bulk {
			*pool = append(*pool, fmt.Sprintf("%s-%d", (*pool)[0], i))
		}
		c.Count("bulk policies", 1)
	}
	w := &v1World{M: v1.New(), t: map[string]*v1.Tenant{}, n: map[string]*v1.Namespace{}, s: map[string]*v1.Scope{}, r: map[string]*v1.Role{}}
	m := &v1Model{Principals: map[string]bool{}, Roles: map[string]bool{}, Tenants: map[string]bool{}, NS: map[string]map[string]bool{}, Scopes: map[string]map[string]bool{}, TRoles: map[string]map[string]bool{},
		Rows: map[row1]bool{}, Desc: map[string]map[string]bool{}, RoleDesc: map[string]map[string]bool{}, Perms: map[string]map[string]map[string]bool{}, Default: map[string]string{}, NSRoles: map[string]map[string]bool{}, NSScopes: map[string]map[string]bool{}}
	for i, id := range g.P {
		if i > 0 && i == len(g.P)-1 && c.Chance(30) {
			continue
		}
		m.Principals[id] = true
		w.M.AddPrincipal(v1.NewPrincipal(id))
	}
	for i, id := range g.R {
		w.r[id] = v1.NewRole(id)
		if i > 0 && i == len(g.R)-1 && c.Chance(20) {
			continue
		}
		m.Roles[id] = true
		w.M.AddRole(w.r[id])
	}
	for _, id := range g.N {
		w.n[id] = w.M.AddNamespace(v1.NewNamespace(id))
	}
	for _, id := range g.S {
		w.s[id] = w.M.AddScope(v1.NewScope(id))
	}
	for _, id := range g.T {
		w.t[id] = w.M.AddTenant(v1.NewTenant(id))
		m.Tenants[id] = true
	}
	if c.Chance(25) {
		g.Unreg = "unregistered"
		t := v1.NewTenant(g.Unreg)
		w.t[g.Unreg] = t
		for _, n := range g.N {
			if c.Chance(50) {
				t.AddNamespace(w.n[n])
				link(m.NS, g.Unreg, n)
			}
		}
		for _, s := range g.S {
			if c.Chance(50) {
				t.AddScopes(w.s[s])
				link(m.Scopes, g.Unreg, s)
			}
		}
		for _, r := range g.R {
			if c.Chance(50) {
				t.AddRole(w.r[r])
				link(m.TRoles, g.Unreg, r)
			}
		}
	}
	for range c.IntN(2 + 2*len(g.R)) {
		r, grp, x := pick(c, g.R), pick(c, g.G), pick(c, g.acts)
		if c.Chance(15) {
			grp = ""
		}
		_ = w.r[r].AddPermission(grp, v1.NewAttribute(x.Res, x.Act))
		if m.Perms[r] == nil {
			m.Perms[r] = map[string]map[string]bool{}
		}
		link(m.Perms[r], grp, x.String())
	}
	for range c.IntN(1 + len(g.R)) {
		a := pick(c, g.R)
		var ds []*v1.Role
		for range 1 + c.IntN(2) {
			b := pick(c, g.R)
			ds = append(ds, w.r[b])
			link(m.RoleDesc, a, b)
		}
		_ = w.r[a].AddDescendent(ds...)
	}
	if n := len(g.R); n > 6 { // a chain of roles from the first to the last, which has something of its own
		for i := range n - 1 {
			_ = w.r[g.R[i]].AddDescendent(w.r[g.R[i+1]])
			link(m.RoleDesc, g.R[i], g.R[i+1])
		}
		x, r := perm{"/needle", "GET"}, g.R[n-1]
		_ = w.r[r].AddPermission(g.G[0], v1.NewAttribute(x.Res, x.Act))
		if m.Perms[r] == nil {
			m.Perms[r] = map[string]map[string]bool{}
		}
		link(m.Perms[r], g.G[0], x.String())
		g.acts = append(g.acts, x, x, x)
	}
	return w, m, g
}

func some(c *C, xs []string) []string {
	out := []string{pick(c, xs)}
	for c.Chance(30) {
		out = append(out, pick(c, xs))
	}
	return stretch(c, out)
}

func (g *v1Gen) attach(c *C) vop {
	t := pick(c, g.T)
	switch c.IntN(5) {
	case 0:
		return vop{K: "t.ns", T: t, IDs: some(c, g.N)}
	case 1:
		return vop{K: "t.scope", T: t, IDs: some(c, g.S)}
	case 2, 3:
		return vop{K: "t.role", T: t, IDs: some(c, g.R)}
	default:
		return vop{K: "desc", T: t, IDs: some(c, g.T)}
	}
}

func (g *v1Gen) op(c *C) vop {
	t := pick(c, g.T)
	some := func(xs []string) []string { return some(c, xs) }
	switch c.IntN(13) {
	case 0, 1, 2:
		return g.attach(c)
	case 3:
		return vop{K: "t.nsscope", T: t, N: pick(c, g.N), IDs: some(g.S)}
	case 4:
		return vop{K: "t.nsrole", T: t, N: pick(c, g.N), IDs: some(g.R)}
	case 5, 6:
		return vop{K: "t.p", T: t, P: pick(c, g.P), IDs: some(g.R)}
	case 7:
		o := vop{K: "t.pns", T: t, P: pick(c, g.P), N: pick(c, g.N)}
		if c.Chance(70) {
			o.IDs = some(g.R)
		}
		return o
	case 8:
		return vop{K: "t.ps", T: t, P: pick(c, g.P), IDs: some(g.S)}
	case 9:
		return vop{K: "t.psr", T: t, P: pick(c, g.P), R: pick(c, g.R), IDs: some(g.S)}
	case 10:
		if c.Chance(30) {
			return vop{K: "t.default", T: t, N: pick(c, g.N)}
		}
		if c.Chance(50) {
			return vop{K: "n.role", N: pick(c, g.N), IDs: some(g.R)}
		}
		return vop{K: "n.scope", N: pick(c, g.N), IDs: some(g.S)}
	default:
		if g.Unreg != "" && c.Chance(25) {
			t = g.Unreg
		}
		return vop{K: "row", T: t, P: pick(c, g.P), R: orEmpty(c, g.R, 15), N: orEmpty(c, g.N, 50), S: orEmpty(c, g.S, 50), M: c.IntN(3)}
	}
}

// change is any change, of roles and registrations too.
func (g *v1Gen) change(c *C) vop {
	if c.Chance(75) {
		return g.op(c)
	}
	switch c.IntN(4) {
	case 0, 1:
		x := pick(c, g.acts)
		return vop{K: "r.perm", R: pick(c, g.R), N: pick(c, g.G), S: x.Res, T2: x.Act}
	case 2:
		return vop{K: "r.desc", R: pick(c, g.R), IDs: some(c, g.R)}
	default:
		if c.Chance(50) {
			return vop{K: "reg.p", P: pick(c, g.P)}
		}
		return vop{K: "reg.r", R: pick(c, g.R)}
	}
}

func objs[T any](m map[string]T, ids []string) (out []T) {
	for _, id := range ids {
		out = append(out, m[id])
	}
	return
}

func (w *v1World) apply(o vop) {
	t := w.t[o.T]
	switch o.K {
	case "r.perm":
		_ = w.r[o.R].AddPermission(o.N, v1.NewAttribute(o.S, o.T2))
	case "r.desc":
		_ = w.r[o.R].AddDescendent(objs(w.r, o.IDs)...)
	case "reg.p":
		w.M.AddPrincipal(v1.NewPrincipal(o.P))
	case "reg.r":
		w.M.AddRole(w.r[o.R])
	case "t.ns":
		t.AddNamespace(objs(w.n, o.IDs)...)
	case "t.scope":
		t.AddScopes(objs(w.s, o.IDs)...)
	case "t.role":
		t.AddRole(objs(w.r, o.IDs)...)
	case "desc":
		_ = t.AddDescendent(objs(w.t, o.IDs)...)
	case "n.role":
		w.n[o.N].AddRoles(objs(w.r, o.IDs)...)
	case "n.scope":
		w.n[o.N].AddScopes(objs(w.s, o.IDs)...)
	case "t.nsscope":
		t.AddScopesToNamespace(o.N, o.IDs...)
	case "t.nsrole":
		t.AddRolesToNamespace(o.N, o.IDs...)
	case "t.p":
		t.AddPrincipal(o.P, o.IDs...)
	case "t.pns":
		t.AddPrincipalInNamespace(o.P, o.N, o.IDs...)
	case "t.ps":
		t.AssignScopesToPrincipal(o.P, o.IDs...)
	case "t.psr":
		t.AssignScopesWithRole(o.P, o.R, o.IDs...)
	case "t.default":
		t.SetDefaultNamespace(o.N)
	case "row":
		var manage []bool
		if o.M > 0 {
			manage = []bool{o.M == 2}
		}
		if strings.HasPrefix(o.R, "r") && o.T != "unregistered" { // either way in
			t.AddPrincipalRole(o.P, o.R, t, w.n[o.N], w.s[o.S], manage...)
		} else {
			w.M.AddPrincipalRole(o.P, o.R, t, w.n[o.N], w.s[o.S], manage...)
		}
	default:
		panic("harness: " + o.K)
	}
}

func (m *v1Model) add(p, r, t, n, s string) {
	m.Rows[row1{TenantID: t, PrincipalID: p, RoleID: r, NamespaceID: n, ScopeID: s, CanManageDescendants: true}] = true
}

func (m *v1Model) of(t, p string) (out []row1) {
	for r := range m.Rows {
		if r.TenantID == t && r.PrincipalID == p {
			out = append(out, r)
		}
	}
	return
}

func linkAll(m map[string]map[string]bool, a string, bs []string) {
	for _, b := range bs {
		link(m, a, b)
	}
}

// allowed is the list of roles allowed to some of a principal's rows in a tenant.
func (m *v1Model) allowed(rows []row1, t, n, s string) map[string]bool {
	if !m.Tenants[t] || n != "" && !m.NS[t][n] || s != "" && !m.Scopes[t][s] {
		return nil
	}
	if len(m.NSScopes[n]) > 0 && !m.NSScopes[n][s] {
		return nil
	}
	out, wide, bound := map[string]bool{}, false, false
	for r := range m.NSRoles[n] {
		out[r] = true
	}
	for _, r := range rows {
		if r.NamespaceID == "" && r.ScopeID == "" {
			wide = true
			if len(m.NSRoles[n]) == 0 {
				out[r.RoleID] = true
			}
		}
		bound = bound || s != "" && r.ScopeID == s
		if n != "" && s != "" && r.NamespaceID == n && r.ScopeID == s {
			out[r.RoleID] = true
		}
	}
	if !wide && !bound {
		return nil
	}
	for r := range out {
		if !m.TRoles[t][r] {
			return nil
		}
	}
	return out
}

// hasWith is whether a role has an activity itself or inherits it from a role on the list, or
// from any when the list is empty.
func (m *v1Model) hasWith(r, grp, act string, allowed map[string]bool) bool {
	if m.has(r, grp, act, false) {
		return true
	}
	for d := range reach(m.RoleDesc, r) {
		if (len(allowed) == 0 || allowed[d]) && m.has(d, grp, act, false) {
			return true
		}
	}
	return false
}

func (m *v1Model) apply(o vop) {
	d, hasD := m.Default[o.T]
	switch o.K {
	case "r.perm":
		if m.Perms[o.R] == nil {
			m.Perms[o.R] = map[string]map[string]bool{}
		}
		link(m.Perms[o.R], o.N, perm{o.S, o.T2}.String())
	case "r.desc":
		linkAll(m.RoleDesc, o.R, o.IDs)
	case "reg.p":
		m.Principals[o.P] = true
	case "reg.r":
		m.Roles[o.R] = true
	case "t.ns":
		linkAll(m.NS, o.T, o.IDs)
	case "t.scope":
		linkAll(m.Scopes, o.T, o.IDs)
		if hasD {
			linkAll(m.NSScopes, d, o.IDs)
		}
	case "t.role":
		linkAll(m.TRoles, o.T, o.IDs)
	case "desc":
		linkAll(m.Desc, o.T, o.IDs)
	case "n.role":
		linkAll(m.NSRoles, o.N, o.IDs)
	case "n.scope":
		linkAll(m.NSScopes, o.N, o.IDs)
	case "t.nsscope":
		for _, s := range o.IDs {
			if !m.Scopes[o.T][s] {
				return
			}
			if m.NS[o.T][o.N] {
				link(m.NSScopes, o.N, s)
				m.add("", "", o.T, o.N, s)
			}
		}
	case "t.nsrole":
		for _, r := range o.IDs {
			if !m.TRoles[o.T][r] || !m.NS[o.T][o.N] {
				return
			}
			link(m.NSRoles, o.N, r)
		}
	case "t.p":
		for _, r := range o.IDs {
			if m.TRoles[o.T][r] {
				m.add(o.P, r, o.T, "", "")
				if hasD {
					m.add(o.P, r, o.T, d, "")
				}
			}
		}
	case "t.pns":
		if !m.NS[o.T][o.N] {
			return
		}
		for _, r := range o.IDs {
			if m.TRoles[o.T][r] {
				m.add(o.P, r, o.T, o.N, "")
			}
		}
		if len(o.IDs) == 0 {
			for _, r := range m.of(o.T, o.P) {
				if r.NamespaceID != "" && r.NamespaceID != o.N {
					m.add(o.P, r.RoleID, o.T, o.N, "")
				}
			}
			m.add(o.P, "", o.T, o.N, "")
		}
	case "t.ps":
		held := m.of(o.T, o.P)
		if len(held) == 0 {
			return
		}
		for _, s := range o.IDs {
			if !m.Scopes[o.T][s] {
				continue
			}
			for _, r := range held {
				m.add(o.P, r.RoleID, o.T, "", s)
				if hasD {
					m.add(o.P, r.RoleID, o.T, d, s)
				}
			}
			m.add(o.P, "", o.T, "", s)
		}
	case "t.psr":
		if len(m.of(o.T, o.P)) == 0 || !m.TRoles[o.T][o.R] {
			return
		}
		for _, s := range o.IDs {
			if m.Scopes[o.T][s] {
				m.add(o.P, o.R, o.T, "", s)
				if hasD {
					m.add(o.P, o.R, o.T, d, s)
				}
			}
		}
	case "t.default":
		if m.NS[o.T][o.N] {
			m.Default[o.T] = o.N
		}
	case "row":
		m.Rows[row1{TenantID: o.T, PrincipalID: o.P, RoleID: o.R, NamespaceID: o.N, ScopeID: o.S, CanManageDescendants: o.M != 1}] = true
	default:
		panic("harness: " + o.K)
	}
}

func fmtRows1(rows map[row1]bool) string {
	var out []string
	for r := range rows {
		out = append(out, fmt.Sprintf("%+q", fmt.Sprintf("%q/%q/%q/%q/%q/%v", r.TenantID, r.PrincipalID, r.RoleID, r.NamespaceID, r.ScopeID, r.CanManageDescendants)))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (m *v1Model) has(r, grp, act string, inherited bool) bool {
	b := map[string]bool{r: true}
	if inherited {
		for d := range reach(m.RoleDesc, r) {
			b[d] = true
		}
	}
	for d := range b {
		for x := range m.Perms[d][grp] {
			if dpMatch(act, x) {
				return true
			}
		}
	}
	return false
}

type textual string

func (s textual) String() string { return string(s) }

func (w *v1World) ask(q rreq) bool {
	var o []func(*v1.Option)
	n := 0
	form := func(x any) any { // as text, as bytes or as something that has a text
		s, ok := x.(string)
		n++
		switch {
		case !ok || (len(s)+len(q.P)+n)%5 != 0:
			return x
		case n%2 == 0:
			return []byte(s)
		default:
			return textual(s)
		}
	}
	if q.T != nil {
		o = append(o, v1.WithTenant(form(q.T)))
	}
	if q.N != nil {
		o = append(o, v1.WithNamespace(form(q.N)))
	}
	if q.S != nil {
		o = append(o, v1.WithScope(form(q.S)))
	}
	if q.Grp != nil {
		o = append(o, v1.WithResourceGroup(form(q.Grp)))
	}
	if q.Act != nil {
		o = append(o, v1.WithActivity(form(q.Act)))
	}
	again := arrange(q, o)
	if again { // options may be used more than once
		w.M.Authorize(q.P, o...)
	}
	return w.M.Authorize(q.P, o...)
}

// authorize returns what must be answered: must grant, and may grant; exact is the answer the
// allowed roles lead to, which lies between the two.
func (m *v1Model) authorize(q rreq) (must, may, exact bool) {
	all := func(b bool) (bool, bool, bool) { return b, b, b }
	if !m.Principals[q.P] {
		return all(false)
	}
	str := func(x any) string {
		if x == nil {
			return ""
		}
		return x.(string)
	}
	t, n, s := str(q.T), str(q.N), str(q.S)
	var mine []row1 // the principal's rows the question is about
	for r := range m.Rows {
		if r.PrincipalID == q.P && (q.T == nil || r.TenantID == t) {
			mine = append(mine, r)
		}
	}
	if len(mine) == 0 {
		return all(false)
	}
	if q.Grp == nil && q.Act == nil {
		if q.T == nil && q.N == nil && q.S == nil {
			return all(false)
		}
		for _, r := range mine {
			reg := m.Tenants[r.TenantID]
			switch {
			case q.T != nil && q.N == nil && q.S == nil:
				return all(reg)
			case q.T == nil && q.S == nil:
				if reg && m.NS[r.TenantID][n] {
					return all(true)
				}
			case q.T == nil && q.N == nil:
				if reg && r.ScopeID == s && m.Scopes[r.TenantID][s] {
					return all(true)
				}
			case (q.N == nil || r.NamespaceID == n) && (q.S == nil || r.ScopeID == s):
				if reg {
					return all(true)
				}
				may = true // an assignment in a tenant that was never registered: not judged
			}
		}
		if q.T != nil && q.N != nil && q.S != nil {
			for r := range m.Rows {
				if r.TenantID == t && r.PrincipalID == "" && r.NamespaceID == n && r.ScopeID == s {
					return all(true)
				}
			}
		}
		return false, may, false
	}
	if q.T == nil {
		if q.N != nil || q.S != nil || q.Grp != nil {
			return all(false)
		}
		// An activity alone: in the unnamed group, of roles allowed in any of the principal's tenants
		union := map[string]bool{}
		for _, r := range mine {
			for a := range m.allowed(m.of(r.TenantID, q.P), r.TenantID, "", "") {
				union[a] = true
			}
			may = may || m.Roles[r.RoleID] && m.has(r.RoleID, "", str(q.Act), true)
		}
		for a := range union {
			must = must || m.Roles[a] && m.has(a, "", str(q.Act), false)
			exact = exact || m.Roles[a] && m.hasWith(a, "", str(q.Act), union)
		}
		return
	}
	if !m.Tenants[t] || q.N != nil && !m.NS[t][n] || q.S != nil && !m.Scopes[t][s] {
		return all(false)
	}
	allowed := m.allowed(mine, t, n, s)
	for _, r := range mine {
		if q.N != nil && r.NamespaceID != "" && r.NamespaceID != n || q.S != nil && r.ScopeID != "" && r.ScopeID != s || !m.Roles[r.RoleID] {
			continue
		}
		must = must || m.has(r.RoleID, str(q.Grp), str(q.Act), false)
		may = may || m.has(r.RoleID, str(q.Grp), str(q.Act), true)
		exact = exact || m.hasWith(r.RoleID, str(q.Grp), str(q.Act), allowed)
	}
	return
}

func (g *v1Gen) req(c *C, m *v1Model) rreq {
	if len(g.Asked) > 0 && c.Chance(35) {
		return pick(c, g.Asked)
	}
	q := rreq{P: pick(c, g.P)}
	if c.Chance(2) {
		q.P = "nobody"
	}
	var near *row1
	if c.Chance(60) && len(m.Rows) > 0 {
		var rows []row1
		for r := range m.Rows {
			rows = append(rows, r)
		}
		sort.Slice(rows, func(i, j int) bool { return fmt.Sprintf("%+v", rows[i]) < fmt.Sprintf("%+v", rows[j]) })
		r := pick(c, rows)
		near = &r
		if c.Chance(75) && r.PrincipalID != "" {
			q.P = r.PrincipalID
		}
	}
	if !c.Chance(20) {
		q.T = pick(c, g.T)
		if near != nil {
			q.T = near.TenantID
		}
	}
	if c.Chance(50) {
		q.N = pick(c, g.N)
		if near != nil && near.NamespaceID != "" && c.Chance(75) {
			q.N = near.NamespaceID
		}
	}
	if c.Chance(50) {
		q.S = pick(c, g.S)
		if near != nil && near.ScopeID != "" && c.Chance(75) {
			q.S = near.ScopeID
		}
	}
	if c.Chance(2) {
		switch c.IntN(3) {
		case 0:
			q.T = "nowhere"
		case 1:
			q.N = "nowhere"
		case 2:
			q.S = "nowhere"
		}
	}
	if c.Chance(50) {
		q.Grp = pick(c, g.G)
		x := pick(c, g.acts)
		if c.Chance(60) {
			x = instance(c, x)
		}
		q.Act = x.String()
		if c.Chance(4) || q.T == nil && c.Chance(60) {
			q.Grp = nil
			if q.T == nil && c.Chance(70) {
				q.N, q.S = nil, nil
			}
		} else if c.Chance(4) {
			q.Act = nil
		}
	}
	return q
}

// bulkOps puts all there is of a policy with large numbers of something in one place.
func (g *v1Gen) bulkOps(c *C) (ops []vop) {
	if g.Bulk == 0 {
		return nil
	}
	t, p := pick(c, g.T), pick(c, g.P)
	ops = append(ops, vop{K: "t.role", T: t, IDs: g.R})
	ops = append(ops, vop{K: "t.ns", T: t, IDs: g.N})
	ops = append(ops, vop{K: "t.scope", T: t, IDs: g.S})
	ops = append(ops, vop{K: "desc", T: t, IDs: g.T})
	if c.Chance(50) {
		ops = append(ops, vop{K: "t.p", T: t, P: p, IDs: g.R})
	}
	for _, r := range g.R {
		ops = append(ops, vop{K: "row", T: t, P: p, R: r, N: orEmpty(c, g.N, 50), S: orEmpty(c, g.S, 50), M: c.IntN(3)})
	}
	for _, n := range g.N {
		ops = append(ops, vop{K: "row", T: t, P: p, R: orEmpty(c, g.R, 15), N: n, S: orEmpty(c, g.S, 50), M: c.IntN(3)})
	}
	for _, s := range g.S {
		ops = append(ops, vop{K: "row", T: t, P: p, R: orEmpty(c, g.R, 15), N: orEmpty(c, g.N, 50), S: s, M: c.IntN(3)})
	}
	for _, u := range g.T {
		ops = append(ops, vop{K: "row", T: u, P: p, R: orEmpty(c, g.R, 15), N: orEmpty(c, g.N, 50), S: orEmpty(c, g.S, 50), M: c.IntN(3)})
	}
	for _, o := range g.P {
		ops = append(ops, vop{K: "row", T: t, P: o, R: orEmpty(c, g.R, 15), N: orEmpty(c, g.N, 50), S: orEmpty(c, g.S, 50), M: c.IntN(3)})
	}
	return ops
}

func v1Case(c *C) (*v1World, *v1Model, *v1Gen) {
	w, m, g := newV1(c)
	asking := g.Bulk == 0 && c.Chance(40)
	do := func(o vop) {
		if asking && c.Chance(25) { // what was asked before a change must not linger
			q := g.req(c, m)
			w.ask(q)
			t, p := pick(c, g.T), pick(c, g.P)
			_ = w.M.GetAllowedRoles(w.M.GetPrincipalRoles(t, p), orEmpty(c, g.N, 50), orEmpty(c, g.S, 50))
			if len(g.Asked) < 8 {
				g.Asked = append(g.Asked, q)
			}
			c.Count("questions asked before a change", 1)
		}
		w.apply(o)
		m.apply(o)
		g.Hist = append(g.Hist, o)
		c.Logf("%s", o)
	}
	if asking {
		g.step = func() { do(g.change(c)) }
	}
	for range 4 * len(g.T) {
		if c.Chance(70) {
			do(g.attach(c))
		}
	}
	for range 2 + c.IntN(3+3*c.Size) + 2*g.Bulk {
		do(g.op(c))
	}
	for _, o := range g.bulkOps(c) {
		do(o)
	}
	if !asking && c.Chance(15) { // a locked role refuses changes, it is held and asked like any other
		for _, id := range g.R {
			if r := w.r[id]; r != nil && c.Chance(60) {
				r.Lock()
				c.Count("locked roles", 1)
			}
		}
	}
	return w, m, g
}

func fmtVops(ops []vop) string {
	var b strings.Builder
	for _, o := range ops {
		b.WriteString("\n  " + o.String())
	}
	return b.String()
}

func (m *v1Model) describe(ops []vop) string {
	return fmt.Sprintf("%s\nnamespaces' roles %v scopes %v\nroles %v inherit %v permissions %v principals %v", fmtVops(ops), m.NSRoles, m.NSScopes, sortedKeys(m.Roles), m.RoleDesc, m.Perms, sortedKeys(m.Principals))
}
