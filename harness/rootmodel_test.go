package harness

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	perm0 "github.com/oarkflow/permission"
)

// The root package's manager: operations on it, a shadow of what they mean, and the oracles.

type row = perm0.Data

// rop is one change of policy. Fields that a kind does not use stay empty.
type rop struct {
	K                string
	T, N, S, P, R, G string
	T2, R2           string
	M                bool
	X                []perm
	Row              row
	IDs              []string
}

func (o rop) String() string {
	s := o.K
	for _, f := range []struct{ n, v string }{{"T", o.T}, {"N", o.N}, {"S", o.S}, {"P", o.P}, {"R", o.R}, {"G", o.G}, {"T2", o.T2}, {"R2", o.R2}} {
		if f.v != "" {
			s += fmt.Sprintf(" %s=%q", f.n, f.v)
		}
	}
	if o.M {
		s += " manage"
	}
	if len(o.X) > 0 {
		s += fmt.Sprintf(" %q", o.X)
	}
	if len(o.IDs) > 0 {
		s += fmt.Sprintf(" %q", o.IDs)
	}
	if o.K == "raw" {
		s += fmtRow(o.Row)
	}
	return s
}

func fmtRow(r row) string {
	return fmt.Sprintf("{T:%#v N:%#v S:%#v P:%#v R:%#v M:%v}", r.Tenant, r.Namespace, r.Scope, r.Principal, r.Role, r.ManageDescendants)
}

// rootWorld is the real thing: one manager and the objects made for it.
type rootWorld struct {
	M *perm0.RoleManager
	t map[string]*perm0.Tenant
	r map[string]*perm0.Role
	n map[string]*perm0.Namespace
	s map[string]*perm0.Scope
}

func newRootWorld() *rootWorld {
	return &rootWorld{M: perm0.New(), t: map[string]*perm0.Tenant{}, r: map[string]*perm0.Role{}, n: map[string]*perm0.Namespace{}, s: map[string]*perm0.Scope{}}
}

func (w *rootWorld) tenant(id string) *perm0.Tenant {
	if w.t[id] == nil {
		w.t[id] = perm0.NewTenant(id)
	}
	return w.t[id]
}

func (w *rootWorld) role(id string) *perm0.Role {
	if w.r[id] == nil {
		w.r[id] = perm0.NewRole(id)
	}
	return w.r[id]
}

func (w *rootWorld) ns(id string) *perm0.Namespace {
	if w.n[id] == nil {
		w.n[id] = perm0.NewNamespace(id)
	}
	return w.n[id]
}

func (w *rootWorld) scope(id string) *perm0.Scope {
	if w.s[id] == nil {
		w.s[id] = perm0.NewScope(id)
	}
	return w.s[id]
}

func attrs(xs []perm) []*perm0.Attribute {
	var out []*perm0.Attribute
	for _, x := range xs {
		if len(x.Res)%2 == 0 {
			out = append(out, perm0.NewAttributes(x.Res, x.Act)...)
			continue
		}
		out = append(out, perm0.NewAttribute(x.Res, x.Act))
	}
	if n := len(xs); n > 1 && xs[n-1].Res == xs[n-2].Res {
		out = append(out[:n-2], perm0.NewAttributes(xs[n-1].Res, xs[n-2].Act, xs[n-1].Act)...)
	}
	return out
}

// several makes the argument list of a call that takes any number of things.
func several[T any](get func(string) T, id string, more []string) []T {
	out := []T{get(id)}
	for _, id := range more {
		out = append(out, get(id))
	}
	return out
}

func (w *rootWorld) apply(o rop) error {
	switch o.K {
	case "tenant":
		w.t[o.T] = w.M.AddTenant(w.tenant(o.T))
	case "namespace":
		w.n[o.N] = w.M.AddNamespace(w.ns(o.N))
	case "scope":
		w.s[o.S] = w.M.AddScope(w.scope(o.S))
	case "principal":
		w.M.AddPrincipal(perm0.NewPrincipal(o.P))
	case "role":
		w.r[o.R] = w.M.AddRole(w.role(o.R))
	case "perm":
		return w.role(o.R).AddPermission(o.G, attrs(o.X)...)
	case "roledesc":
		return w.role(o.R).AddDescendant(several(w.role, o.R2, o.IDs)...)
	case "desc":
		return w.tenant(o.T).AddDescendant(several(w.tenant, o.T2, o.IDs)...)
	case "t.ns":
		w.tenant(o.T).AddNamespaces(several(w.ns, o.N, o.IDs)...)
	case "t.scope":
		w.tenant(o.T).AddScopes(several(w.scope, o.S, o.IDs)...)
	case "t.role":
		w.tenant(o.T).AddRoles(several(w.role, o.R, o.IDs)...)
	case "t.nsscope":
		w.tenant(o.T).AddScopesToNamespace(o.N, o.S)
	case "t.prns":
		w.tenant(o.T).AddPrincipalInNamespace(o.P, o.N, o.R)
	case "t.pr":
		return w.tenant(o.T).AddPrincipal(o.P, o.M, o.R)
	case "t.ps":
		return w.tenant(o.T).AssignScopesToPrincipal(o.P, o.M, o.S)
	case "t.prs":
		return w.tenant(o.T).AddPrincipal(o.P, o.M, o.IDs...)
	case "t.pss":
		return w.tenant(o.T).AssignScopesToPrincipal(o.P, o.M, o.IDs...)
	case "t.default":
		w.tenant(o.T).SetDefaultNamespace(o.N)
	case "raw":
		r := o.Row
		w.M.AddData(&r)
	default:
		panic("harness: " + o.K)
	}
	return nil
}

// rootModel is what the operations mean.
type rootModel struct {
	Tenants, NS, Scopes, Principals, Roles map[string]bool
	Rows                                   map[row]bool
	Desc, RoleDesc                         map[string]map[string]bool
	Perms                                  map[string]map[string]map[string]bool // role, group, "resource action"
	Default                                map[string]string
	HasDefault                             map[string]bool
}

func newRootModel() *rootModel {
	return &rootModel{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[row]bool{},
		map[string]map[string]bool{}, map[string]map[string]bool{}, map[string]map[string]map[string]bool{}, map[string]string{}, map[string]bool{}}
}

func link(m map[string]map[string]bool, a, b string) {
	if m[a] == nil {
		m[a] = map[string]bool{}
	}
	m[a][b] = true
}

// apply says whether the operation is accepted.
func (m *rootModel) apply(o rop) bool {
	switch o.K {
	case "tenant":
		m.Tenants[o.T] = true
	case "namespace":
		m.NS[o.N] = true
	case "scope":
		m.Scopes[o.S] = true
	case "principal":
		m.Principals[o.P] = true
	case "role":
		m.Roles[o.R] = true
	case "perm":
		if m.Perms[o.R] == nil {
			m.Perms[o.R] = map[string]map[string]bool{}
		}
		if m.Perms[o.R][o.G] == nil {
			m.Perms[o.R][o.G] = map[string]bool{}
		}
		for _, x := range o.X {
			m.Perms[o.R][o.G][x.String()] = true
		}
	case "roledesc":
		link(m.RoleDesc, o.R, o.R2)
		linkAll(m.RoleDesc, o.R, o.IDs)
	case "desc":
		for _, d := range append([]string{o.T2}, o.IDs...) {
			link(m.Desc, o.T, d)
			if m.HasDefault[o.T] {
				n := m.Default[o.T]
				m.Rows[row{Tenant: d, Namespace: n}] = true
				m.Default[d], m.HasDefault[d] = n, true
			}
		}
	case "t.ns":
		for _, x := range append([]string{o.N}, o.IDs...) {
			m.Rows[row{Tenant: o.T, Namespace: x}] = true
		}
	case "t.scope":
		for _, x := range append([]string{o.S}, o.IDs...) {
			m.Rows[row{Tenant: o.T, Scope: x}] = true
		}
	case "t.role":
		for _, x := range append([]string{o.R}, o.IDs...) {
			m.Rows[row{Tenant: o.T, Role: x}] = true
		}
	case "t.nsscope":
		m.Rows[row{Tenant: o.T, Namespace: o.N, Scope: o.S}] = true
	case "t.prns":
		m.Rows[row{Tenant: o.T, Namespace: o.N, Role: o.R, Principal: o.P}] = true
	case "t.pr", "t.prs":
		ids := o.IDs
		if o.K == "t.pr" {
			ids = []string{o.R}
		}
		for _, r := range ids {
			if !m.Principals[o.P] || !m.Roles[r] {
				return false
			}
			m.Rows[row{Tenant: o.T, Principal: o.P, Role: r, ManageDescendants: o.M}] = true
			if m.HasDefault[o.T] {
				m.Rows[row{Tenant: o.T, Namespace: m.Default[o.T], Principal: o.P, Role: r, ManageDescendants: o.M}] = true
			}
		}
	case "t.ps", "t.pss":
		ids := o.IDs
		if o.K == "t.ps" {
			ids = []string{o.S}
		}
		for _, s := range ids {
			if !m.Principals[o.P] || !m.Scopes[s] {
				return false
			}
			m.Rows[row{Tenant: o.T, Principal: o.P, Scope: s, ManageDescendants: o.M}] = true
			if m.HasDefault[o.T] {
				m.Rows[row{Tenant: o.T, Namespace: m.Default[o.T], Principal: o.P, Scope: s, ManageDescendants: o.M}] = true
			}
		}
	case "t.default":
		if m.NS[o.N] {
			m.Default[o.T], m.HasDefault[o.T] = o.N, true
		}
	case "raw":
		m.Rows[o.Row] = true
	default:
		panic("harness: " + o.K)
	}
	return true
}

func (m *rootModel) select_(f func(row) bool) map[row]bool {
	out := map[row]bool{}
	for r := range m.Rows {
		if f(r) {
			out[r] = true
		}
	}
	return out
}

// reach lists everything reachable from a, without a.
func reach(edges map[string]map[string]bool, a string) map[string]bool {
	out := map[string]bool{}
	todo := []string{a}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for y := range edges[x] {
			if y != a && !out[y] {
				out[y] = true
				todo = append(todo, y)
			}
		}
	}
	return out
}

func (m *rootModel) below(t string) map[string]bool {
	if !m.Tenants[t] {
		return map[string]bool{}
	}
	return reach(m.Desc, t)
}

// direct lists the tenants p has an assignment in.
func (m *rootModel) direct(p string) map[string]bool {
	out := map[string]bool{}
	for r := range m.Rows {
		if r.Principal == p && r.Tenant != nil {
			out[r.Tenant.(string)] = true
		}
	}
	return out
}

func (m *rootModel) implicit(p string) map[string]bool {
	out := m.direct(p)
	for r := range m.Rows {
		if r.Principal == p && r.Tenant != nil && r.ManageDescendants == true {
			for d := range m.below(r.Tenant.(string)) {
				out[d] = true
			}
		}
	}
	return out
}

// managing lists the tenants above t whose descendants p manages.
func (m *rootModel) managing(p, t string) map[string]bool {
	out := map[string]bool{}
	for r := range m.Rows {
		if r.Principal == p && r.Tenant != nil && r.ManageDescendants == true && r.Tenant != t && m.below(r.Tenant.(string))[t] {
			out[r.Tenant.(string)] = true
		}
	}
	return out
}

// rreq is a question; nil fields are not given.
type rreq struct {
	P        string
	T, N, S  any
	Grp, Act any
}

func (q rreq) String() string {
	return fmt.Sprintf("principal=%q tenant=%#v namespace=%#v scope=%#v group=%#v activity=%#v", q.P, q.T, q.N, q.S, q.Grp, q.Act)
}

func (q rreq) shape() string {
	s := ""
	for _, f := range []any{q.T, q.N, q.S, q.Grp, q.Act} {
		if f == nil {
			s += "0"
		} else {
			s += "1"
		}
	}
	return s
}

// arrange puts the options of a question into an order that depends on the question only, and
// says whether to ask it twice with the same options.
func arrange[T any](q rreq, o []T) (again bool) {
	h := uint32(2166136261)
	for _, x := range []any{q.P, q.T, q.N, q.S, q.Grp, q.Act} {
		if s, ok := x.(string); ok {
			for i := range len(s) {
				h = (h ^ uint32(s[i])) * 16777619
			}
		}
		h = (h ^ 255) * 16777619
	}
	h ^= h >> 15
	if len(o) > 1 {
		k := int(h % uint32(len(o)))
		slices.Reverse(o[:k])
		slices.Reverse(o[k:])
		if h&256 != 0 {
			slices.Reverse(o)
		}
	}
	return h>>9&7 == 0
}

func (w *rootWorld) ask(q rreq) bool {
	var o []func(*perm0.Option)
	if q.T != nil {
		o = append(o, perm0.WithTenant(q.T))
	}
	if q.N != nil {
		o = append(o, perm0.WithNamespace(q.N))
	}
	if q.S != nil {
		o = append(o, perm0.WithScope(q.S))
	}
	if q.Grp != nil {
		o = append(o, perm0.WithAttributeGroup(q.Grp))
	}
	if q.Act != nil {
		o = append(o, perm0.WithActivity(q.Act))
	}
	again := arrange(q, o)
	if again { // options may be used more than once
		w.M.Authorize(q.P, o...)
	}
	return w.M.Authorize(q.P, o...)
}

func (m *rootModel) roleHas(r, grp, act string, allowed map[string]bool) bool {
	own := func(r string) bool {
		for x := range m.Perms[r][grp] {
			if specMatch(act, x) {
				return true
			}
		}
		return false
	}
	if own(r) {
		return true
	}
	for d := range reach(m.RoleDesc, r) {
		if (len(allowed) == 0 || allowed[d]) && own(d) {
			return true
		}
	}
	return false
}

func eq(field, want any) bool    { return field != nil && field == want }
func open_(field, want any) bool { return field == nil || want == nil || field == want }
func nilOr(field, want any) bool { return field == nil || field == want }
func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// authorize is the oracle for the root manager's decisions.
func (m *rootModel) authorize(q rreq) bool {
	if !m.Principals[q.P] {
		return false
	}
	if q.T != nil && !m.Tenants[q.T.(string)] || q.N != nil && !m.NS[q.N.(string)] || q.S != nil && !m.Scopes[q.S.(string)] {
		return false
	}
	if q.T == nil && (q.N == nil || q.S == nil) {
		return false
	}
	if (q.Grp == nil) != (q.Act == nil) {
		return false
	}
	bases := map[string]bool{}
	if q.T != nil {
		t := q.T.(string)
		if !m.implicit(q.P)[t] {
			return false
		}
		bases = m.managing(q.P, t)
		bases[t] = true
	} else {
		bases = m.direct(q.P)
	}
	if q.Grp == nil {
		if q.N == nil && q.S == nil {
			return true // the tenant is one of the principal's
		}
		for r := range m.Rows {
			if r.Tenant == nil || !bases[r.Tenant.(string)] || !nilOr(r.Principal, q.P) {
				continue
			}
			if q.S == nil && eq(r.Namespace, q.N) {
				return true
			}
			if q.S != nil && eq(r.Scope, q.S) && (q.N == nil || nilOr(r.Namespace, q.N)) {
				return true
			}
		}
		return false
	}
	grp, act := q.Grp.(string), q.Act.(string)
	try := func(bs map[string]bool) bool {
		roles, allowed := map[string]bool{}, map[string]bool{}
		for r := range m.Rows {
			if r.Tenant == nil || !bs[r.Tenant.(string)] || r.Role == nil {
				continue
			}
			allowed[r.Role.(string)] = true
			if r.Principal == q.P && open_(r.Namespace, q.N) && open_(r.Scope, q.S) {
				roles[r.Role.(string)] = true
			}
		}
		for r := range roles {
			if m.Roles[r] && m.roleHas(r, grp, act, allowed) {
				return true
			}
		}
		return false
	}
	if q.T == nil {
		return try(bases)
	}
	for b := range bases {
		if try(map[string]bool{b: true}) {
			return true
		}
	}
	return false
}

// rootGen holds the identifier pools of one case; the last of each kind stays unregistered
// in some cases.
type rootGen struct {
	T, N, S, P, R, G []string
	regT             []string
	acts             []perm
	noTenant         bool
	focus            []rreq // questions a large policy is about
	asked            []rreq // questions asked while the policy was being built
}

func genRoot(c *C) (*rootGen, []rop) {
	n := func(lo, hi int) int {
		hi = min(hi, lo+c.Size)
		return lo + c.IntN(hi-lo+1)
	}
	g := &rootGen{T: names(c, "t", n(1, 6)), N: names(c, "n", n(1, 3)), S: names(c, "s", n(1, 4)), P: names(c, "p", n(1, 4)), R: names(c, "r", n(1, 5)), G: names(c, "g", n(1, 2))}
	g.noTenant = c.Chance(20)
	if c.Chance(10) {
		p := []*[]string{&g.T, &g.N, &g.S, &g.P, &g.R}[c.IntN(5)]
		(*p)[0] = "" // an empty identifier is an identifier like any other
	}
	var ops []rop
	reg := func(ids []string, f func(string) rop) (out []string) {
		for i, id := range ids {
			if i == len(ids)-1 && i > 0 && c.Chance(40) {
				continue
			}
			ops = append(ops, f(id))
			out = append(out, id)
		}
		return
	}
	g.regT = reg(g.T, func(s string) rop { return rop{K: "tenant", T: s} })
	reg(g.N, func(s string) rop { return rop{K: "namespace", N: s} })
	reg(g.S, func(s string) rop { return rop{K: "scope", S: s} })
	reg(g.P, func(s string) rop { return rop{K: "principal", P: s} })
	reg(g.R, func(s string) rop { return rop{K: "role", R: s} })
	for range 3 {
		g.acts = append(g.acts, genPerm(c))
	}
	return g, ops
}

// genRootSized is genRoot, with a rare case in which one kind of thing comes in large numbers.
func genRootSized(c *C) (*rootGen, []rop) {
	g, ops := genRoot(c)
	if c.IntN(250) != 0 {
		return g, ops
	}
	n := 4 + c.IntN(1<<pick(c, []int{2, 4, 6, 7, 7}))
	last := n - 1 - c.IntN(1+c.IntN(n))
	many := func(prefix string) (out []string) {
		if prefix == "T" { // a question without a tenant takes time with the cube of them
			n = min(n, 36)
			last = min(last, n-1)
		}
		for i := range n {
			out = append(out, fmt.Sprintf("%s-%d", prefix, i))
		}
		return
	}
	c.Count("bulk policies", 1)
	ops = append(ops, rop{K: "principal", P: g.P[0]}, rop{K: "role", R: g.R[0]})
	x := perm{"/needle", "GET"}
	g.acts = append(g.acts, x, x, x)
	fan := c.Chance(40)
	before := func(i int) int {
		if fan {
			return 0
		}
		return i - 1
	}
	t := g.regT[0]
	ask := func(p string, t, n, s any) {
		g.focus = append(g.focus, rreq{P: p, T: t, N: n, S: s, Grp: g.G[0], Act: x.String()})
	}
	switch c.IntN(8) {
	case 7: // far apart: a long chain of tenants of which few are asked about
		n, last = 40+c.IntN(pick(c, []int{30, 100, 300})), 0
		ids := make([]string, n)
		for i := range ids {
			ids[i] = fmt.Sprintf("T-%d", i)
			ops = append(ops, rop{K: "tenant", T: ids[i]})
		}
		for _, i := range c.Perm(n - 1) {
			ops = append(ops, rop{K: "desc", T: ids[i], T2: ids[i+1]})
		}
		top, far := ids[c.IntN(3)], ids[n-1-c.IntN(3)]
		ops = append(ops, rop{K: "t.pr", T: top, P: g.P[0], R: g.R[0], M: c.Chance(80)}, rop{K: "perm", R: g.R[0], G: g.G[0], X: []perm{x}}, rop{K: "t.ns", T: top, N: g.N[0]}, rop{K: "t.scope", T: top, S: g.S[0]})
		ask(g.P[0], far, nil, nil)
		ask(g.P[0], far, g.N[0], g.S[0])
		g.noTenant = false
		g.T, g.regT = append(g.T, top, far, ids[n/2]), append(g.regT, top, far, ids[n/2])
		c.Count("distant tenants", 1)
	case 6: // many roles in the tenant, one of them inherited
		n += c.IntN(160)
		last = c.IntN(n)
		ids := many("R")
		for i, id := range ids {
			ops = append(ops, rop{K: "role", R: id})
			if c.Chance(50) {
				ops = append(ops, rop{K: "t.role", T: t, R: id})
			} else {
				ops = append(ops, rop{K: "t.pr", T: t, P: pick(c, g.P), R: id})
			}
			if i == last {
				ops = append(ops, rop{K: "roledesc", R: "needle", R2: id}, rop{K: "perm", R: id, G: g.G[0], X: []perm{x}})
			}
		}
		ops = append(ops, rop{K: "role", R: "needle"}, rop{K: "t.pr", T: t, P: g.P[0], R: "needle"})
		g.R = append(g.R, "needle", ids[last])
		ask(g.P[0], t, nil, nil)
	case 0: // tenants below one another, managed from the top
		ids := many("T")
		for i, id := range ids {
			ops = append(ops, rop{K: "tenant", T: id})
			if i > 0 {
				ops = append(ops, rop{K: "desc", T: ids[before(i)], T2: id})
			}
		}
		ops = append(ops, rop{K: "t.pr", T: ids[0], P: g.P[0], R: g.R[0], M: true}, rop{K: "perm", R: g.R[0], G: g.G[0], X: []perm{x}}, rop{K: "t.ns", T: ids[0], N: g.N[0]}, rop{K: "t.scope", T: ids[0], S: g.S[0]})
		ask(g.P[0], ids[last], nil, nil)
		ask(g.P[0], ids[last], g.N[0], g.S[0])
		g.T, g.regT = append(g.T, ids...), append(g.regT, ids...)
	case 1: // assigned in many tenants
		ids := many("T")
		ops = append(ops, rop{K: "role", R: "needle"}, rop{K: "perm", R: "needle", G: g.G[0], X: []perm{x}})
		g.R = append(g.R, "needle")
		for i, id := range ids {
			ops = append(ops, rop{K: "tenant", T: id}, rop{K: "t.pr", T: id, P: g.P[0], R: g.R[0]})
			if i == last {
				ops = append(ops, rop{K: "t.pr", T: id, P: g.P[0], R: "needle"}, rop{K: "t.ns", T: id, N: g.N[0]}, rop{K: "t.nsscope", T: id, N: g.N[0], S: g.S[0]})
			}
		}
		ask(g.P[0], ids[last], nil, nil)
		ask(g.P[0], nil, g.N[0], g.S[0])
		g.T, g.regT = append(g.T, ids...), append(g.regT, ids...)
	case 2: // many roles, inheriting or side by side
		ids := many("R")
		side := c.Chance(30)
		for i, id := range ids {
			ops = append(ops, rop{K: "role", R: id}, rop{K: "t.role", T: t, R: id})
			if i > 0 && !side {
				ops = append(ops, rop{K: "roledesc", R: ids[before(i)], R2: id})
			}
			if side {
				ops = append(ops, rop{K: "t.pr", T: t, P: g.P[0], R: id})
			}
		}
		ops = append(ops, rop{K: "t.pr", T: t, P: g.P[0], R: ids[0]}, rop{K: "perm", R: ids[last], G: g.G[0], X: []perm{x}})
		ask(g.P[0], t, nil, nil)
		g.R = append(g.R, ids...)
	case 3: // many others in the same tenant
		ids := many("P")
		for i, id := range ids {
			ops = append(ops, rop{K: "principal", P: id}, rop{K: "t.pr", T: t, P: id, R: pick(c, g.R), M: c.Chance(20)})
			if i == last {
				ops = append(ops, rop{K: "t.pr", T: t, P: g.P[0], R: g.R[0]}, rop{K: "perm", R: g.R[0], G: g.G[0], X: []perm{x}})
			}
		}
		ask(g.P[0], t, nil, nil)
		ask(ids[last], t, nil, nil)
		g.P = append(g.P, ids...)
	case 4: // many namespaces and scopes
		ns, ss := many("N"), many("S")
		own := pick(c, []int{5, 30, 95}) // in percent
		for i := range ns {
			ops = append(ops, rop{K: "namespace", N: ns[i]}, rop{K: "scope", S: ss[i]})
			if !c.Chance(own) {
				ops = append(ops, rop{K: "t.nsscope", T: t, N: ns[i], S: ss[i]})
			} else {
				ops = append(ops, rop{K: "t.prns", T: t, P: g.P[0], N: ns[i], R: g.R[0]}, rop{K: "t.ps", T: t, P: g.P[0], S: ss[i]})
			}
		}
		ask(g.P[0], t, ns[last], ss[last])
		ask(g.P[0], nil, ns[last], ss[last])
		g.N, g.S = append(g.N, ns...), append(g.S, ss...)
	case 5: // many permissions and long names
		long := strings.Repeat("long", n)
		ops = append(ops, rop{K: "role", R: long}, rop{K: "principal", P: long}, rop{K: "tenant", T: long}, rop{K: "t.pr", T: long, P: long, R: long})
		for i := range n {
			y := perm{fmt.Sprintf("/f/%d", i), "GET"}
			if i == last {
				y = x
			}
			ops = append(ops, rop{K: "perm", R: long, G: g.G[0], X: []perm{y}})
		}
		ask(long, long, nil, nil)
		g.T, g.regT, g.P, g.R = append(g.T, long), append(g.regT, long), append(g.P, long), append(g.R, long)
	}
	return g, ops
}

// op makes one random policy change (no registrations, no default namespaces).
func (g *rootGen) op(c *C) rop {
	t, m := pick(c, g.regT), c.Chance(35)
	more := func(xs []string) (out []string) {
		for c.Chance(20) {
			out = append(out, pick(c, xs))
		}
		return stretch(c, out)
	}
	switch c.IntN(20) {
	case 0, 1:
		return rop{K: "perm", R: pick(c, g.R), G: pick(c, g.G), X: []perm{pick(c, g.acts)}}
	case 2:
		return rop{K: "perm", R: pick(c, g.R), G: pick(c, g.G), X: []perm{genPerm(c), genPerm(c)}}
	case 3, 4:
		return rop{K: "roledesc", R: pick(c, g.R), R2: pick(c, g.R), IDs: more(g.R)}
	case 5, 6, 7:
		return rop{K: "desc", T: pick(c, g.T), T2: pick(c, g.T), IDs: more(g.T)}
	case 8:
		return rop{K: "t.ns", T: t, N: pick(c, g.N), IDs: more(g.N)}
	case 9:
		return rop{K: "t.scope", T: t, S: pick(c, g.S), IDs: more(g.S)}
	case 10:
		return rop{K: "t.role", T: t, R: pick(c, g.R), IDs: more(g.R)}
	case 11:
		return rop{K: "t.nsscope", T: t, N: pick(c, g.N), S: pick(c, g.S)}
	case 12:
		return rop{K: "t.prns", T: t, P: pick(c, g.P), N: pick(c, g.N), R: pick(c, g.R)}
	case 13, 14, 15:
		return rop{K: "t.pr", T: t, P: pick(c, g.P), R: pick(c, g.R), M: m}
	case 16:
		return rop{K: "t.ps", T: t, P: pick(c, g.P), S: pick(c, g.S), M: m}
	case 17:
		if c.Chance(50) {
			return rop{K: "t.prs", T: t, P: pick(c, g.P), IDs: upTo(c, 5, g.R), M: m}
		}
		return rop{K: "t.pss", T: t, P: pick(c, g.P), IDs: upTo(c, 5, g.S), M: m}
	default:
		return rop{K: "raw", Row: g.row(c)}
	}
}

func upTo(c *C, n int, xs []string) (out []string) {
	for range c.IntN(n) {
		out = append(out, pick(c, xs))
	}
	return stretch(c, out)
}

// row makes a raw row; any field may be missing.
func (g *rootGen) row(c *C) row {
	var r row
	if !g.noTenant || !c.Chance(10) {
		r.Tenant = pick(c, g.T)
	}
	if c.Chance(45) {
		r.Namespace = pick(c, g.N)
	}
	if c.Chance(45) {
		r.Scope = pick(c, g.S)
	}
	if c.Chance(75) {
		r.Principal = pick(c, g.P)
	}
	if c.Chance(65) {
		r.Role = pick(c, g.R)
	}
	if c.Chance(50) {
		r.ManageDescendants = c.Chance(50)
	}
	return r
}

// req makes a question; activity says whether it names an activity.
func (g *rootGen) req(c *C, m *rootModel, activity bool) rreq {
	if len(g.asked) > 0 && c.Chance(35) {
		if q := pick(c, g.asked); (q.Act != nil) == activity {
			return q
		}
	}
	if len(g.focus) > 0 && c.Chance(30) {
		q := pick(c, g.focus)
		if !activity {
			q.Grp, q.Act = nil, nil
		}
		if c.Chance(30) {
			q.N = pick(c, g.N)
		}
		if c.Chance(30) {
			q.S = pick(c, g.S)
		}
		return q
	}
	q := rreq{P: pick(c, g.P)}
	if c.Chance(2) {
		q.P = "nobody"
	}
	var near *row
	if c.Chance(50) && len(m.Rows) > 0 {
		// near an existing row
		rows := m.sortedRows()
		r := pick(c, rows)
		near = &r
		if s, ok := r.Principal.(string); ok {
			q.P = s
		}
	}
	if !c.Chance(15) {
		q.T = pick(c, g.T)
		if near != nil && near.Tenant != nil {
			if ds := sortedKeys(m.below(near.Tenant.(string))); len(ds) > 0 && c.Chance(50) {
				q.T = pick(c, ds)
			} else {
				q.T = near.Tenant
			}
		}
	}
	if c.Chance(50) || q.T == nil && c.Chance(80) {
		q.N = pick(c, g.N)
		if near != nil && near.Namespace != nil && c.Chance(70) {
			q.N = near.Namespace
		}
	}
	if c.Chance(50) || q.T == nil && c.Chance(80) {
		q.S = pick(c, g.S)
		if near != nil && near.Scope != nil && c.Chance(70) {
			q.S = near.Scope
		}
	}
	if c.Chance(2) {
		switch c.IntN(3) {
		case 0:
			q.T = "nowhere"
		case 1:
			q.N = "nowhere"
		case 2:
			q.S = "nowhere"
		}
	}
	if activity {
		q.Grp, q.Act = pick(c, g.G), genReq(c).String()
		if c.Chance(70) {
			x := pick(c, g.acts)
			if c.Chance(60) {
				x = instance(c, x)
			}
			q.Act = x.String()
		}
	}
	return q
}

func (m *rootModel) sortedRows() []row {
	var rows []row
	for r := range m.Rows {
		rows = append(rows, r)
	}
	sort.Slice(rows, func(i, j int) bool { return fmtRow(rows[i]) < fmtRow(rows[j]) })
	return rows
}

func fmtRows(m map[row]bool) string {
	var out []string
	for r := range m {
		out = append(out, fmtRow(r))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func fmtOps(ops []rop) string {
	var b strings.Builder
	for _, o := range ops {
		b.WriteString("\n  " + o.String())
	}
	return b.String()
}

// rootCase builds one random policy: the real manager and its model.
func rootCase(c *C) (*rootWorld, *rootModel, *rootGen, []rop) {
	g, ops := genRootSized(c)
	for range 2 + c.IntN(4+4*c.Size) {
		ops = append(ops, g.op(c))
	}
	w, m := newRootWorld(), newRootModel()
	asking := len(ops) < 150 && c.Chance(30)
	for i, o := range ops {
		if asking && i > len(ops)/3 && c.Chance(25) { // what was asked before a change must not linger
			q := g.req(c, m, c.Chance(50))
			_ = w.ask(q)
			if len(g.asked) < 8 {
				g.asked = append(g.asked, q)
			}
			if c.Chance(20) {
				for _, l := range g.listings(c) {
					if l.name != "AsString()" {
						_ = l.call(w)
					}
				}
			}
			c.Count("questions asked before a change", 1)
		}
		err := w.apply(o)
		ok := m.apply(o)
		c.Logf("%s -> %v", o, err)
		if ok != (err == nil) {
			c.Failf("%s returned %v", o, err)
		}
	}
	return w, m, g, ops
}
