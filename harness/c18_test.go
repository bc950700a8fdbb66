package harness

import (
	"fmt"
	"runtime"
	"sort"
	"sync/atomic"

	perm0 "github.com/oarkflow/permission"
	"github.com/oarkflow/permission/trie"
)

func init() {
	register("C18", &Prop{
		Rule:  "a case is one root manager worked on by several goroutines at once under the race detector: all register the same identifiers with objects of their own, then change policy, ask and list, each by its own random program; what a goroutine was told is judged against what it had itself completed by then (a lower bound) and everything ever done (an upper bound), and the final state exactly; non-trivial: distinct (goroutines, steps, rows, answers that lay between the bounds)",
		Quick: 900, Thorough: 40000, Plain: 10, CPULimit: 300,
		Need: []string{"racing registrations", "concurrent yes", "concurrent no", "answers open while racing", "concurrent listings", "final rows", "permissions refused by the lock", "permissions accepted under a toggled lock", "final answers", "trie searches", "questions at the moment of an assignment", "standing grants asked while repeated", "standing denials asked while repeated", "permissions raced with their group", "assignments raced with default namespaces"},
		Run:  runC18,
	})
}

// spin is a barrier that keeps its goroutines on their processors.
type spin struct {
	n     int64
	count atomic.Int64
}

func (s *spin) wait(round int) {
	s.count.Add(1)
	for s.count.Load() < s.n*int64(round+1) {
		runtime.Gosched()
	}
}

type c18step struct {
	op   *rop
	q    *rreq
	list int // index+1 into the listings
	kind string
	x    string
}

type c18seen struct {
	step, ops int // the step and how many changes this goroutine had completed
	yes       bool
	list      map[string]int
}

func runC18(c *C) {
	g, regs := genRoot(c)
	regs = regs[:0]
	g.regT = g.T
	add := func(ids []string, f func(string) rop) {
		for _, id := range ids {
			regs = append(regs, f(id))
		}
	}
	add(g.T, func(s string) rop { return rop{K: "tenant", T: s} })
	add(g.N, func(s string) rop { return rop{K: "namespace", N: s} })
	add(g.S, func(s string) rop { return rop{K: "scope", S: s} })
	add(g.P, func(s string) rop { return rop{K: "principal", P: s} })
	add(g.R, func(s string) rop { return rop{K: "role", R: s} })
	c.Shuffle(len(regs), func(i, j int) { regs[i], regs[j] = regs[j], regs[i] })

	// a policy that stands before anything races; identifiers may be registered late
	base := newRootWorld()
	baseModel := newRootModel()
	var standing []rop
	if c.Chance(50) {
		standing = append(standing, regs...)
		for range c.IntN(6 + 2*c.Size) {
			standing = append(standing, g.op(c))
		}
	}
	for _, o := range standing {
		_ = base.apply(o)
		baseModel.apply(o)
	}
	lockRole := base.M.AddRole(perm0.NewRole("the locked"))
	group := base.M.AddAttributeGroup(perm0.NewAttributeGroup("grp"))
	group.AddAttributes(perm0.NewAttribute("/standing", "X"))
	copied := base.M.AddRole(perm0.NewRole("the copied"))

	workers := 2 + c.IntN(7)
	progs := make([][]c18step, workers)
	models := make([]*rootModel, workers) // what each goroutine alone will have done
	lists := g.listings(c)
	safe := jsonSafe(g.T, g.N, g.S, g.P, g.R)
	lean := c.Chance(50) // no listings: nothing but the library synchronises the goroutines
	hot := []rop{}
	for range 3 {
		hot = append(hot, g.op(c))
	}
	for w := range workers {
		m := newRootModel()
		for _, o := range append(append([]rop{}, standing...), regs...) {
			m.apply(o)
		}
		for range 5 + c.IntN(6+c.Size) {
			switch k := c.IntN(100); {
			case k < 45:
				o := g.op(c)
				if c.Chance(30) {
					o = pick(c, hot) // the same change by several goroutines
				}
				m.apply(o)
				progs[w] = append(progs[w], c18step{op: &o})
				if c.Chance(40) {
					q := g.req(c, m, c.Chance(50))
					progs[w] = append(progs[w], c18step{q: &q})
				}
			case k < 70:
				q := g.req(c, m, c.Chance(60))
				progs[w] = append(progs[w], c18step{q: &q})
			case k < 80 && !lean:
				i := c.IntN(len(lists))
				if lists[i].name != "AsString()" || safe {
					progs[w] = append(progs[w], c18step{list: i + 1})
				}
			case k < 84:
				progs[w] = append(progs[w], c18step{kind: "lock"})
			case k < 88:
				progs[w] = append(progs[w], c18step{kind: "unlock"})
			case k < 94:
				progs[w] = append(progs[w], c18step{kind: "lockedperm", x: fmt.Sprintf("/l/%d/%d", w, len(progs[w]))})
			case k < 96:
				progs[w] = append(progs[w], c18step{kind: "grpattr", x: fmt.Sprintf("/a/%d/%d", w, len(progs[w]))})
			case k < 97:
				progs[w] = append(progs[w], c18step{kind: "grpcopy"})
			case k < 98:
				progs[w] = append(progs[w], c18step{kind: "read"})
			default:
				progs[w] = append(progs[w], c18step{kind: "scan"})
			}
		}
		models[w] = m
	}
	worlds := make([]*rootWorld, workers)
	seen := make([][]c18seen, workers)
	accepted, refused, added := make([][]string, workers), make([][]string, workers), make([][]string, workers)
	scans := make([]int, workers)
	principals := make([]map[string]*perm0.Principal, workers)
	groups := make([]*perm0.AttributeGroup, workers)
	for w := range workers {
		worlds[w] = newRootWorld()
		worlds[w].M = base.M
		principals[w] = map[string]*perm0.Principal{}
		for _, o := range regs { // objects of this goroutine's own
			switch o.K {
			case "tenant":
				worlds[w].tenant(o.T)
			case "namespace":
				worlds[w].ns(o.N)
			case "scope":
				worlds[w].scope(o.S)
			case "role":
				worlds[w].role(o.R)
			}
		}
	}
	barrier := &spin{n: int64(workers)}
	lockstep := c.Chance(70)
	yields := c.IntN(4)
	M := base.M
	c.Go(workers, func(w int) {
		wd := worlds[w]
		for i, o := range regs {
			if lockstep {
				barrier.wait(i)
			}
			if o.K == "principal" {
				principals[w][o.P] = M.AddPrincipal(perm0.NewPrincipal(o.P))
				continue
			}
			_ = wd.apply(o)
		}
		if lockstep {
			barrier.wait(len(regs))
		}
		groups[w] = M.AddAttributeGroup(perm0.NewAttributeGroup("raced"))
		groups[w].AddAttributes(perm0.NewAttribute("/g", string(rune('a'+w))))
		ops := 0
		for i, s := range progs[w] {
			if yields > 0 && (i+w)%(yields+1) == 0 {
				runtime.Gosched()
			}
			switch {
			case s.op != nil:
				_ = wd.apply(*s.op)
				ops++
			case s.q != nil:
				seen[w] = append(seen[w], c18seen{step: i, ops: ops, yes: wd.ask(*s.q)})
			case s.list > 0:
				seen[w] = append(seen[w], c18seen{step: i, ops: ops, list: lists[s.list-1].call(wd)})
			case s.kind == "lock":
				lockRole.Lock()
			case s.kind == "unlock":
				lockRole.Unlock()
			case s.kind == "lockedperm":
				if lockRole.AddPermission("g", perm0.NewAttribute(s.x, "X")) == nil {
					accepted[w] = append(accepted[w], s.x)
				} else {
					refused[w] = append(refused[w], s.x)
				}
			case s.kind == "grpattr":
				group.AddAttributes(perm0.NewAttribute(s.x, "X"))
				if err := M.AddPermissionsToRole("the copied", "grp", perm0.NewAttribute(s.x, "X")); err != nil {
					c.Failf("a permission of the group was refused: %v", err)
				}
				if !copied.Has("grp", s.x+" X") {
					c.Failf("a permission just given to a role is not there")
				}
				added[w] = append(added[w], s.x)
			case s.kind == "grpcopy":
				_ = copied.AddPermissionResourceGroup(perm0.NewAttributeGroup("other"))
				r := perm0.NewRole("own")
				_ = r.AddPermissionResourceGroup(group)
				if !r.Has("grp", "/standing X") {
					c.Failf("a copy of a group that is being extended lacks what it always had")
				}
			case s.kind == "read":
				for _, r := range wd.r {
					r.GetAllImplicitPermissions()
					r.GetDescendantRoles()
				}
				M.GetRolesForAvailablePermissions()
				M.TotalRoles()
				M.Roles()
				M.Tenants()
				M.GetScopesWithRolesForPrincipal(g.P[0], g.T[0], g.N[0])
			case s.kind == "scan":
				last := 0
				for range 3 {
					n := len(M.Data().SearchFunc(&row{}, func(_, r *row) bool { runtime.Gosched(); return r != nil }))
					if n < last {
						c.Failf("a search found %d rows and an earlier one %d, though none is ever removed", n, last)
					}
					last = n
					scans[w]++
				}
			}
		}
	})

	// every racing registration got the object everybody else got
	for _, o := range regs {
		for w := range workers {
			same, what := true, ""
			switch o.K {
			case "tenant":
				got, ok := M.GetTenant(o.T)
				same, what = ok && got == worlds[w].t[o.T] && got == worlds[0].t[o.T], o.T
			case "namespace":
				got, ok := M.GetNamespace(o.N)
				same, what = ok && got == worlds[w].n[o.N], o.N
			case "scope":
				got, ok := M.GetScope(o.S)
				same, what = ok && got == worlds[w].s[o.S], o.S
			case "role":
				got, ok := M.GetRole(o.R)
				same, what = ok && got == worlds[w].r[o.R], o.R
			case "principal":
				got, ok := M.GetPrincipal(o.P)
				same, what = ok && got == principals[w][o.P], o.P
			}
			c.Judged(1)
			c.Count("racing registrations", 1)
			c.Check(same, "%d goroutines registered the %s %q at once and were given different objects, or one that is not registered", workers, o.K, what)
		}
	}
	raced, ok := M.GetAttributeGroup("raced")
	for w := range workers {
		c.Check(ok && raced == groups[w], "goroutines that registered an attribute group at once were given different objects")
		c.Check(M.AddPermissionsToRole("the copied", "raced", perm0.NewAttribute("/g", string(rune('a'+w)))) == nil, "an attribute added to a group registered by several goroutines at once is lost")
	}

	// everything ever done
	final := newRootModel()
	for _, o := range append(append([]rop{}, standing...), regs...) {
		final.apply(o)
	}
	for _, p := range progs {
		for _, s := range p {
			if s.op != nil {
				final.apply(*s.op)
			}
		}
	}
	open := 0
	var log []string
	for w := range workers {
		mine := newRootModel()
		for _, o := range append(append([]rop{}, standing...), regs...) {
			mine.apply(o)
		}
		at, done := 0, 0
		for _, s := range seen[w] {
			for done < s.ops {
				if progs[w][at].op != nil {
					mine.apply(*progs[w][at].op)
					done++
				}
				at++
			}
			c.Judged(1)
			if s.list != nil {
				l := lists[progs[w][s.step].list-1]
				lo, hi := l.want(mine), l.want(final)
				for k := range lo {
					c.Check(s.list[k] > 0, "%s, asked while others changed the policy, lacks %s which was there before", l.name, k)
				}
				for k := range s.list {
					c.Check(hi[k], "%s, asked while others changed the policy, lists %s which was never there", l.name, k)
				}
				c.Count("concurrent listings", 1)
				if len(hi) > len(lo) {
					open++
				}
				continue
			}
			q := *progs[w][s.step].q
			lo, hi := mine.authorize(q), final.authorize(q)
			if lo && !s.yes {
				c.Failf("Authorize(%s) was denied while others changed the policy, its grounds were complete before\n%s", q, c18dump(standing, regs, progs, w, s.step))
			}
			if s.yes && !hi {
				c.Failf("Authorize(%s) was granted while others changed the policy, it never had grounds\n%s", q, c18dump(standing, regs, progs, w, s.step))
			}
			if lo != hi {
				open++
				c.Count("answers open while racing", 1)
			}
			if s.yes {
				c.Count("concurrent yes", 1)
			} else {
				c.Count("concurrent no", 1)
			}
			log = append(log, fmt.Sprintf("goroutine %d: Authorize(%s) = %v (before it %v, ever %v)", w, q, s.yes, lo, hi))
		}
		c.Count("trie searches", scans[w])
		c.Count("permissions refused by the lock", len(refused[w]))
		c.Count("permissions accepted under a toggled lock", len(accepted[w]))
		has := map[string]bool{}
		for _, a := range lockRole.GetResourceGroupPermissions("g") {
			has[a.String()] = true
		}
		for _, x := range accepted[w] {
			c.Judged(1)
			c.Check(has[x+" X"] && lockRole.Has("g", x+" X"), "permission %s was accepted while others added theirs and is lost", x)
		}
		for _, x := range refused[w] {
			c.Judged(1)
			c.Check(!has[x+" X"], "permission %s was refused because of the lock and is there", x)
		}
		for _, x := range added[w] {
			c.Judged(1)
			c.Check(copied.Has("grp", x+" X"), "permission %s was added while others added theirs and is lost", x)
		}
	}
	sort.Strings(log)
	for _, l := range log {
		c.Logf("%s", l)
	}
	// the final state, exactly
	for _, l := range lists {
		if l.name == "AsString()" && !safe || l.name != "Data().Data()" && !c.Chance(12) {
			continue
		}
		got, want := l.call(worlds[0]), l.want(final)
		bad := len(got) != len(want)
		for k, n := range got {
			bad = bad || !want[k] || n > 1
		}
		c.Judged(1)
		c.Check(!bad, "after all goroutines finished, %s lists %s instead of %s", l.name, fmtBag(got), fmtSet(want))
	}
	c.Count("final rows", len(final.Rows))
	for range 4 {
		q := g.req(c, final, c.Chance(60))
		c.Judged(1)
		c.Count("final answers", 1)
		if got := base.ask(q); got != final.authorize(q) {
			c.Failf("after all goroutines finished, Authorize(%s) = %v\n%s", q, got, c18dump(standing, regs, progs, -1, 0))
		}
	}
	for r, grps := range final.Perms {
		role, _ := M.GetRole(r)
		for grp, xs := range grps {
			for x := range xs {
				c.Judged(1)
				c.Check(role.Has(grp, x), "permission %q of role %q in group %q, given while others changed the role, is lost", x, r, grp)
			}
			c.Check(len(role.GetResourceGroupPermissions(grp)) == len(xs), "role %q has %d permissions in group %q instead of %d", r, len(role.GetResourceGroupPermissions(grp)), grp, len(xs))
		}
	}
	if open > 0 {
		c.Seen(workers, len(final.Rows), open, lean, lockstep)
	}
	c18trie(c)
	c18moment(c)
	if c.Index/3%8 == 0 {
		c18again(c)
	}
	c18group(c)
	if c.Chance(40) {
		c18default(c)
	}
}

// c18default places tenants below one with a default namespace, and registers one tenant object
// from several goroutines, while roles and scopes are assigned in them.
func c18default(c *C) {
	for range 4 {
		M := perm0.New()
		names := []string{"n0", "n1"}
		for _, n := range names {
			M.AddNamespace(perm0.NewNamespace(n))
		}
		workers := 2 + c.IntN(4)
		for w := range workers {
			M.AddPrincipal(perm0.NewPrincipal(fmt.Sprint("p", w)))
		}
		M.AddRole(perm0.NewRole("r"))
		M.AddScope(perm0.NewScope("s"))
		parent, low, child := M.AddTenant(perm0.NewTenant("parent")), M.AddTenant(perm0.NewTenant("low")), perm0.NewTenant("child")
		parent.AddNamespace(perm0.NewNamespace("n0"))
		given := c.Chance(70)
		if given {
			parent.SetDefaultNamespace("n0")
		}
		later := c.Chance(30) // another default is chosen meanwhile
		two := c.Chance(30)   // a level further down
		steps := make([][]int, workers)
		for w := range steps {
			steps[w] = []int{c.IntN(5), c.IntN(5), c.IntN(5), c.IntN(5)}
		}
		stood := make([][]bool, workers) // whether a default stood in the child before the assignment, by this goroutine's own work
		barrier := &spin{n: int64(workers)}
		c.Go(workers, func(w int) {
			barrier.wait(0)
			if M.AddTenant(child) != child {
				c.Failf("goroutines registering one tenant were given different ones")
			}
			p := fmt.Sprint("p", w)
			own := false
			for _, k := range steps[w] {
				switch k {
				case 0, 1:
					if two {
						_ = parent.AddDescendant(low)
						_ = low.AddDescendant(child)
					} else {
						_ = parent.AddDescendant(child)
					}
					own = own || given
				case 2:
					if later {
						child.SetDefaultNamespace("n1")
						own = true
					}
				case 3:
					if err := child.AddPrincipalWithRole(p, "r", false); err != nil {
						c.Failf("AddPrincipalWithRole: %v", err)
					}
					stood[w] = append(stood[w], own)
				default:
					if err := child.AddScopeToPrincipal(p, "s", false); err != nil {
						c.Failf("AddScopeToPrincipal: %v", err)
					}
				}
				M.Authorize(p, perm0.WithTenant("child"), perm0.WithNamespace("n0"))
			}
		})
		seen := map[row]bool{}
		for _, r := range M.Data().Data() {
			seen[*r] = true
		}
		for w := range workers {
			p := fmt.Sprint("p", w)
			for i, need := range stood[w] {
				c.Judged(1)
				c.Count("assignments raced with default namespaces", 1)
				base := row{Tenant: "child", Principal: p, Role: "r", ManageDescendants: false}
				c.Check(seen[base], "an assignment made while defaults were passed on is lost")
				in := 0
				for _, n := range names {
					b := base
					b.Namespace = n
					in += b2i(seen[b])
				}
				c.Check(!need || in > 0, "assignment %d of %s, made after the same goroutine chose a default namespace, is in none", i, p)
			}
		}
		for r := range seen {
			c.Check(r.Namespace == nil || r.Namespace == "n0" || r.Namespace == "n1" && later, "row %s appeared from nowhere", fmtRow(r))
		}
	}
}

// c18again does what has been done before over and over again, from several goroutines, while
// others ask: an answer that stood before must stand throughout.
func c18again(c *C) {
	M := perm0.New()
	var ops []rop
	for _, id := range []string{"t", "u", "v"} {
		ops = append(ops, rop{K: "tenant", T: id})
	}
	for _, id := range []string{"p", "q"} {
		ops = append(ops, rop{K: "principal", P: id})
	}
	for _, id := range []string{"top", "mid", "low"} {
		ops = append(ops, rop{K: "role", R: id})
	}
	ops = append(ops, rop{K: "namespace", N: "n"}, rop{K: "scope", S: "s"})
	regs := len(ops)
	manage := c.Chance(50)
	ops = append(ops,
		rop{K: "roledesc", R: "top", R2: "mid"}, rop{K: "roledesc", R: "mid", R2: "low"},
		rop{K: "perm", R: "top", G: "g", X: []perm{{"/top", "X"}}}, rop{K: "perm", R: "low", G: "g", X: []perm{{"/low/:x", "X"}}},
		rop{K: "t.role", T: "t", R: "mid"}, rop{K: "t.role", T: "t", R: "low"}, rop{K: "desc", T: "t", T2: "u"}, rop{K: "desc", T: "u", T2: "v"},
		rop{K: "t.ns", T: "t", N: "n"}, rop{K: "t.scope", T: "t", S: "s"}, rop{K: "t.nsscope", T: "t", N: "n", S: "s"},
		rop{K: "t.pr", T: "t", P: "p", R: "top", M: manage}, rop{K: "t.ps", T: "t", P: "q", S: "s"}, rop{K: "t.pr", T: "u", P: "q", R: "low"},
	)
	m := newRootModel()
	first := newRootWorld()
	first.M = M
	for _, o := range ops {
		_ = first.apply(o)
		m.apply(o)
	}
	grp := perm0.NewAttributeGroup("g")
	grp.AddAttributes(perm0.NewAttribute("/low/:x", "X"))
	var qs []rreq
	var want []bool
	for _, pr := range []string{"p", "q"} {
		for _, t := range []any{"t", "u", "v", nil} {
			for _, n := range []any{nil, "n"} {
				for _, s := range []any{nil, "s"} {
					for _, a := range []any{nil, "/top X", "/low/1 X"} {
						q := rreq{P: pr, T: t, N: n, S: s}
						if a != nil {
							q.Grp, q.Act = "g", a
						}
						qs, want = append(qs, q), append(want, m.authorize(q))
					}
				}
			}
		}
	}
	workers := 4
	worlds := make([]*rootWorld, workers)
	orders := make([][]int, workers)
	for w := range workers {
		worlds[w] = newRootWorld()
		worlds[w].M = M
		for range 40 {
			orders[w] = append(orders[w], c.IntN(1<<20))
		}
	}
	barrier := &spin{n: int64(workers)}
	yes, no := make([]int, workers), make([]int, workers)
	c.Go(workers, func(w int) {
		if w%2 == 0 {
			for _, o := range ops[:regs] {
				_ = worlds[w].apply(o) // with objects of its own
			}
		}
		barrier.wait(0)
		for _, k := range orders[w] {
			if w%2 == 0 {
				o := ops[k%len(ops)]
				_ = worlds[w].apply(o)
				if o.K == "perm" {
					_ = worlds[w].role(o.R).AddPermissionResourceGroup(grp)
					grp.AddAttributes(perm0.NewAttribute("/low/:x", "X"))
				}
				continue
			}
			for j := range 3 {
				i := (k + j*7) % len(qs)
				got := worlds[w].ask(qs[i])
				if got != want[i] {
					c.Failf("Authorize(%s) = %v while what had been done before was done again; before, it was %v", qs[i], got, want[i])
				}
				if got {
					yes[w]++
				} else {
					no[w]++
				}
			}
		}
	})
	for w := range workers {
		c.Judged(yes[w] + no[w])
		c.Count("standing grants asked while repeated", yes[w])
		c.Count("standing denials asked while repeated", no[w])
	}
	got, rows := M.Data().Data(), 0
	for range m.Rows {
		rows++
	}
	c.Check(len(got) == rows, "doing what had been done again left %d rows instead of %d", len(got), rows)
}

// c18group races giving a role its first permission in a group with giving it the group.
func c18group(c *C) {
	for range 6 {
		n := 2 + c.IntN(3)
		r := perm0.NewRole("r")
		grp := perm0.NewAttributeGroup("g")
		grp.AddAttributes(perm0.NewAttribute("/grp", "X"), perm0.NewAttribute("/grp2", "X"))
		barrier := &spin{n: int64(n)}
		swap := c.IntN(n)
		c.Go(n, func(w int) {
			barrier.wait(0)
			if w == swap {
				if r.AddPermissionResourceGroup(grp) != nil {
					c.Failf("a group given to an unlocked role was refused")
				}
				return
			}
			if r.AddPermission("g", perm0.NewAttribute(fmt.Sprint("/", w), "X")) != nil {
				c.Failf("a permission given to an unlocked role was refused")
			}
			if !r.Has("g", fmt.Sprintf("/%d X", w)) {
				c.Failf("a permission just given to a role is not there")
			}
		})
		for w := range n {
			if w == swap {
				continue
			}
			c.Judged(1)
			c.Count("permissions raced with their group", 1)
			c.Check(r.Has("g", fmt.Sprintf("/%d X", w)), "a permission given to a role while it was given the whole group is lost")
		}
		c.Check(r.Has("g", "/grp X") == r.Has("g", "/grp2 X"), "half of a group was given to a role")
	}
}

// c18moment asks at the very moment a role is assigned that inherits from a role which is
// nowhere in the tenant: whatever the order of searches, nobody may be let in through it.
func c18moment(c *C) {
	M := perm0.New()
	t, u := M.AddTenant(perm0.NewTenant("t")), M.AddTenant(perm0.NewTenant("u"))
	ns, sc := M.AddNamespace(perm0.NewNamespace("n")), M.AddScope(perm0.NewScope("s"))
	t.AddNamespace(ns)
	t.AddScope(sc)
	M.AddPrincipals(perm0.NewPrincipal("p"), perm0.NewPrincipal("q"))
	top, own, foreign := perm0.NewRole("top"), perm0.NewRole("own"), perm0.NewRole("foreign")
	M.AddRoles(top, own, foreign)
	_ = own.AddPermission("g", perm0.NewAttribute("/own", "X"))
	_ = foreign.AddPermission("g", perm0.NewAttribute("/foreign", "X"))
	_ = top.AddDescendant(own, foreign)
	_ = t.AddDescendant(u)
	_ = t.AddScopeToPrincipal("p", "s", true)
	_ = u.AddScopeToPrincipal("p", "s", false)
	shape := c.IntN(6)
	opts := [][]func(*perm0.Option){
		{perm0.WithTenant("t")}, {perm0.WithTenant("t"), perm0.WithNamespace("n")}, {perm0.WithTenant("t"), perm0.WithScope("s")},
		{perm0.WithTenant("t"), perm0.WithNamespace("n"), perm0.WithScope("s")}, {perm0.WithNamespace("n"), perm0.WithScope("s")}, {perm0.WithTenant("u"), perm0.WithNamespace("n")},
	}[shape]
	how := c.IntN(3)
	stop := atomic.Bool{}
	asked := make([]int, 4)
	late := make([]bool, 4)
	c.Go(4, func(w int) {
		if w == 0 {
			for range c.Index % 7 {
				runtime.Gosched()
			}
			switch how {
			case 0:
				_ = t.AddPrincipalWithRole("p", "top", true)
			case 1:
				t.AddPrincipalInNamespace("p", "n", "top")
			default:
				_ = t.AddPrincipal("p", true, "top")
			}
			stop.Store(true)
			return
		}
		q := func(x string) bool {
			return M.Authorize("p", append(append([]func(*perm0.Option){}, opts...), perm0.WithAttributeGroup("g"), perm0.WithActivity(x+" X"))...)
		}
		for done := false; !done; {
			done = stop.Load()
			if q("/foreign") || q("/own") {
				late[w] = true
			}
			asked[w]++
		}
	})
	for w, l := range late {
		c.Judged(2 * asked[w])
		c.Count("questions at the moment of an assignment", 2*asked[w])
		c.Check(!l, "while a role was being assigned (way %d, question %d) the principal was let in through an inherited role that is not in the tenant", how, shape)
	}
}

func c18dump(standing, regs []rop, progs [][]c18step, w, step int) string {
	s := "standing:" + fmtOps(standing) + "\nregistered by all:" + fmtOps(regs)
	for i, p := range progs {
		s += fmt.Sprintf("\ngoroutine %d:", i)
		for j, st := range p {
			mark := " "
			if i == w && j == step {
				mark = ">"
			}
			if st.op != nil {
				s += "\n " + mark + st.op.String()
			} else if st.q != nil {
				s += "\n " + mark + "ask " + st.q.String()
			}
		}
	}
	return s
}

// c18trie races inserts and searches on a bare trie.
func c18trie(c *C) {
	type cell struct{ a, b, id int }
	t := trie.New(func(f, r *cell) bool { return f.a == r.a }, func(d *cell) []any {
		var b any
		if d.b > 0 {
			b = d.b
		}
		return []any{d.a, b}
	})
	workers, width := 2+c.IntN(6), 1+c.IntN(4)
	ins := make([][]*cell, workers)
	for w := range ins {
		for i := range 3 + c.IntN(10) {
			ins[w] = append(ins[w], &cell{c.IntN(width), c.IntN(4), w*100 + i})
		}
	}
	c.Go(workers, func(w int) {
		for _, d := range ins[w] {
			t.Insert(d)
			found := false
			for _, r := range t.Search(&cell{a: d.a}) {
				if r.a != d.a {
					c.Failf("a search for %d found a row of %d", d.a, r.a)
				}
				found = found || r.b == d.b
			}
			if !found {
				c.Failf("row (%d, %d) was inserted and the inserting goroutine's next search did not find it", d.a, d.b)
			}
			if r := t.First(&cell{a: d.a}); r == nil || r.a != d.a {
				c.Failf("the first row of %d is %v", d.a, r)
			}
		}
	})
	want := map[[2]int]map[int]bool{}
	for _, xs := range ins {
		for _, d := range xs {
			k := [2]int{d.a, d.b}
			if want[k] == nil {
				want[k] = map[int]bool{}
			}
			want[k][d.id] = true
		}
	}
	got := t.Data()
	c.Judged(len(got))
	c.Count("trie searches", len(got))
	for _, r := range got {
		k := [2]int{r.a, r.b}
		c.Check(want[k][r.id], "the trie holds row %v twice, or it was never inserted", *r)
		delete(want, k)
	}
	c.Check(len(want) == 0, "%d rows of %d inserted at once are lost", len(want), len(want)+len(got))
}
