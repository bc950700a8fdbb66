package harness

import (
	"context"
	"fmt"
	"log/slog"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	v2 "github.com/oarkflow/permission/v2"
)

func init() {
	register("C06", &Prop{
		Rule:  "a case is a short concurrent history on one authorizer under the race detector: adding, removing and asking about a few assignments, permissions, roles, edges, tenants, namespaces and scopes, with standing and impossible requests of other principals asked throughout; per-object histories are checked for linearizability, standing requests must be granted and impossible ones denied; non-trivial: distinct (object, order of overlapping operations and answers) sub-histories with at least two overlapping operations",
		Quick: 14000, Thorough: 60000, CPULimit: 300,
		Need: []string{"linearizability checks", "overlapping pairs", "standing requests granted", "impossible requests denied", "cell answers yes", "cell answers no", "racing edges refused", "histories with a clock", "histories without shared state in the harness", "additions raced on one object", "decisions during a handover", "handovers"},
		Run:  runC06,
	})
	register("C07", &Prop{
		Rule:  "a case is a random v2 policy asked 20 questions with a recording audit logger, a logger that is switched off, none, and one that calls back into the authorizer, then the same concurrently; every record is attributed to its question and judged; non-trivial: distinct (question kind, request shape, answer, number of records)",
		Quick: 3000, Thorough: 100000, CPULimit: 300,
		Need: []string{"granted records", "failed records", "unknown tenants", "records of concurrent questions", "callbacks from the logger"},
		Run:  runC07,
	})
}

// one operation on a cell: an object whose presence is added, removed and asked for
type cellOp struct {
	cell string
	kind string // add, remove, ask
}

type cellOut struct {
	yes bool // ask: the answer; remove: whether something was removed
}

var countModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(cellOp).cell
			by[k] = append(by[k], o)
		}
		var out [][]porcupine.Operation
		for _, v := range by {
			out = append(out, v)
		}
		return out
	},
	Init: func() any { return 0 },
	Step: func(state, in, out any) (bool, any) {
		n, op, o := state.(int), in.(cellOp), out.(cellOut)
		switch op.kind {
		case "add":
			if strings.HasPrefix(op.cell, "assign") {
				return true, n + 1 // the same assignment may be held several times
			}
			return true, 1
		case "remove":
			if strings.HasPrefix(op.cell, "assign") {
				return o.yes == (n > 0), 0 // removal reports whether anything matched
			}
			return true, 0
		}
		return o.yes == (n > 0), n
	},
	DescribeOperation: func(in, out any) string {
		return fmt.Sprintf("%s %s -> %v", in.(cellOp).kind, in.(cellOp).cell, out.(cellOut).yes)
	},
}

func runC06(c *C) {
	switch c.IntN(5) {
	case 0:
		c06grow(c)
		return
	case 1:
		c06handover(c)
		return
	}
	a := v2.NewAuthorizer()
	if c.Chance(30) {
		a = v2.NewAuthorizer(slog.New(yieldHandler{}))
	}
	parent, tenant, child := v2.NewTenant("parent", "N"), v2.NewTenant("T", "N"), v2.NewTenant("child", "N")
	parent.AddChildTenant(tenant)
	tenant.AddChildTenant(child)
	tenant.AddNamespace("M")
	if err := tenant.AddScopeToNamespace("N", v2.NewScope("S")); err != nil {
		c.Failf("adding a scope: %v", err)
	}
	a.AddTenants(parent, tenant, child)

	principals := 3 + c.IntN(3)
	addRole := func(name string, perms ...string) *v2.Role {
		r := v2.NewRole(name)
		for _, p := range perms {
			r.AddPermission(v2.NewPermission("", p, "X"))
		}
		return a.AddRole(r)
	}
	standing := make([]*v2.Role, principals)
	for i := range principals {
		// each standing principal: an own permission directly, one inherited, one in a child tenant, one in a scope
		standing[i] = addRole(fmt.Sprintf("own%d", i), fmt.Sprintf("/own/%d", i))
		addRole(fmt.Sprintf("inh%d", i), fmt.Sprintf("/inh/%d", i))
		if err := a.AddChildRole(fmt.Sprintf("own%d", i), fmt.Sprintf("inh%d", i)); err != nil {
			c.Failf("adding a child role: %v", err)
		}
		// and one two levels down, beside children added one at a time
		addRole(fmt.Sprintf("deep%d", i), fmt.Sprintf("/deep/%d", i))
		if err := a.AddChildRole(fmt.Sprintf("inh%d", i), fmt.Sprintf("deep%d", i)); err != nil {
			c.Failf("adding a child role: %v", err)
		}
		for k := range c.IntN(5) {
			leaf := fmt.Sprintf("leaf%d_%d", i, k)
			addRole(leaf)
			if err := a.AddChildRole(fmt.Sprintf("own%d", i), leaf); err != nil {
				c.Failf("adding a child role: %v", err)
			}
		}
		addRole(fmt.Sprintf("low%d", i), fmt.Sprintf("/low/%d", i))
		addRole(fmt.Sprintf("sc%d", i), fmt.Sprintf("/sc/%d", i))
		p := fmt.Sprintf("P%d", i)
		a.AddPrincipalRole(
			&v2.PrincipalRole{Principal: p, Tenant: "T", Role: fmt.Sprintf("own%d", i), ManageChildTenant: true},
			&v2.PrincipalRole{Principal: p, Tenant: "child", Role: fmt.Sprintf("low%d", i)},
			&v2.PrincipalRole{Principal: p, Tenant: "T", Scope: "S", Role: fmt.Sprintf("sc%d", i)},
		)
	}
	theirs := make([][]string, principals)
	for i := range theirs {
		theirs[i] = []string{"zz", fmt.Sprintf("inh%d", i), "other", fmt.Sprintf("deep%d", i), "aa"}
	}
	// cells
	permRole := addRole("perm")
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "Q", Tenant: "T", Role: "perm"})
	addRole("holder")
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "H", Tenant: "T", Role: "holder"})
	addRole("cellrole", "/cell")
	ncell := 1 + c.IntN(2)

	type cell struct {
		name        string
		add, remove func() bool
		ask         func(r *rand.Rand) bool
	}
	var cells []cell
	for k := range ncell {
		p := fmt.Sprintf("C%d", k)
		cells = append(cells, cell{
			name: "assign" + p,
			add: func() bool {
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: p, Tenant: "T", Role: "cellrole"})
				return true
			},
			remove: func() bool {
				return a.RemovePrincipalRole(v2.PrincipalRole{Principal: p, Tenant: "T", Role: "cellrole"}) == nil
			},
			ask: func(r *rand.Rand) bool {
				if r.IntN(3) == 0 {
					return a.Can(v2.Request{Principal: p, Tenant: "T"}, "other", "cellrole")
				}
				tn := "T"
				if r.IntN(4) == 0 {
					tn = ""
				}
				return a.Authorize(v2.Request{Principal: p, Tenant: tn, Resource: "/cell", Action: "X"})
			},
		})
		perm := v2.NewPermission("", fmt.Sprintf("/perm/%d", k), "X")
		cells = append(cells, cell{
			name:   fmt.Sprintf("perm%d", k),
			add:    func() bool { permRole.AddPermission(perm); return true },
			remove: func() bool { permRole.RemovePermission(perm); return true },
			ask: func(*rand.Rand) bool {
				return a.Authorize(v2.Request{Principal: "Q", Tenant: "T", Resource: perm.Resource, Action: "X"})
			},
		})
	}
	// growing only
	cells = append(cells, cell{
		name: "role",
		add:  func() bool { addRole("late", "/late"); return true },
		ask: func(*rand.Rand) bool {
			_, ok := a.GetRole("late")
			return ok
		},
	}, cell{
		name: "edge",
		add:  func() bool { return a.AddChildRole("holder", "cellrole") == nil },
		ask: func(r *rand.Rand) bool {
			if r.IntN(2) == 0 {
				return a.Can(v2.Request{Principal: "H", Tenant: "T"}, "cellrole")
			}
			return a.Authorize(v2.Request{Principal: "H", Tenant: "T", Resource: "/cell", Action: "X"})
		},
	}, cell{
		name: "tenant",
		add: func() bool {
			t := v2.NewTenant("late", "N")
			t.AddChildTenant(child)
			a.AddTenant(t)
			return true
		},
		ask: func(*rand.Rand) bool { _, ok := a.GetTenant("late"); return ok },
	}, cell{
		name: "namespace",
		add:  func() bool { tenant.AddNamespace("L"); return true },
		ask: func(*rand.Rand) bool {
			return a.Authorize(v2.Request{Principal: "P0", Tenant: "T", Namespace: "L", Resource: "/own/0", Action: "X"})
		},
	}, cell{
		name: "scope",
		add:  func() bool { return tenant.AddScopeToNamespace("N", v2.NewScope("L")) == nil },
		ask: func(*rand.Rand) bool {
			return a.Authorize(v2.Request{Principal: "P0", Tenant: "T", Scope: "L", Resource: "/own/0", Action: "X"})
		},
	})

	workers := 3 + c.IntN(5)
	opsEach := 10 + c.IntN(15)
	seeds := make([]uint64, workers)
	for i := range seeds {
		seeds[i] = c.Uint64()
	}
	// The clock that orders operations for the linearizability check also orders memory for the
	// race detector; half of the cases run without it and without anything else shared.
	timed := c.Chance(50)
	var clock atomic.Int64
	hist := make([][]porcupine.Operation, workers)
	granted, denied, refused := make([]int, workers), make([]int, workers), make([]int, workers)
	accepted := make([][][2]string, workers)
	cyc := []string{"cy0", "cy1", "cy2"}
	for _, n := range cyc {
		addRole(n)
	}
	focus := c.IntN(len(cells)) // most histories hammer one kind of object
	c.Go(workers, func(w int) {
		r := rand.New(rand.NewPCG(seeds[w], uint64(w)))
		for range opsEach {
			if r.IntN(4) == 0 {
				runtime.Gosched()
			}
			switch k := r.IntN(100); {
			case k < 55:
				cl := cells[focus]
				if r.IntN(3) == 0 {
					cl = cells[r.IntN(len(cells))]
				}
				op := cellOp{cl.name, "ask"}
				do := func() bool { return cl.ask(r) }
				switch x := r.IntN(10); {
				case x < 3:
					op.kind, do = "add", cl.add
				case x < 6 && cl.remove != nil:
					op.kind, do = "remove", cl.remove
				}
				if !timed {
					do()
					continue
				}
				call := clock.Add(1)
				out := cellOut{do()}
				ret := clock.Add(1)
				hist[w] = append(hist[w], porcupine.Operation{ClientId: w, Input: op, Call: call, Output: out, Return: ret})
			case k < 80: // standing and impossible requests
				i := r.IntN(principals)
				p := fmt.Sprintf("P%d", i)
				reqs := []v2.Request{
					{Principal: p, Tenant: "T", Resource: fmt.Sprintf("/own/%d", i), Action: "X"},
					{Principal: p, Tenant: "T", Namespace: "M", Resource: fmt.Sprintf("/inh/%d", i), Action: "X"},
					{Principal: p, Tenant: "T", Resource: fmt.Sprintf("/low/%d", i), Action: "X"},
					{Principal: p, Tenant: "T", Scope: "S", Resource: fmt.Sprintf("/sc/%d", i), Action: "X"},
					{Principal: p, Resource: fmt.Sprintf("/own/%d", i), Action: "X"},
					{Principal: p, Tenant: "T", Resource: fmt.Sprintf("/deep/%d", i), Action: "X"},
				}
				req := reqs[r.IntN(len(reqs))]
				if !a.Authorize(req) {
					c.Failf("the standing request %s was denied while other principals' policy changed", fmtReq(req))
				}
				// the same lists of roles in everybody's hands
				if !a.Can(v2.Request{Principal: p, Tenant: "T"}, theirs[i]...) {
					c.Failf("the standing roles %q of %s were denied while other principals' policy changed", theirs[i], p)
				}
				if role := fmt.Sprintf("inh%d", i); !a.Can(v2.Request{Principal: p, Tenant: "T"}, role) {
					c.Failf("the standing role %s of %s was denied while other principals' policy changed", role, p)
				}
				granted[w] += 3
				j := (i + 1 + r.IntN(principals-1)) % principals
				req.Resource = strings.Replace(req.Resource, fmt.Sprint(i), fmt.Sprint(j), 1)
				if a.Authorize(req) {
					c.Failf("%s was granted, a permission only principal P%d ever had", fmtReq(req), j)
				}
				if a.Can(v2.Request{Principal: p, Tenant: "T"}, fmt.Sprintf("own%d", j), fmt.Sprintf("inh%d", j), "cellrole") {
					c.Failf("%s was answered to hold a role it never had", p)
				}
				if a.Authorize(v2.Request{Principal: p, Tenant: "parent", Resource: req.Resource, Action: "X"}) {
					c.Failf("%s was granted %s in the parent tenant, where it has no assignment", p, req.Resource)
				}
				denied[w] += 3
			case k < 90: // edges racing to close a cycle
				x, y := cyc[r.IntN(3)], cyc[r.IntN(3)]
				err := a.AddChildRole(x, y)
				if err == nil {
					accepted[w] = append(accepted[w], [2]string{x, y})
				} else {
					refused[w]++
				}
			default: // churn nobody asks about
				n := fmt.Sprintf("junk%d", r.IntN(3))
				switch r.IntN(8) {
				case 5:
					a.SetDefaultTenant([]string{"", "T"}[r.IntN(2)])
				case 6:
					if d, ok := a.GetDefaultTenant(); ok && d != tenant {
						c.Failf("the default tenant is %q, only T was ever chosen", d.ID)
					}
				case 7:
					tenant.AddNamespace("N", true)
					tenant.AddChildTenant(v2.NewTenant(n, "N"))
				case 0:
					addRole(n, "/junk")
				case 1:
					a.AddTenant(v2.NewTenant(n, "N"))
				case 2:
					a.AddPrincipalRole(&v2.PrincipalRole{Principal: n, Tenant: "T", Role: "junk0"}, &v2.PrincipalRole{Principal: n, Tenant: n, Role: "junk1", ManageChildTenant: true})
				case 3:
					_ = a.RemovePrincipalRole(v2.PrincipalRole{Principal: n})
				case 4:
					child.AddNamespace(n)
					_ = child.AddScopeToNamespace(n, v2.NewScope(n))
					a.GetDefaultTenant()
				}
			}
		}
	})
	var edges [][2]string
	for w := range workers {
		c.Count("standing requests granted", granted[w])
		c.Count("impossible requests denied", denied[w])
		c.Count("racing edges refused", refused[w])
		c.Judged(granted[w] + denied[w])
		edges = append(edges, accepted[w]...)
	}
	if timed {
		c.Count("histories with a clock", 1)
	} else {
		c.Count("histories without shared state in the harness", 1)
	}
	// accepted edges must be acyclic, and resolution must end
	if v := acyclic(edges); v != "" {
		c.Failf("racing AddChildRole calls all accepted although together they make %s its own ancestor: %v", v, edges)
	}
	var all []porcupine.Operation
	for _, h := range hist {
		all = append(all, h...)
	}
	for _, o := range all {
		if o.Input.(cellOp).kind == "ask" {
			if o.Output.(cellOut).yes {
				c.Count("cell answers yes", 1)
			} else {
				c.Count("cell answers no", 1)
			}
		}
	}
	for _, part := range countModel.Partition(all) {
		sort.Slice(part, func(i, j int) bool { return part[i].Call < part[j].Call })
		res := porcupine.CheckOperationsTimeout(countModel, part, 30*time.Second)
		switch res {
		case porcupine.Illegal:
			var b strings.Builder
			for _, o := range part {
				fmt.Fprintf(&b, "[%d,%d] worker %d: %s\n", o.Call, o.Return, o.ClientId, countModel.DescribeOperation(o.Input, o.Output))
			}
			c.Failf("the concurrent history of %q fits no order of its operations:\n%s", part[0].Input.(cellOp).cell, b.String())
		case porcupine.Unknown:
			c.Count("inconclusive linearizability checks", 1)
			continue
		}
		c.Count("linearizability checks", 1)
		c.Judged(len(part))
		over, fp := 0, ""
		for i, o := range part {
			fp += o.Input.(cellOp).kind[:1] + fmt.Sprint(o.Output.(cellOut).yes)[:1]
			for _, q := range part[i+1:] {
				if q.Call < o.Return {
					over++
					fp += "|"
				}
			}
		}
		c.Count("overlapping pairs", over)
		if over > 0 {
			c.Seen(part[0].Input.(cellOp).cell, fp)
		}
		c.Logf("%s: %s", part[0].Input.(cellOp).cell, fp)
	}
}

// c06grow lets several goroutines add different things to the same object at the same moment;
// each must find what it added as soon as it has added it, and all of them at the end.
func c06grow(c *C) {
	workers := 2 + c.IntN(5)
	a := v2.NewAuthorizer()
	type round struct {
		what string
		do   func(w int)
		has  func(w int) bool
	}
	grant := func(r *v2.Role, res string) *v2.Role {
		r.AddPermission(v2.NewPermission("", res, "X"))
		return r
	}
	a.AddRole(grant(v2.NewRole("own"), "/own"))
	id := func(s string, w int) string { return fmt.Sprintf("%s%d", s, w) }
	var rounds []round
	for n := range 4 + c.IntN(8) {
		tn := fmt.Sprintf("T%d", n)
		t := v2.NewTenant(tn, "N")
		a.AddTenant(t)
		me := fmt.Sprintf("P%d", n)
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: me, Tenant: tn, Role: "own", ManageChildTenant: true})
		may := func(ns, sc, res string) bool {
			return a.Authorize(v2.Request{Principal: me, Tenant: tn, Namespace: ns, Scope: sc, Resource: res, Action: "X"})
		}
		kind := c.IntN(11)
		var r round
		switch kind {
		case 0:
			r = round{"declaring one new namespace and adding a scope to it", func(w int) {
				t.AddNamespace("X")
				_ = t.AddScopeToNamespace("X", v2.NewScope(id("s", w)))
			}, func(w int) bool { return may("X", id("s", w), "/own") }}
		case 1:
			r = round{"adding a scope to one namespace", func(w int) {
				_ = t.AddScopeToNamespace("N", v2.NewScope(id("s", w)))
			}, func(w int) bool { return may("N", id("s", w), "/own") }}
		case 2:
			r = round{"adding a namespace to one tenant", func(w int) { t.AddNamespace(id("n", w)) },
				func(w int) bool { return may(id("n", w), "", "/own") }}
		case 3:
			for w := range workers {
				a.AddRole(grant(v2.NewRole(id(tn+"low", w)), id("/low", w)))
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: me, Tenant: id(tn+"c", w), Role: id(tn+"low", w)})
			}
			r = round{"adding a child to one tenant", func(w int) { t.AddChildTenant(v2.NewTenant(id(tn+"c", w), "N")) },
				func(w int) bool { return may("", "", id("/low", w)) }}
		case 4:
			role := a.AddRole(v2.NewRole(tn + "role"))
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: me, Tenant: tn, Role: tn + "role"})
			r = round{"adding a permission to one role", func(w int) { grant(role, id("/p", w)) },
				func(w int) bool { return may("", "", id("/p", w)) }}
		case 5:
			r = round{"registering a role", func(w int) { a.AddRole(v2.NewRole(id(tn+"r", w))) },
				func(w int) bool { _, ok := a.GetRole(id(tn+"r", w)); return ok }}
		case 6:
			r = round{"registering a tenant", func(w int) { a.AddTenant(v2.NewTenant(id(tn+"x", w))) },
				func(w int) bool { _, ok := a.GetTenant(id(tn+"x", w)); return ok }}
		case 7:
			a.AddRole(v2.NewRole(tn + "top"))
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: me, Tenant: tn, Role: tn + "top"})
			for w := range workers {
				a.AddRole(grant(v2.NewRole(id(tn+"kid", w)), id("/kid", w)))
			}
			r = round{"adding a child to one role", func(w int) { _ = a.AddChildRole(tn+"top", id(tn+"kid", w)) },
				func(w int) bool {
					return may("", "", id("/kid", w)) && a.Can(v2.Request{Principal: me, Tenant: tn}, id(tn+"kid", w))
				}}
		case 8:
			for w := range workers {
				a.AddRole(grant(v2.NewRole(id(tn+"as", w)), id("/as", w)))
			}
			r = round{"adding an assignment", func(w int) {
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: me, Tenant: tn, Role: id(tn+"as", w)})
			}, func(w int) bool { return may("", "", id("/as", w)) }}
		case 9: // removals must not take along or bring back what others do
			for w := range workers {
				a.AddRole(grant(v2.NewRole(id(tn+"as", w)), id("/as", w)))
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: me + "x", Tenant: tn, Role: id(tn+"as", w)})
			}
			r = round{"removing one assignment and adding another", func(w int) {
				_ = a.RemovePrincipalRole(v2.PrincipalRole{Principal: me + "x", Role: id(tn+"as", w)})
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: me, Tenant: tn, Role: id(tn+"as", w)})
			}, func(w int) bool {
				return may("", "", id("/as", w)) && !a.Authorize(v2.Request{Principal: me + "x", Tenant: tn, Resource: id("/as", w), Action: "X"})
			}}
		case 10:
			role := a.AddRole(v2.NewRole(tn + "role"))
			for w := range workers {
				grant(role, id("/old", w))
			}
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: me, Tenant: tn, Role: tn + "role"})
			r = round{"removing one permission and adding another", func(w int) {
				role.RemovePermission(v2.NewPermission("", id("/old", w), "X"))
				grant(role, id("/new", w))
			}, func(w int) bool { return may("", "", id("/new", w)) && !may("", "", id("/old", w)) }}
		}
		rounds = append(rounds, r)
	}
	start, end := make([]*spin, len(rounds)), make([]*spin, len(rounds))
	for i := range rounds {
		start[i], end[i] = &spin{n: int64(workers)}, &spin{n: int64(workers)}
	}
	lost := make([][2][]bool, workers)
	for w := range lost {
		lost[w] = [2][]bool{make([]bool, len(rounds)), make([]bool, len(rounds))}
	}
	c.Go(workers, func(w int) {
		for i, r := range rounds {
			start[i].wait(0)
			r.do(w)
			lost[w][0][i] = !r.has(w)
			end[i].wait(0)
			lost[w][1][i] = !r.has(w)
		}
	})
	for i, r := range rounds {
		for w := range workers {
			c.Check(!lost[w][0][i], "%d goroutines at once, each %s: one of them did not find its own right after", workers, r.what)
			c.Check(!lost[w][1][i], "%d goroutines at once, each %s: what goroutine %d did was lost", workers, r.what, w)
			c.Judged(2)
		}
		c.Count("additions raced on one object", workers)
		c.Seen("grow", r.what, workers)
	}
}

// c06handover passes a grant from one assignment (or permission) to another that gives the same,
// adding the new one before removing the old one, and registers roles and tenants again, while
// the principal is asked for: at no moment is it without.
func c06handover(c *C) {
	a := v2.NewAuthorizer()
	readers := 1 + c.IntN(4)
	mk := func(id string) *v2.Tenant {
		t := v2.NewTenant(id, "N")
		_ = t.AddScopeToNamespace("N", v2.NewScope("S"))
		return t
	}
	var ts []*v2.Tenant
	for _, id := range []string{"top", "A", "B", "low"} {
		ts = append(ts, mk(id))
	}
	ts[0].AddChildTenant(ts[3])
	a.AddTenants(ts...)
	role := func(name string) *v2.Role {
		r := v2.NewRole(name)
		r.AddPermission(v2.NewPermission("", "/doc/:id", "X"))
		return a.AddRole(r)
	}
	r1 := role("r1")
	role("r2")
	a.AddRole(v2.NewRole("none"))
	kind := c.IntN(6)
	req := v2.Request{Principal: "P", Tenant: "A", Resource: "/doc/1", Action: "X"}
	one, two := v2.PrincipalRole{Principal: "P", Tenant: "A", Role: "r1"}, v2.PrincipalRole{Principal: "P", Tenant: "A", Role: "r2"}
	switch kind {
	case 1: // in another tenant
		req.Tenant, two.Tenant = "", "B"
	case 2: // in another namespace or scope
		one.Namespace, req.Scope = "N", "S"
		if c.Chance(50) {
			one.Scope = "S"
		}
	case 3: // managing the children of the tenant asked for
		req.Tenant = "top"
		one = v2.PrincipalRole{Principal: "P", Tenant: "top", Role: "none", ManageChildTenant: true}
		two = v2.PrincipalRole{Principal: "P", Tenant: "top", Role: "", Namespace: "M", ManageChildTenant: true}
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "P", Tenant: "low", Role: "r1"})
	}
	a.AddPrincipalRole(&one)
	for i := range c.IntN(6) {
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: fmt.Sprintf("Q%d", i), Tenant: "A", Role: "r1"})
	}
	turns := 20 + c.IntN(40)
	var done atomic.Bool
	denied := make([]string, readers+1)
	asked := make([]int, readers+1)
	errs := 0
	withCan := kind != 5
	c.Go(readers+1, func(w int) {
		if w > 0 {
			for i := 0; i < 10 || i < 120 && !done.Load(); i++ {
				if !a.Authorize(req) {
					denied[w] = "Authorize"
					return
				}
				if withCan && !a.Can(v2.Request{Principal: "P", Tenant: req.Tenant}, "r1", "r2") {
					denied[w] = "Can"
					return
				}
				asked[w] += 2
			}
			return
		}
		defer done.Store(true)
		p1, p2 := v2.NewPermission("", "/doc/:id", "X"), v2.NewPermission("", "/doc/*", "X")
		for i := range turns {
			switch {
			case kind == 4: // the tenant and the role are registered again, with all they had
				if i%2 == 0 {
					role("r1")
				} else {
					a.AddTenant(mk("A"))
				}
			case kind == 5: // within one role
				r1.AddPermission(p2)
				r1.RemovePermission(p1)
				p1, p2 = p2, p1
			default:
				next := two
				a.AddPrincipalRole(&next)
				if a.RemovePrincipalRole(one) != nil {
					errs++
				}
				one, two = two, one
			}
			if i%8 == 0 {
				runtime.Gosched()
			}
		}
	})
	kinds := []string{"role", "tenant", "namespace or scope", "assignment that manages child tenants", "object registered under the same identifier", "permission of the role"}
	c.Check(errs == 0, "%d removals of an assignment that was there reported an error", errs)
	for w := range denied {
		c.Check(denied[w] == "", "%s denied a principal while its grant passed to another %s, the new one in place before the old one was removed", denied[w], kinds[kind])
		c.Count("decisions during a handover", asked[w])
		c.Judged(asked[w])
	}
	c.Count("handovers", turns)
	c.Seen("handover", kinds[kind], readers, turns)
}

func acyclic(edges [][2]string) string {
	adj := map[string][]string{}
	for _, e := range edges {
		adj[e[0]] = append(adj[e[0]], e[1])
	}
	for n := range adj {
		seen := map[string]bool{}
		var walk func(string) bool
		walk = func(m string) bool {
			for _, k := range adj[m] {
				if k == n {
					return true
				}
				if !seen[k] {
					seen[k] = true
					if walk(k) {
						return true
					}
				}
			}
			return false
		}
		if walk(n) {
			return n
		}
	}
	return ""
}

// yieldHandler is an audit handler that only gives way to other goroutines.
type yieldHandler struct{}

func (yieldHandler) Enabled(context.Context, slog.Level) bool { return true }
func (yieldHandler) Handle(context.Context, slog.Record) error {
	runtime.Gosched()
	return nil
}
func (h yieldHandler) WithAttrs([]slog.Attr) slog.Handler { return h }
func (h yieldHandler) WithGroup(string) slog.Handler      { return h }

type auditRecord struct {
	msg   string
	attrs map[string]string
}

// recorder is an audit handler that keeps every record and may call back.
type recorder struct {
	mu      sync.Mutex
	recs    []auditRecord
	off     bool
	onEvent func()
}

func (h *recorder) Enabled(context.Context, slog.Level) bool { return !h.off }
func (h *recorder) Handle(_ context.Context, r slog.Record) error {
	rec := auditRecord{msg: r.Message, attrs: map[string]string{}}
	r.Attrs(func(a slog.Attr) bool {
		rec.attrs[a.Key] = a.Value.String()
		return true
	})
	h.mu.Lock()
	h.recs = append(h.recs, rec)
	h.mu.Unlock()
	if h.onEvent != nil {
		h.onEvent()
	}
	return nil
}
func (h *recorder) WithAttrs([]slog.Attr) slog.Handler { return h }
func (h *recorder) WithGroup(string) slog.Handler      { return h }

func (h *recorder) take() []auditRecord {
	h.mu.Lock()
	defer h.mu.Unlock()
	r := h.recs
	h.recs = nil
	return r
}

// outcome classifies a record: 1 granted, 0 failed, -1 not an outcome.
func outcome(msg string) int {
	m := strings.ToLower(msg)
	switch {
	case strings.Contains(m, "authorization granted"):
		return 1
	case strings.Contains(m, "authorization failed"), strings.Contains(m, "failed authorization"):
		return 0
	}
	return -1
}

func checkAudit(c *C, what string, r v2.Request, answer bool, recs []auditRecord) {
	c.Judged(1)
	n := 0
	for i, rec := range recs {
		o := outcome(rec.msg)
		if o < 0 {
			continue
		}
		n++
		c.Check((o == 1) == answer, "%s(%s) answered %v and recorded %q", what, fmtReq(r), answer, rec.msg)
		c.Check(i == len(recs)-1, "%s(%s) recorded its outcome %q before other records %v", what, fmtReq(r), rec.msg, recs)
		for k, v := range map[string]string{"principal": r.Principal, "tenant": r.Tenant, "namespace": r.Namespace, "scope": r.Scope, "resource": r.Resource, "action": r.Action} {
			got, has := rec.attrs[k]
			c.Check(got == v && (has || v == ""), "%s(%s) recorded %s=%q", what, fmtReq(r), k, got)
		}
		if answer {
			c.Count("granted records", 1)
		} else {
			c.Count("failed records", 1)
		}
	}
	c.Check(n == 1, "%s(%s) answered %v and left %d outcome records: %v", what, fmtReq(r), answer, n, recs)
	c.Seen(what, shape(r), answer, len(recs))
}

func runC07(c *C) {
	p, g := genV2(c)
	c.Logf("%s", p.describe())
	plain := p.build(v2.NewAuthorizer())
	rec := &recorder{}
	logged := p.build(v2.NewAuthorizer(slog.New(rec)))
	off := p.build(v2.NewAuthorizer(slog.New(&recorder{off: true})))
	var qs []v2.Request
	var roles [][]string
	for range 20 {
		r := genV2Req(c, p, g)
		if t := p.tenant(r.Tenant); r.Tenant != "" && (t == nil || !t.Registered) {
			c.Count("unknown tenants", 1)
		}
		if c.Chance(2) { // long ones
			k := c.IntN(1 << (5 + c.IntN(8)))
			f := []*string{&r.Principal, &r.Tenant, &r.Namespace, &r.Scope, &r.Resource, &r.Action}[c.IntN(6)]
			*f += strings.Repeat(pick(c, []string{"x", "/x", "é", " x"}), k)
			c.Count("long requests", 1)
		}
		qs, roles = append(qs, r), append(roles, genRoleList(c, p, g))
	}
	rec.take()
	want := make([][2]bool, len(qs))
	for i, r := range qs {
		w := plain.A.Authorize(r)
		got := logged.A.Authorize(r)
		recs := rec.take()
		c.Logf("Authorize(%s) = %v, records %v", fmtReq(r), got, recs)
		c.Check(got == w && off.A.Authorize(r) == w, "Authorize(%s) answers %v without a logger and %v with one", fmtReq(r), w, got)
		checkAudit(c, "Authorize", r, got, recs)
		w2 := plain.A.Can(r, roles[i]...)
		got = logged.A.Can(r, roles[i]...)
		recs = rec.take()
		c.Check(got == w2 && off.A.Can(r, roles[i]...) == w2, "Can(%s, %q) answers %v without a logger and %v with one", fmtReq(r), roles[i], w2, got)
		checkAudit(c, "Can", r, got, recs)
		want[i] = [2]bool{w, w2}
	}
	// A logger that calls back into the authorizer
	if c.Chance(60) {
		cb := &recorder{}
		back := p.build(v2.NewAuthorizer(slog.New(cb)))
		depth := 0
		cb.onEvent = func() {
			if depth > 0 {
				return
			}
			depth++
			defer func() { depth-- }()
			c.Count("callbacks from the logger", 1)
			switch c.IntN(4) {
			case 0:
				back.A.Authorize(qs[0])
			case 1:
				back.A.AddPrincipalRole(&v2.PrincipalRole{Principal: "unrelated", Tenant: "unrelated", Role: "unrelated"})
			case 2:
				back.A.AddRole(v2.NewRole("unrelated"))
				_ = back.A.RemovePrincipalRole(v2.PrincipalRole{Principal: "unrelated"})
			case 3:
				back.A.GetTenant("T")
				back.A.AddTenant(v2.NewTenant("unrelated"))
				for _, t := range back.Tenants {
					t.AddNamespace("unrelated-ns-of-" + t.ID)
					break
				}
			}
		}
		for i, r := range qs[:6] {
			if r.Namespace == "" {
				continue // a namespace added by the callback may change the only-namespace rule
			}
			c.Check(back.A.Authorize(r) == want[i][0], "Authorize(%s) answers differently with a logger that calls back", fmtReq(r))
			c.Check(back.A.Can(r, roles[i]...) == want[i][1], "Can(%s, %q) answers differently with a logger that calls back", fmtReq(r), roles[i])
			c.Judged(2)
		}
	}
	// The same questions at the same time; each goroutine tags its requests with its own action
	if c.Chance(40) {
		type key struct {
			worker, q int
			can       bool
		}
		rec.take()
		const workers = 4
		ans := make([]map[key]bool, workers)
		tag := func(w, i int, can bool) string { return fmt.Sprintf("W%d-%d-%v", w, i, can) }
		c.Go(workers, func(w int) {
			ans[w] = map[key]bool{}
			for i, r := range qs {
				r.Action = tag(w, i, false)
				ans[w][key{w, i, false}] = logged.A.Authorize(r)
				r.Action = tag(w, i, true)
				ans[w][key{w, i, true}] = logged.A.Can(r, roles[i]...)
			}
		})
		by := map[string][]auditRecord{}
		for _, r := range rec.take() {
			by[r.attrs["action"]] = append(by[r.attrs["action"]], r)
			c.Count("records of concurrent questions", 1)
		}
		for w := range ans {
			for k, got := range ans[w] {
				r := qs[k.q]
				r.Action = tag(k.worker, k.q, k.can)
				what, want := "Authorize", false
				if k.can {
					what, want = "Can", plain.A.Can(r, roles[k.q]...)
				} else {
					want = plain.A.Authorize(r)
				}
				c.Check(got == want, "%s(%s) answers %v without a logger and %v with one, concurrently", what, fmtReq(r), want, got)
				checkAudit(c, what, r, got, by[r.Action])
			}
		}
	}
}
