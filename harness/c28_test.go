package harness

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	v2 "github.com/oarkflow/permission/v2"
)

func init() {
	register("C28", &Prop{
		Rule:  "a case is two to five managers of one generation (or of different ones), each with its own random policy over the same identifiers, set up and asked either in turns, step by step, or at the same time, each by a goroutine of its own; every answer is judged against the model of its own manager; non-trivial: distinct (generations, managers, in turns or at once, steps, answers that differ between managers) combinations",
		Quick: 3600, Thorough: 60000, Plain: 3,
		Need: []string{"managers used in turns", "managers used at once", "answers of the root package", "answers of v1", "answers of v2", "questions answered differently elsewhere", "changes"},
		Run:  runC28,
	})
}

// A step of one manager's life: a change, or a question whose answer is known beforehand.
// It gives what was wrong, or nothing, and touches nothing that another manager's steps touch.
type step struct {
	what     string
	question string // text of a question, without the manager
	answer   bool
	run      func() string
}

func boolStep(kind, q string, ask func() bool, must, may bool) step {
	return step{kind + " " + q, kind + " " + q, must, func() string {
		if got := ask(); must && !got || got && !may {
			return fmt.Sprintf("%s %s answered %v, its own policy says %v", kind, q, got, must)
		}
		return ""
	}}
}

// A script is the life of one manager; ask gives the step that puts a question at its end,
// and qs are the questions it was asked.
func script0(c *C) (out []step, ask func(any) step, qs []any) {
	g, ops := genRoot(c)
	w, m := newRootWorld(), newRootModel()
	asking := func(q rreq) step {
		want := m.authorize(q)
		return boolStep("root Authorize", q.String(), func() bool { return w.ask(q) }, want, want)
	}
	change := func(o rop) {
		ok := m.apply(o)
		out = append(out, step{what: o.String(), run: func() string {
			if err := w.apply(o); (err == nil) != ok {
				return fmt.Sprintf("%s returned %v", o, err)
			}
			return ""
		}})
	}
	for _, o := range ops {
		change(o)
	}
	for range 6 + c.IntN(6+2*c.Size) {
		if c.Chance(60) {
			change(g.op(c))
			continue
		}
		q := g.req(c, m, c.Chance(50))
		out, qs = append(out, asking(q)), append(qs, q)
	}
	for range 6 {
		q := g.req(c, m, c.Chance(50))
		out, qs = append(out, asking(q)), append(qs, q)
	}
	// nobody else's rows
	total := len(m.Rows)
	out = append(out, step{what: "root rows", run: func() string {
		if n := len(w.M.Data().Data()); n != total {
			return fmt.Sprintf("holds %d rows, %d were made", n, total)
		}
		return ""
	}})
	return out, func(x any) step { return asking(x.(rreq)) }, qs
}

func script1(c *C) (out []step, put func(any) step, qs []any) {
	w, m, g := newV1(c)
	change := func(o vop) {
		m.apply(o)
		out = append(out, step{what: o.String(), run: func() string { w.apply(o); return "" }})
	}
	put = func(x any) step {
		q := x.(rreq)
		must, may, _ := m.authorize(q)
		return boolStep("v1 Authorize", q.String(), func() bool { return w.ask(q) }, must, may)
	}
	ask := func() {
		q := g.req(c, m)
		out, qs = append(out, put(q)), append(qs, q)
	}
	allowed := func() {
		t, p, n, s := pick(c, g.T), pick(c, g.P), orEmpty(c, g.N, 40), orEmpty(c, g.S, 40)
		rows := m.of(t, p)
		want := sortedKeys(m.allowed(rows, t, n, s))
		wantSet := setOf(want...)
		out = append(out, step{what: "v1 GetAllowedRoles", run: func() string {
			got := w.M.GetAllowedRoles(rows, n, s)
			defer scribble(got, "scribbled")
			if !sameSet(setOf(got...), wantSet) {
				return fmt.Sprintf("GetAllowedRoles of %q in %q, namespace %q, scope %q gave %q, its own policy says %q", p, t, n, s, got, want)
			}
			return ""
		}})
	}
	for range 4 * len(g.T) {
		if c.Chance(70) {
			change(g.attach(c))
		}
	}
	for range 6 + c.IntN(6+2*c.Size) {
		switch {
		case c.Chance(60):
			change(g.op(c))
		case c.Chance(50):
			ask()
		default:
			allowed()
		}
	}
	for range 4 {
		ask()
		allowed()
	}
	return
}

func script2(c *C) (out []step, put func(any) step, qs []any) {
	p, g := genV2(c)
	var w *v2World
	out = append(out, step{what: "set up " + p.describe(), run: func() string {
		w = p.build(v2.NewAuthorizer())
		return ""
	}})
	made := append([]v2Assign(nil), p.Assign...)
	cur := *p // what build uses stays as it is
	put = func(x any) step {
		r := x.(v2.Request)
		want := cur.authorize(r, time.Time{})
		return boolStep("v2 Authorize", fmtReq(r), func() bool { return w.A.Authorize(r) }, want, want)
	}
	ask := func() {
		r := genV2Req(c, &cur, g)
		if c.Chance(30) {
			roles := genRoleList(c, &cur, g)
			want := cur.can(r, roles, time.Time{})
			out = append(out, boolStep("v2 Can", fmt.Sprintf("%s %q", fmtReq(r), roles), func() bool { return w.A.Can(r, lendAll(roles)...) }, want, want))
			return
		}
		out, qs = append(out, put(r)), append(qs, r)
	}
	for range 4 + c.IntN(6+c.Size) {
		if c.Chance(70) {
			ask()
			continue
		}
		a := genAssign(c, g)
		made = append(made, a)
		cur.Assign = append([]v2Assign(nil), made...)
		out = append(out, step{what: fmt.Sprintf("add %+v", a), run: func() string { w.A.AddPrincipalRole(a.real()); return "" }})
	}
	for range 6 {
		ask()
	}
	return
}

func lendAll(xs []string) []string { return append([]string(nil), xs...) }

func runC28(c *C) {
	// the same identifiers everywhere
	vocab := map[string][]string{}
	for _, k := range []string{"t", "n", "s", "p", "r", "g"} {
		vocab[k] = names(c, k, 2+c.IntN(3))
	}
	c.vocab = vocab
	defer func() { c.vocab = nil }()
	k := 2 + c.IntN(4)
	gen, mixed := c.IntN(3), c.Chance(15)
	scripts := make([][]step, k)
	gens := make([]int, k)
	var total, changes int
	elsewhere := map[string][2]bool{}
	put, qs := make([]func(any) step, k), make([][]any, k)
	for i := range scripts {
		gens[i] = gen
		if mixed {
			gens[i] = c.IntN(3)
		}
		scripts[i], put[i], qs[i] = []func(*C) ([]step, func(any) step, []any){script0, script1, script2}[gens[i]](c)
	}
	// the same questions to all
	for i := range scripts {
		for j := range qs {
			for range 4 {
				if gens[i] == gens[j] && len(qs[j]) > 0 {
					scripts[i] = append(scripts[i], put[i](pick(c, qs[j])))
				}
			}
		}
	}
	for i := range scripts {
		for _, s := range scripts[i] {
			if s.question == "" {
				changes++
				continue
			}
			total++
			c.Count("answers of "+[]string{"the root package", "v1", "v2"}[gens[i]], 1)
			x := elsewhere[s.question]
			if s.answer {
				x[1] = true
			} else {
				x[0] = true
			}
			elsewhere[s.question] = x
		}
	}
	differ := 0
	for _, x := range elsewhere {
		if x[0] && x[1] {
			differ++
		}
	}
	c.Count("questions answered differently elsewhere", differ)
	c.Count("changes", changes)
	c.Judged(total)
	fail := func(i int, done []string, msg string) {
		c.Failf("%d managers side by side, number %d (%s): %s\nits history:\n  %s", k, i, []string{"root", "v1", "v2"}[gens[i]], msg, strings.Join(done, "\n  "))
	}
	history := func(i, upto int) (out []string) {
		for _, s := range scripts[i][:upto+1] {
			out = append(out, s.what)
		}
		return
	}
	if c.Chance(50) {
		c.Count("managers used in turns", k)
		at := make([]int, k)
		for left := k; left > 0; {
			i := c.IntN(k)
			for n := 1 + c.IntN(3); n > 0 && at[i] < len(scripts[i]); n-- {
				s := scripts[i][at[i]]
				c.Logf("%d: %s", i, s.what)
				if msg := s.run(); msg != "" {
					fail(i, history(i, at[i]), msg)
				}
				if at[i]++; at[i] == len(scripts[i]) {
					left--
				}
			}
		}
		c.Seen(gens, k, "turns", total, differ)
		return
	}
	c.Count("managers used at once", k)
	wrong, where := make([]string, k), make([]int, k)
	yield := make([]int, k)
	for i := range yield {
		yield[i] = c.IntN(3)
	}
	c.Go(k, func(i int) {
		for j, s := range scripts[i] {
			if msg := s.run(); msg != "" {
				wrong[i], where[i] = msg, j
				return
			}
			for range yield[i] {
				runtime.Gosched()
			}
		}
	})
	for i, msg := range wrong {
		if msg != "" {
			fail(i, history(i, where[i]), msg)
		}
	}
	c.Seen(gens, k, "at once", total, differ)
}
