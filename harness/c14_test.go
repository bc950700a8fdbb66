package harness

import (
	"fmt"
	"slices"
	"strings"

	perm0 "github.com/oarkflow/permission"
	"github.com/oarkflow/permission/ds"
	"github.com/oarkflow/permission/trie"
)

func init() {
	register("C14", &Prop{
		Rule:  "a case is a sequence of insertions into a store with a random number of key fields over few values (empty, text, numbers, flags), checked after every insertion or burst by searches with random filters and listings against a shadow map; every few cases all combinations of two or three values per field of the manager's own six-field rows; non-trivial: distinct (key width, rows stored, matches) triples",
		Quick: 48000, Thorough: 2000000,
		Need: []string{"insertions", "replacements", "searches", "first-match searches", "first-match searches finding nothing", "full products", "manager rows", "results held", "large stores"},
		Run:  runC14,
	})
	register("C22", &Prop{
		Rule:  "a case is a sequence of append, concatenate and flatten operations over a growing pool of lists with arbitrary sharing; after each, every list ever made is flattened and compared with its shadow; non-trivial: distinct (pool size, longest list, operation) triples",
		Quick: 1200000, Thorough: 6000000,
		Need: []string{"appends", "concatenations", "concatenations with an empty list", "flattened slices modified"},
		Run:  runC22,
	})
}

type trow struct {
	keys []any
	tag  int
}

type tstruct struct{ A, B string }

func keyString(keys []any) string {
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%T=%#v\x00", k, k)
	}
	return b.String()
}

func runC14(c *C) {
	if c.Chance(2) {
		c14Product(c)
	}
	if c.Chance(50) {
		c14Manager(c)
		return
	}
	width := 1 + c.IntN(6)
	vary := c.Chance(20)
	vals := []any{nil, "a", "b", "", "nil", 0, 1, int64(1), true, false, "true", tstruct{"a", "b"}, tstruct{"ab", ""}, 'a', 1.0, "ab", "<nil>"}
	if c.Chance(60) {
		vals = []any{nil, pick(c, vals), pick(c, vals)}
	}
	match := func(f *trow, r *trow) bool {
		for i, k := range f.keys {
			if k != nil && (i >= len(r.keys) || r.keys[i] != k) {
				return false
			}
		}
		return true
	}
	t := trie.New[trow](match, func(r *trow) []any { return r.keys })
	shadow := map[string]*trow{}
	gen := func() []any {
		w := width
		if vary {
			w = c.IntN(width + 1)
		}
		ks := make([]any, w)
		for i := range ks {
			ks[i] = pick(c, vals)
		}
		return ks
	}
	n := 1 + c.IntN(6*c.Size)
	every := 30
	var held [][2][]*trow // what was returned, and what it was then
	if c.IntN(100) == 0 { // many rows, many branches, or both
		n = 1 + c.IntN(1<<(6+c.IntN(7)))
		if c.Chance(5) {
			n = 1<<12 + c.IntN(1<<14)
		}
		every = 3000 / n // of a hundred insertions
		for i := range 1 + c.IntN(n) {
			vals = append(vals, i+2)
		}
		c.Count("large stores", 1)
	}
	for i := range n {
		r := &trow{gen(), i}
		if _, ok := shadow[keyString(r.keys)]; ok {
			c.Count("replacements", 1)
		}
		c.Count("insertions", 1)
		t.Insert(r)
		if c.Chance(3) {
			t.Insert(nil) // nothing to insert
		}
		shadow[keyString(r.keys)] = r
		c.Logf("insert %#v", r.keys)
		if i < n-1 && !c.Chance(every) {
			continue
		}
		for k, h := range held {
			if !slices.Equal(h[0], h[1]) {
				c.Failf("rows returned by an earlier search (%d) changed under later ones: %d rows, the first difference at %d", k, len(h[1]), firstDiff(h[0], h[1]))
			}
		}
		if len(held) > 4 {
			held = held[1:]
		}
		hold := func(rs []*trow) []*trow {
			if len(rs) > 0 && c.Chance(30) {
				held = append(held, [2][]*trow{rs, slices.Clone(rs)})
				c.Count("results held", 1)
			}
			return rs
		}
		c14Judge(c, "Data()", hold(t.Data()), shadow, func(*trow) bool { return true })
		for range 4 {
			f := &trow{gen(), -1}
			if c.Chance(5) {
				f = nil // nothing but the predicate
			}
			if f != nil {
				c14Judge(c, fmt.Sprintf("Search(%#v)", f.keys), hold(t.Search(f)), shadow, func(r *trow) bool { return match(f, r) })
				c14First(c, fmt.Sprintf("First(%#v)", f.keys), t.First(f), shadow, func(r *trow) bool { return match(f, r) })
			}
			// an arbitrary predicate, that also sees the filter it was given
			k, m := c.IntN(5), 2+c.IntN(4)
			pred := func(r *trow) bool { return (r.tag+k)%m == 0 }
			cb := func(g *trow, r *trow) bool {
				if g != f {
					c.Failf("the predicate was called with a filter that is not the one given")
				}
				return pred(r)
			}
			c14Judge(c, "SearchFunc", hold(t.SearchFunc(f, cb)), shadow, pred)
			c14First(c, "FirstFunc", t.FirstFunc(f, cb), shadow, pred)
		}
	}
	c.Seen(width, vary, len(shadow), n)
}

func c14Judge(c *C, what string, got []*trow, shadow map[string]*trow, pred func(*trow) bool) {
	c.Judged(1)
	c.Count("searches", 1)
	want := map[*trow]bool{}
	for _, r := range shadow {
		if pred(r) {
			want[r] = true
		}
	}
	seen := map[*trow]bool{}
	for _, r := range got {
		if r == nil {
			c.Failf("%s returned a nil row", what)
		}
		if !want[r] {
			c.Failf("%s returned row %#v (insertion %d), which is not stored or not a match", what, r.keys, r.tag)
		}
		if seen[r] {
			c.Failf("%s returned row %#v twice", what, r.keys)
		}
		seen[r] = true
	}
	for r := range want {
		if !seen[r] {
			c.Failf("%s did not return row %#v (insertion %d)", what, r.keys, r.tag)
		}
	}
}

func firstDiff(a, b []*trow) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func c14First(c *C, what string, got *trow, shadow map[string]*trow, pred func(*trow) bool) {
	c.Judged(1)
	c.Count("first-match searches", 1)
	if got != nil {
		if shadow[keyString(got.keys)] != got || !pred(got) {
			c.Failf("%s returned row %#v (insertion %d), which is not stored or not a match", what, got.keys, got.tag)
		}
		return
	}
	for _, r := range shadow {
		if pred(r) {
			c.Failf("%s found nothing although row %#v matches", what, r.keys)
		}
	}
	c.Count("first-match searches finding nothing", 1)
}

// c14Product stores every combination of a few values in each of the six fields.
func c14Product(c *C) {
	m := perm0.New()
	var rows []row
	vals := []any{nil, "a", "b"}
	if c.Chance(50) {
		vals = []any{nil, "a"}
	}
	for _, t := range vals {
		for _, n := range vals {
			for _, s := range vals {
				for _, p := range vals {
					for _, r := range vals {
						for _, d := range []any{nil, true, false} {
							rows = append(rows, row{t, n, s, p, r, d})
						}
					}
				}
			}
		}
	}
	c.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	for i := range rows {
		m.AddData(&rows[i])
	}
	got := map[row]int{}
	for _, r := range m.Data().Data() {
		got[*r]++
	}
	c.Judged(len(rows))
	c.Count("full products", 1)
	for _, r := range rows {
		if got[r] != 1 {
			c.Failf("row %s is stored %d times after inserting all %d combinations", fmtRow(r), got[r], len(rows))
		}
	}
	if len(got) != len(rows) {
		c.Failf("%d distinct rows stored, %d inserted", len(got), len(rows))
	}
}

// c14Manager uses the store with the manager's own row type, keys and filter.
func c14Manager(c *C) {
	g, _ := genRoot(c)
	g.noTenant = true
	m := perm0.New()
	shadow := map[row]*row{}
	n := 1 + c.IntN(5*c.Size)
	for i := range n {
		r := g.row(c)
		m.AddData(&r)
		shadow[r] = &r
		c.Count("insertions", 1)
		c.Count("manager rows", 1)
		c.Logf("insert %s", fmtRow(r))
		if i < n-1 && !c.Chance(30) {
			continue
		}
		for range 5 {
			f := g.row(c)
			for _, p := range []*any{&f.Tenant, &f.Namespace, &f.Scope, &f.Principal, &f.Role, &f.ManageDescendants} {
				if c.Chance(50) {
					*p = nil
				}
			}
			match := func(r row) bool {
				return nilOr(f.Tenant, r.Tenant) && nilOr(f.Namespace, r.Namespace) && nilOr(f.Scope, r.Scope) && nilOr(f.Principal, r.Principal) && nilOr(f.Role, r.Role) && nilOr(f.ManageDescendants, r.ManageDescendants)
			}
			want := 0
			for r := range shadow {
				if match(r) {
					want++
				}
			}
			c.Judged(2)
			c.Count("searches", 1)
			c.Count("first-match searches", 1)
			seen := map[row]bool{}
			for _, r := range m.Source().Search(&f) {
				if shadow[*r] != r || !match(*r) || seen[*r] {
					c.Failf("Search(%s) returned %s, which is not the stored row, not a match or a repetition", fmtRow(f), fmtRow(*r))
				}
				seen[*r] = true
			}
			if len(seen) != want {
				c.Failf("Search(%s) returned %d rows, %d match", fmtRow(f), len(seen), want)
			}
			first := m.Source().First(&f)
			if (first != nil) != (want > 0) || first != nil && (shadow[*first] != first || !match(*first)) {
				c.Failf("First(%s) returned %v, %d rows match", fmtRow(f), first, want)
			}
			c.Seen("rows", len(shadow), want)
		}
	}
}

func runC22(c *C) {
	lists := []ds.Link[int]{ds.Empty[int]()}
	shadow := [][]int{{}}
	next := 0
	if c.IntN(3000) == 0 { // long ones
		for range 1 + c.IntN(3) {
			l, s := ds.Empty[int](), []int{}
			for range c.IntN(1 << (8 + c.IntN(7))) {
				l, s = l.Append(next), append(s, next)
				next++
			}
			lists, shadow = append(lists, l), append(shadow, s)
		}
		c.Count("long lists", 1)
	}
	steps := 3 + c.IntN(4+3*c.Size)
	check := func(i int, after string) {
		c.Judged(1)
		got := lists[i].AsSlice()
		if !equalInts(got, shadow[i]) {
			c.Failf("list %d flattens to %v, it was built as %v (after %s)", i, got, shadow[i], after)
		}
		if lists[i].IsEmpty() != (len(shadow[i]) == 0) {
			c.Failf("list %d holding %v says empty=%v (after %s)", i, shadow[i], lists[i].IsEmpty(), after)
		}
	}
	for range steps {
		a := c.IntN(len(lists))
		if c.Chance(50) {
			a = len(lists) - 1 - c.IntN(min(3, len(lists)))
		}
		what := ""
		switch c.IntN(8) {
		case 0, 1, 2, 3:
			what = fmt.Sprintf("append %d to %d", next, a)
			lists = append(lists, lists[a].Append(next))
			shadow = append(shadow, append(append([]int{}, shadow[a]...), next))
			next++
			c.Count("appends", 1)
		case 4, 5, 6:
			b := c.IntN(len(lists))
			if len(shadow[a])+len(shadow[b]) > 2000+40*next {
				continue
			}
			what = fmt.Sprintf("concat %d and %d", a, b)
			lists = append(lists, lists[a].Concat(lists[b]))
			shadow = append(shadow, append(append([]int{}, shadow[a]...), shadow[b]...))
			c.Count("concatenations", 1)
			if len(shadow[a]) == 0 || len(shadow[b]) == 0 {
				c.Count("concatenations with an empty list", 1)
			}
		default:
			s := lists[a].AsSlice()
			what = fmt.Sprintf("flatten %d and scribble", a)
			for i := range s {
				s[i] = -1
			}
			_ = append(s, -2, -3)
			c.Count("flattened slices modified", 1)
		}
		c.Logf("%s", what)
		for i := range lists {
			check(i, what)
		}
		longest := 0
		for _, s := range shadow {
			longest = max(longest, len(s))
		}
		c.Seen(len(lists), longest, strings.Fields(what)[0])
	}
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
