package harness

import (
	"fmt"
	"slices"
	"strconv"

	perm0 "github.com/oarkflow/permission"
	"github.com/oarkflow/permission/utils"
	v1 "github.com/oarkflow/permission/v1"
)

func init() {
	register("C25", &Prop{
		Rule:  "a case is a batch of random lists (values of mixed types, flat records, maps; empty, repeated, disjoint and overlapping) through every helper, judged by naive loops; non-trivial: distinct (helper, list lengths, result length) triples",
		Quick: 480000, Thorough: 3000000,
		Need: []string{"compacted", "members found", "members not found", "intersections", "unions", "joins", "texts", "field matches", "field mismatches", "identifier lists", "pooled slices"},
		Run:  runC25,
	})
}

type rec struct {
	ID   string
	N    int
	Flag bool
}

// wrec has neighbouring texts and a field of any type.
type wrec struct {
	A, B string
	C    any
}

var hostileTexts = []string{"", "a", "/a/b", "GET", "a b", " ", "%s", "|", "é", "\x00"}

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

func runC25(c *C) {
	vals := []any{"a", "b", "", nil, 0, 1, int64(1), uint8(1), 1.0, "1", true, false, "true", tstruct{"a", "b"}, tstruct{"ab", ""}, 'a', [2]int{1, 2}}
	large := c.IntN(400) == 0
	size := func(n int) int {
		if large {
			n = 1 << (3 + c.IntN(6))
		}
		return c.IntN(n)
	}
	if large {
		for i := range 200 {
			vals = append(vals, i, strconv.Itoa(i))
		}
		c.Count("large lists", 1)
	}
	mk := func() []any {
		xs := make([]any, size(9))
		for i := range xs {
			xs[i] = pick(c, vals)
		}
		return xs
	}
	// the text of an attribute
	res, act, delim := pick(c, hostileTexts), pick(c, hostileTexts), pick(c, []string{"", "|", " ", "::"})
	c.Judged(4)
	c.Check(perm0.NewAttribute(res, act).String() == res+" "+act && v1.NewAttribute(res, act).String() == res+" "+act, "the text of an attribute made of %q and %q is %q or %q", res, act, perm0.NewAttribute(res, act).String(), v1.NewAttribute(res, act).String())
	c.Check(perm0.NewAttribute(res, act).String(delim) == res+delim+act && v1.NewAttribute(res, act).String(delim) == res+delim+act, "the text of an attribute made of %q and %q with %q is %q or %q", res, act, delim, perm0.NewAttribute(res, act).String(delim), v1.NewAttribute(res, act).String(delim))
	// duplicates and membership
	xs := mk()
	before := append([]any{}, xs...)
	got := utils.Compact(xs)
	var want []any
	for i, x := range xs {
		dup := false
		for _, y := range xs[:i] {
			dup = dup || x == y
		}
		if !dup {
			want = append(want, x)
		}
	}
	c.Judged(1)
	c.Count("compacted", 1)
	if !equalAny(got, want) {
		c.Failf("Compact(%#v) = %#v, expected %#v", before, got, want)
	}
	if !equalAny(xs, before) {
		c.Failf("Compact changed its argument from %#v to %#v", before, xs)
	}
	c.Seen("compact", len(xs), len(got))
	e := pick(c, vals)
	in := false
	for _, x := range xs {
		in = in || x == e
	}
	c.Judged(1)
	if utils.Contains(xs, e) != in {
		c.Failf("Contains(%#v, %#v) = %v", xs, e, !in)
	}
	if in {
		c.Count("members found", 1)
	} else {
		c.Count("members not found", 1)
	}
	// records and maps
	ids := []string{"a", "b", "ab", "", "é", "A", " a", "true", "0"}
	mkRec := func() []rec {
		rs := make([]rec, size(7))
		for i := range rs {
			rs[i] = rec{pick(c, ids), c.IntN(3 + 97*b2i(large)), c.Chance(30)}
		}
		return rs
	}
	a, b := mkRec(), mkRec()
	inA := setOf(a...)
	wi, wu := []rec{}, append([]rec{}, a...)
	for _, r := range b {
		if inA[r] {
			wi = append(wi, r)
		} else {
			wu = append(wu, r)
		}
	}
	c.Judged(2)
	c.Count("intersections", 1)
	c.Count("unions", 1)
	if c.Chance(10) {
		a, b = append(make([]rec, 0, 20), a...), append(make([]rec, 0, 20), b...) // with room to spare
	}
	a0, b0 := slices.Clone(a), slices.Clone(b)
	for _, h := range []string{"Intersection", "Union"} {
		f, w := utils.Intersection[rec], wi
		if h == "Union" {
			f, w = utils.Union[rec], wu
		}
		g := f(a, b)
		if fmt.Sprint(g) != fmt.Sprint(w) {
			c.Failf("%s(%v, %v) = %v, expected %v", h, a, b, g, w)
		}
		if !slices.Equal(a, a0) || !slices.Equal(b, b0) || !slices.Equal(a[:cap(a)][len(a):], make([]rec, cap(a)-len(a))) {
			c.Failf("%s changed its arguments from %v and %v to %v and %v", h, a0, b0, a[:cap(a)], b)
		}
	}
	c.Seen("records", len(a), len(b), len(wi), len(wu))
	texts := []string{"", "a", "a|B:a", "a|B:string=a", "|", "|B:", ":", "a|", "1", "\"", "a\" \"", "B:a|", "b"}
	anys := []any{nil, 1, "1", int64(1), 1.0, true, "true", "<nil>", "a", ""}
	mkW := func() []wrec {
		ws := make([]wrec, size(6))
		for i := range ws {
			ws[i] = wrec{pick(c, texts), pick(c, texts), pick(c, anys)}
		}
		return ws
	}
	wa, wb := mkW(), mkW()
	inW := setOf(wa...)
	wwi, wwu := []wrec{}, append([]wrec{}, wa...)
	for _, r := range wb {
		if inW[r] {
			wwi = append(wwi, r)
		} else {
			wwu = append(wwu, r)
		}
	}
	c.Judged(2)
	if g := utils.Intersection(wa, wb); fmt.Sprintf("%#v", g) != fmt.Sprintf("%#v", wwi) && len(g)+len(wwi) > 0 {
		c.Failf("Intersection(%#v, %#v) = %#v, expected %#v", wa, wb, g, wwi)
	}
	if g := utils.Union(wa, wb); fmt.Sprintf("%#v", g) != fmt.Sprintf("%#v", wwu) && len(g)+len(wwu) > 0 {
		c.Failf("Union(%#v, %#v) = %#v, expected %#v", wa, wb, g, wwu)
	}
	keys := []string{"x", "y", "z"}
	if c.Chance(10) {
		keys = []string{"", "x:", "x", "x|y", "y", "\""}
		ids = texts
	}
	mkMap := func() []map[string]any {
		ms := make([]map[string]any, size(6))
		for i := range ms {
			ms[i] = map[string]any{}
			for _, k := range keys {
				if c.Chance(60) {
					ms[i][k] = pick(c, ids)
					if c.Chance(5) {
						ms[i][k] = pick(c, anys)
					}
				}
			}
		}
		return ms
	}
	ma, mb := mkMap(), mkMap()
	same := func(p, q map[string]any) bool {
		if len(p) != len(q) {
			return false
		}
		for k, v := range p {
			if w, ok := q[k]; !ok || w != v {
				return false
			}
		}
		return true
	}
	var wmi, wmu []map[string]any
	wmu = append(wmu, ma...)
	for _, q := range mb {
		f := false
		for _, p := range ma {
			f = f || same(p, q)
		}
		if f {
			wmi = append(wmi, q)
		} else {
			wmu = append(wmu, q)
		}
	}
	c.Judged(2)
	if g := utils.Intersection(ma, mb); len(g) != len(wmi) || fmt.Sprintf("%#v", g) != fmt.Sprintf("%#v", wmi) && len(g) > 0 {
		c.Failf("Intersection(%v, %v) = %v, expected %v", ma, mb, g, wmi)
	}
	if g := utils.Union(ma, mb); len(g) != len(wmu) || fmt.Sprintf("%#v", g) != fmt.Sprintf("%#v", wmu) && len(g) > 0 {
		c.Failf("Union(%v, %v) = %v, expected %v", ma, mb, g, wmu)
	}
	// joins
	l, r := mkRec(), mkRec()
	k := c.IntN(3)
	on := func(x, y rec) bool {
		switch k {
		case 0:
			return x.ID == y.ID
		case 1:
			return x.N < y.N
		default:
			return x.Flag && y.N == 0
		}
	}
	type pair struct{ L, R rec }
	var wj []pair
	for _, x := range l {
		for _, y := range r {
			if on(x, y) {
				wj = append(wj, pair{x, y})
			}
		}
	}
	gj := utils.JoinSlices(l, r, on, func(x, y rec) pair { return pair{x, y} })
	c.Judged(1)
	c.Count("joins", 1)
	if fmt.Sprint(gj) != fmt.Sprint(wj) {
		c.Failf("JoinSlices(%v, %v) = %v, expected %v", l, r, gj, wj)
	}
	c.Seen("join", len(l), len(r), len(wj))
	// text
	s := pick(c, hostileIDs) + pick(c, hostileIDs)
	if c.Chance(5) {
		s = ""
	}
	c.Judged(5)
	c.Count("texts", 1)
	if utils.ToString(s) != s || utils.ToString([]byte(s)) != s || utils.FromByte([]byte(s)) != s || string(utils.ToByte(s)) != s {
		c.Failf("text %q does not survive conversion: %q %q %q %q", s, utils.ToString(s), utils.ToString([]byte(s)), utils.FromByte([]byte(s)), utils.ToByte(s))
	}
	if utils.ToString(nil) != "" || utils.ToString(stringer{s}) != "<"+s+">" || utils.ToString(12) != "12" || utils.ToString(true) != "true" {
		c.Failf("ToString: nil %q, Stringer %q, 12 %q, true %q", utils.ToString(nil), utils.ToString(stringer{s}), utils.ToString(12), utils.ToString(true))
	}
	// matching by fields
	type frow struct{ A, B, C any }
	fs := []func(*frow) any{func(r *frow) any { return r.A }, func(r *frow) any { return r.B }, func(r *frow) any { return r.C }}
	few := []any{nil, "a", "b", 1, true}
	f, w := frow{pick(c, few), pick(c, few), pick(c, few)}, frow{pick(c, few), pick(c, few), pick(c, few)}
	if c.Chance(40) {
		w = f
	}
	var chosen []func(*frow) any
	ok := true
	for _, g := range fs {
		if c.Chance(60) {
			chosen = append(chosen, g)
			ok = ok && g(&w) != nil && g(&w) == g(&f)
		}
	}
	c.Judged(1)
	if utils.FilterByFields(&f, &w, chosen...) != ok {
		c.Failf("FilterByFields(%v, %v) over %d fields = %v", f, w, len(chosen), !ok)
	}
	if ok {
		c.Count("field matches", 1)
	} else {
		c.Count("field mismatches", 1)
	}
	// the identifiers in rows
	values := []any{nil, "a", "b", "", "A"}
	var rs []*perm0.Data
	for range c.IntN(8) {
		rs = append(rs, &perm0.Data{Tenant: pick(c, values), Namespace: pick(c, values), Scope: pick(c, values), Principal: pick(c, values), Role: pick(c, values)})
	}
	for _, x := range []struct {
		name string
		get  func([]*perm0.Data) []any
		of   func(*perm0.Data) any
	}{
		{"GetTenantIDs", perm0.GetTenantIDs, func(d *perm0.Data) any { return d.Tenant }},
		{"GetNamespaceIDs", perm0.GetNamespaceIDs, func(d *perm0.Data) any { return d.Namespace }},
		{"GetScopeIDs", perm0.GetScopeIDs, func(d *perm0.Data) any { return d.Scope }},
		{"GetPrincipalIDs", perm0.GetPrincipalIDs, func(d *perm0.Data) any { return d.Principal }},
		{"GetRoleIDs", perm0.GetRoleIDs, func(d *perm0.Data) any { return d.Role }},
	} {
		var want []any
		for _, d := range rs {
			if v := x.of(d); !slices.Contains(want, v) {
				want = append(want, v)
			}
		}
		c.Judged(1)
		c.Count("identifier lists", 1)
		if got := x.get(rs); !equalAny(got, want) {
			c.Failf("%s gave %q, the rows hold %q in this order", x.name, got, want)
		}
	}
	// pooled slices come back empty
	p := utils.NewSlicePool[int](4)
	var out [][]int
	for i := range 6 {
		q := p.Get()
		if len(q) != 0 {
			c.Failf("a pooled slice came with contents %v", q)
		}
		q = append(q, i, i+1)
		if c.Chance(3) { // grown far beyond what it was made for
			q = append(q, make([]int, 1<<(4+c.IntN(9)))...)
		}
		for _, o := range out {
			if &o[0] == &q[0] {
				c.Failf("the same pooled slice was handed out twice")
			}
		}
		if c.Chance(50) {
			p.Put(q)
		} else {
			out = append(out, q)
		}
	}
	c.Judged(6)
	c.Count("pooled slices", 6)
}

func equalAny(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
