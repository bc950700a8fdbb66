package harness

// specMatch is the harness's own reading of the pattern rule, by exhaustive memoised search:
// '*' any run of bytes, ':' to the end of the pattern's segment stands for the non-empty rest
// of one segment of the value, everything else itself. Segments end at '/', at the blank
// between resource and action, and at the end.
func specMatch(value, pattern string) bool {
	memo := make(map[[2]int]bool)
	segEnd := func(s string, i int) int {
		for i < len(s) && s[i] != '/' && s[i] != ' ' {
			i++
		}
		return i
	}
	var m func(v, p int) bool
	m = func(v, p int) (r bool) {
		if p == len(pattern) {
			return v == len(value)
		}
		k := [2]int{v, p}
		if r, ok := memo[k]; ok {
			return r
		}
		defer func() { memo[k] = r }()
		switch pattern[p] {
		case '*':
			return m(v, p+1) || v < len(value) && m(v+1, p)
		case ':':
			e := segEnd(value, v)
			return e > v && m(e, segEnd(pattern, p))
		}
		return v < len(value) && value[v] == pattern[p] && m(v+1, p+1)
	}
	return m(0, 0)
}

// Permission vocabulary for decision-level properties: no blanks inside resource or action.
var permResources = []string{
	"/r/:id", "/r/:id/x", "/r/*", "*", "/r/1", "/r/2", "/s/:a/:b", "/s/:a/edit", "/s", "", ":x", "/r/:id/*", "/*/x", "r", "/r/1/x", "/r/:", "/é/:id",
}
var permActions = []string{"GET", "POST", "*", ":m", "", "G*", "get", "GETX"}

var reqResources = []string{
	"/r/1", "/r/2", "/r/", "/r", "/r/1/x", "/r/1/y", "/r/1/x/z", "/s/1/2", "/s/1/edit", "/s/1", "/s", "", "r", "/é/é", "/r/*", "/r/:id", "//x", "/q/x",
}
var reqActions = []string{"GET", "POST", "", "G", "GETX", "get", "DELETE"}

type perm struct{ Res, Act string }

func (p perm) String() string { return p.Res + " " + p.Act }

func genPerm(c *C) perm {
	if c.Chance(50) {
		return perm{pick(c, reqResources), pick(c, reqActions)}
	}
	return perm{pick(c, permResources), pick(c, permActions)}
}

func genReq(c *C) perm { return perm{pick(c, reqResources), pick(c, reqActions)} }

// instance returns a request the permission (probably) matches.
func instance(c *C, p perm) perm {
	sub := func(s string) string {
		out := ""
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '*':
				out += pick(c, []string{"", "q", "1/x", "GET"})
			case ':':
				for i+1 < len(s) && s[i+1] != '/' {
					i++
				}
				out += pick(c, []string{"1", "x", "GET", "é"})
			default:
				out += string(s[i])
			}
		}
		return out
	}
	return perm{sub(p.Res), sub(p.Act)}
}
