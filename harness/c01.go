package main

import (
	"fmt"
	"strings"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C01", Quick: 40000, Thor: 1000000,
		Rule: "a case is a generated route table and a list of request paths near it, served by the real engine (static-route option random); every served route and reported pattern is compared with a declarative matcher that ranks all matching patterns. Non-trivial: a request matched by at least two routes, or matched only after a better partial candidate is a dead end.",
		Need: []string{"requests", "ambiguous", "notfound", "backtracked", "multi_segment_wildcard"},
		Case: func(c *C) { routingCase(c, true) }})
	register(&Prop{ID: "C02", Quick: 50000, Thor: 1000000,
		Rule: "a case is a generated route table and a list of request paths near it; the parameters each handler sees are compared with what its own pattern says about the path. Non-trivial: at least one parameter is expected; distinct by pattern and parameter values.",
		Need: []string{"requests", "params", "after_backtrack", "regexp_params", "wildcard_params", "tail_params"},
		Case: func(c *C) { routingCase(c, false) }})
}

func routingCase(c *C, selection bool) {
	r := c.R
	max := 12
	if r.Pct(8) {
		max = 120
	}
	rts, lits := genTable(r, max, true)
	if r.Pct(4) {
		rts, lits = deepTable(r)
	}
	if r.IntN(150) == 0 {
		rts, lits = wideTable(r)
	}
	tab := newTable(rts)
	root := water.NewRouter()
	mount(r, root, rts, func(t *rt) []interface{} { return []interface{}{routeHandler(t)} })
	static := r.Pct(40)
	var eng *water.Engine
	if p, bad := try(func() { eng = root.Handler(water.WithStaticRouter(static)) }); bad {
		c.Fail("build", "a well-formed table did not build: %v\n%s", p, tableString(rts))
		return
	}
	byID := rts
	for i := 0; i < 40; i++ {
		path := genPath(r, tab, lits)
		m := pick(r, rts).Method
		if r.Pct(10) {
			m = pick(r, methods)
		}
		o := &obsRoute{id: -1}
		rec := Serve(eng, With(Noise(r, Req(m, path), rts...), "obs", o))
		c.Eval()
		c.Count("requests", 1)
		want, n := tab.best(m, path)
		desc := func() string {
			return fmt.Sprintf("%s %q static=%v\ntable:\n%s", m, path, static, tableString(rts))
		}
		if selection {
			if n == 0 {
				c.Count("notfound", 1)
				if o.n != 0 || rec.Status() != 404 {
					c.Fail("selection", "no pattern matches, but route #%d ran %d times, status %d\n%s", o.id, o.n, rec.Status(), desc())
					return
				}
				continue
			}
			bt := backtracks(tab, m, path, want)
			if n > 1 {
				c.Count("ambiguous", 1)
			}
			if bt {
				c.Count("backtracked", 1)
			}
			if n > 1 || bt {
				c.Seen(want.Pat, "|", path, "|", n)
			}
			if len(splitPath(path)) > len(want.segs) {
				c.Count("multi_segment_wildcard", 1)
			}
			if o.n != 1 || o.id != want.ID {
				c.Fail("selection", "expected route %s, got #%d (%d handlers ran), status %d, %d routes match\n%s", want, o.id, o.n, rec.Status(), n, desc())
				return
			}
			if o.full != want.Pat {
				c.Fail("fullpath", "FullPath %q, route %s ran\n%s", o.full, want, desc())
				return
			}
			c.Sample(func() any {
				return map[string]any{"request": m + " " + path, "table": tableString(rts), "served": want.String()}
			})
			continue
		}
		if o.n == 0 {
			continue
		}
		got := byID[o.id]
		ps := splitPath(path)
		if got.Method != m || !got.matches(ps) {
			continue // route selection is C01's business
		}
		exp := got.params(ps)
		if len(exp) > 0 {
			c.Seen(got.Pat, fmt.Sprint(exp))
			c.Count("params", len(exp))
			for k := range exp {
				if strings.HasPrefix(k, "*") {
					c.Count("wildcard_params", 1)
				}
			}
			for _, s := range got.segs {
				if s.kind == kReg {
					c.Count("regexp_params", 1)
				}
			}
			if len(ps) > len(got.segs) {
				c.Count("tail_params", 1)
			}
		}
		if backtracks(tab, m, path, got) {
			c.Count("after_backtrack", 1)
		}
		if !eqParams(exp, o.params) {
			c.Fail("params", "route %s served %q with params %q, expected %q\n%s", got, path, o.params, exp, desc())
			return
		}
		if o.mismatch != "" {
			c.Fail("accessor", "Param(%q) differs from Params\n%s", o.mismatch, desc())
			return
		}
		if o.missing {
			c.Fail("missing", "looking up an absent parameter did not panic\n%s", desc())
			return
		}
		c.Sample(func() any { return map[string]any{"pattern": got.Pat, "path": path, "params": o.params} })
	}
}

// backtracks: some registered prefix looks better than the chosen route but leads nowhere.
func backtracks(t *rtable, m, path string, want *rt) bool {
	ps := splitPath(path)
	bk := -1
	for i, r := range t.rts {
		if r == want {
			bk = i
		}
	}
	if bk < 0 {
		return false
	}
	wk := t.key(bk, ps)
	for i, r := range t.rts {
		if r.Method != m || r.matches(ps) {
			continue
		}
		// the prefix matches for a while and ranks better
		pre := r.Method
		for k := 0; k < len(r.segs)-1 && k < len(ps)-1; k++ {
			pre += "/" + r.segs[k].text
			if !r.segs[k].matches(ps[k]) {
				break
			}
			a := []int{r.segs[k].kind, t.firstNF[pre]}
			if 2*k+1 >= len(wk) {
				break
			}
			b := wk[2*k : 2*k+2]
			if less(a, b) {
				return true
			}
			if a[0] != b[0] || a[1] != b[1] {
				break
			}
		}
		_ = i
	}
	return false
}

// deepTable: long patterns sharing long prefixes, and wide fan-out.
func deepTable(r R) ([]*rt, []string) {
	lits := []string{"a", "b"}
	var out []*rt
	if r.Pct(50) { // wide
		n := r.Rng(60, 300)
		for i := 0; i < n; i++ {
			out = append(out, newRt("GET", fmt.Sprintf("/w%d/%s", i, r.Str("x", "<id>", "*", "<n ~ ^[0-9]+$>")), i))
		}
		out = append(out, newRt("GET", "/<any>/z", len(out)), newRt("GET", "/*", len(out)+1))
		lits = []string{"w1", "w7", "w59", "x", "z"}
		return out, lits
	}
	d := r.Rng(20, 70)
	var b strings.Builder
	for i := 0; i < d; i++ {
		b.WriteString("/" + r.Str("a", "b", fmt.Sprintf("<p%d>", i)))
		if r.Pct(10) && i > 2 {
			out = append(out, newRt("GET", b.String(), len(out)))
		}
	}
	out = append(out, newRt("GET", b.String(), len(out)))
	out = append(out, newRt("GET", b.String()+"/tail/*rest", len(out)))
	seen := map[string]bool{}
	var u []*rt
	for _, t := range out {
		if !seen[t.Pat] {
			seen[t.Pat] = true
			t.ID = len(u)
			u = append(u, t)
		}
	}
	return u, lits
}
