package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C28", Quick: 1500, Thor: 60000, Serial: true,
		Rule:   "a case is a generated tree of groups (nested, empty, with an empty pattern) with routes of all kinds and methods and with middlewares; every listing is printed into a captured stdout, parsed back (line forms, tree indentation) and compared with the declaration; the same requests are answered before, during and after the listings and their answers compared. Non-trivial: a table of at least three routes; distinct by the declaration.",
		Before: c15before,
		Need:   []string{"routes", "groups", "empty_groups", "any_routes", "root_routes", "no_route_listings", "tree_leaves", "served_compared", "late_use", "before"},
		Case:   c28})
}

type c28node struct {
	pat    string
	method string // "" : a group
	mws    int
	own    int
	sub    []*c28node
	parent *c28node
	rr     *water.Router
}

func (n *c28node) path() string {
	if n.parent == nil {
		return n.pat
	}
	return n.parent.path() + n.pat
}

func (n *c28node) count() int {
	if n == nil {
		return 0
	}
	return n.mws + n.own + n.parent.count()
}

var (
	c28full   = regexp.MustCompile(`^\[([A-Z]+) *: *(\d+)\] (.*)$`)
	c28method = regexp.MustCompile(`^\[ *(\d+)\] (.*)$`)
	c28raw    = regexp.MustCompile(`^(.*) \[([A-Z]+) *: *(\d+)\]$`)
	c28leaf   = regexp.MustCompile(`^(.*) \[ *(\d+)\]$`)
)

// c28tree cuts the drawing off a line.
func c28tree(l string) (depth int, text string, ok bool) {
	l = strings.ReplaceAll(l, "\u00a0", " ")
	rs := []rune(l)
	i := 0
	for i < len(rs) && (rs[i] == '│' || rs[i] == ' ') {
		i++
	}
	if i%4 != 0 || i+4 > len(rs) || rs[i] != '├' && rs[i] != '└' || string(rs[i+1:i+4]) != "── " {
		return 0, "", false
	}
	return i / 4, string(rs[i+4:]), true
}

func lines(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

func c28(c *C) {
	r := c.R
	rts, lits := genTable(r, 14, true)
	if r.Pct(2) {
		rts = nil
	}
	if r.OneIn(60) {
		rts, lits = wideTable(r)
		c.Count("wide", 1)
	}
	// patterns that are one route in two spellings are left out
	canon := map[string]bool{}
	key := func(method, pat string) string {
		k := method
		for _, s := range parsePattern(pat) {
			k += "/" + s.text
		}
		return k
	}
	root := &c28node{rr: water.NewRouter()}
	var routes []*c28node
	groups := 0
	mw := func(x *water.Context) { x.Next() }
	use := func(n *c28node) {
		k := r.Rng(1, 3)
		for i := 0; i < k; i++ {
			n.rr.Use(mw)
		}
		n.mws += k
		if len(n.sub) > 0 {
			c.Count("late_use", 1)
		}
	}
	addGroup := func(n *c28node, pat string) *c28node {
		g := &c28node{pat: pat, parent: n}
		n.sub = append(n.sub, g)
		var args []interface{}
		for r.Pct(30) {
			args = append(args, mw)
			g.mws++
		}
		if r.Pct(20) {
			args = append(args, func(rr *water.Router) { rr.Use(mw) })
			g.mws++
		}
		g.rr = n.rr.Group(pat, args...)
		groups++
		return g
	}
	anyMethods := []string{"GET", "POST", "DELETE", "PUT", "PATCH"}
	declare := func(n *c28node, pat string, t *rt) {
		own := r.Rng(1, 3)
		if r.Pct(3) {
			own = r.Rng(9, 120)
		}
		var hs []interface{}
		for i := 1; i < own; i++ {
			hs = append(hs, mw)
		}
		hs = append(hs, routeHandler(t))
		ms := []string{t.Method}
		if t.Method == "ANY" {
			ms = anyMethods
		}
		for _, m := range ms {
			x := &c28node{pat: pat, method: m, own: own, parent: n}
			n.sub = append(n.sub, x)
			routes = append(routes, x)
		}
		addRoute(n.rr, t.Method, pat, hs)
	}
	before := 0
	cur := root
	for _, t := range rts {
		if r.Pct(12) {
			t.Method = "ANY"
			c.Count("any_routes", 1)
		}
		ms := []string{t.Method}
		if t.Method == "ANY" {
			ms = anyMethods
		}
		dup := false
		for _, m := range ms {
			dup = dup || canon[key(m, t.Pat)]
		}
		if dup {
			continue
		}
		for _, m := range ms {
			canon[key(m, t.Pat)] = true
		}
		// groups are filled in the order of declaration: stay in an open group or close some
		n := cur
		for n.parent != nil && (r.Pct(40) || !strings.HasPrefix(t.Pat, n.path()+"/")) {
			n = n.parent
		}
		pat := strings.TrimPrefix(t.Pat, n.path())
		for r.Pct(35) && pat != "/" {
			segs := strings.Split(pat[1:], "/")
			k := r.IntN(len(segs))
			pre := ""
			if k > 0 {
				pre = "/" + strings.Join(segs[:k], "/")
			}
			n = addGroup(n, pre)
			pat = "/" + strings.Join(segs[k:], "/")
		}
		for r.Pct(15) {
			use(n)
		}
		if r.Pct(10) {
			addGroup(n, r.Str("/empty", "", "/<g>", "/e f", "/%d"))
			c.Count("empty_groups", 1)
			if r.Pct(30) {
				use(n.sub[len(n.sub)-1])
			}
		}
		declare(n, pat, t)
		cur = n
		if t.Pat == "/" {
			c.Count("root_routes", 1)
		}
		if r.Pct(10) {
			before++
			root.rr.Before(mw)
			c.Count("before", 1)
		}
	}
	decl := func() string {
		s := fmt.Sprintf("Before: %d\n", before)
		var walk func(n *c28node, ind string)
		walk = func(n *c28node, ind string) {
			s += fmt.Sprintf("%s%q %s mws=%d own=%d\n", ind, n.pat, n.method, n.mws, n.own)
			for _, x := range n.sub {
				walk(x, ind+"  ")
			}
		}
		walk(root, "")
		return s
	}
	var e *water.Engine
	if p, bad := try(func() { e = root.rr.Handler(water.WithStaticRouter(r.Pct(50))) }); bad {
		c.Fail("build", "a well-formed configuration did not build: %v\n%s", p, decl())
		return
	}
	c.Eval()
	c.Count("routes", len(routes))
	c.Count("groups", groups)
	if len(routes) > 2 {
		c.Seen(decl())
	}
	fail := func(sig, out, format string, a ...any) {
		c.Fail(sig, "%s\nprinted:\n%s\ndeclared:\n%s", fmt.Sprintf(format, a...), out, decl())
	}

	// what is served
	t := newTable(rts)
	type one struct{ m, p string }
	var qs []one
	for i := 0; i < 12; i++ {
		m := "GET"
		if r.Pct(40) {
			m = pick(r, methods)
		}
		qs = append(qs, one{m, genPath(r, t, lits)})
	}
	serve := func() []string {
		var l []string
		for _, q := range qs {
			o := &obsRoute{id: -1}
			rec := Serve(e, With(Req(q.m, q.p), "obs", o))
			l = append(l, fmt.Sprint(q, rec.Status(), o.id, o.n, o.params, o.full))
		}
		return l
	}
	want := serve()
	same := func(when string) bool {
		got := serve()
		c.Count("served_compared", len(got))
		for i := range got {
			if got[i] != want[i] {
				fail("served", "", "%s a listing the answer is %s, before %s", when, got[i], want[i])
				return false
			}
		}
		return true
	}
	takeLog()
	list := func(f func()) string {
		if r.Pct(10) {
			var wg sync.WaitGroup
			wg.Add(1)
			ok := true
			go func() { defer wg.Done(); ok = same("during") }()
			f()
			wg.Wait()
			if !ok {
				return takeLog()
			}
		} else {
			f()
		}
		return takeLog()
	}
	noRoute := func(out, what string) {
		c.Count("no_route_listings", 1)
		for _, l := range lines(out) {
			if strings.ContainsAny(l, "/[]") {
				fail("nothing", out, "%s shows something where there is no route: %q", what, l)
			}
		}
	}

	full := func() {
		out := list(e.PrintRawAllRoutes)
		if len(routes) == 0 {
			noRoute(out, "the full listing")
			return
		}
		ls := lines(out)
		if len(ls) != len(routes) {
			fail("full", out, "the full listing has %d lines, there are %d routes", len(ls), len(routes))
			return
		}
		for i, l := range ls {
			m := c28full.FindStringSubmatch(l)
			x := routes[i]
			if m == nil || m[1] != x.method || m[2] != strconv.Itoa(x.count()+before) || m[3] != x.path() {
				fail("full", out, "line %d of the full listing is %q, expected %s, %d handlers, %s", i, l, x.method, x.count()+before, x.path())
				return
			}
		}
	}
	ofMethod := func(m string) (xs []*c28node) {
		for _, x := range routes {
			if x.method == m {
				xs = append(xs, x)
			}
		}
		return
	}
	spell := func(m string) string {
		switch r.IntN(8) {
		case 0:
			return strings.ToLower(m)
		case 1:
			return m[:1] + strings.ToLower(m[1:])
		}
		return m
	}
	perMethod := func(m string) {
		xs := ofMethod(m)
		out := list(func() { e.PrintRawRoutes(spell(m)) })
		if len(xs) == 0 {
			noRoute(out, "the listing of "+m)
			return
		}
		sort.SliceStable(xs, func(i, j int) bool { return xs[i].path() < xs[j].path() })
		ls := lines(out)
		if len(ls) != len(xs) {
			fail("method", out, "the listing of %s has %d lines, there are %d routes", m, len(ls), len(xs))
			return
		}
		for i, l := range ls {
			k := c28method.FindStringSubmatch(l)
			if k == nil || k[1] != strconv.Itoa(xs[i].count()+before) || k[2] != xs[i].path() {
				fail("method", out, "line %d of the listing of %s is %q, expected %d handlers, %s", i, m, l, xs[i].count()+before, xs[i].path())
				return
			}
		}
	}
	rawTree := func() {
		out := list(e.PrintRawRouter)
		var exp []*c28node
		var depths []int
		var walk func(n *c28node, d int)
		walk = func(n *c28node, d int) {
			for _, x := range n.sub {
				exp = append(exp, x)
				depths = append(depths, d)
				walk(x, d+1)
			}
		}
		walk(root, 0)
		ls := lines(out)
		if len(exp) == 0 {
			noRoute(out, "the raw tree")
			return
		}
		if len(ls) != len(exp) {
			fail("raw", out, "the raw tree has %d lines, %d groups and routes are declared", len(ls), len(exp))
			return
		}
		for i, l := range ls {
			d, text, ok := c28tree(l)
			x := exp[i]
			if ok && x.method == "" {
				ok = text == x.pat
			} else if ok {
				m := c28raw.FindStringSubmatch(text)
				// the handlers every request passes first may be counted or not
				ok = m != nil && m[1] == x.pat && m[2] == x.method && (m[3] == strconv.Itoa(x.count()) || m[3] == strconv.Itoa(x.count()+before))
			}
			if !ok || d != depths[i] {
				fail("raw", out, "line %d of the raw tree is %q, expected %q %s at depth %d with %d handlers", i, l, x.pat, x.method, depths[i], x.count())
				return
			}
		}
	}
	release := func(m string) {
		xs := ofMethod(m)
		out := list(func() { e.PrintRouterTree(spell(m)) })
		if len(xs) == 0 {
			noRoute(out, "the tree of "+m)
			return
		}
		want := map[string]int{}
		for _, x := range xs {
			k := ""
			for _, s := range parsePattern(x.path()) {
				k += "/" + s.text
			}
			want[k] = x.count() + before
		}
		got := map[string]int{}
		var stack []string
		leaves := map[int]int{} // inner lines without a leaf below them, by depth
		for _, l := range lines(out) {
			d, text, ok := c28tree(l)
			if !ok {
				if k := c28leaf.FindStringSubmatch(l); k != nil && k[1] == "/" {
					got["/"] += 1000000
					got["/"], _ = strconv.Atoi(k[2])
					continue
				}
				fail("tree", out, "a line of the tree of %s cannot be read: %q", m, l)
				return
			}
			if d > len(stack) {
				fail("tree", out, "a line of the tree of %s has no parent: %q", m, l)
				return
			}
			stack = stack[:d]
			if k := c28leaf.FindStringSubmatch(text); k != nil {
				full := "/" + strings.Join(append(append([]string{}, stack...), k[1]), "/")
				if _, twice := got[full]; twice {
					fail("tree", out, "the tree of %s shows %s twice", m, full)
					return
				}
				got[full], _ = strconv.Atoi(k[2])
				c.Count("tree_leaves", 1)
			} else {
				stack = append(stack, text)
				leaves[d]++
			}
		}
		if len(got) != len(want) {
			fail("tree", out, "the tree of %s has %d leaves, there are %d routes", m, len(got), len(want))
			return
		}
		for k, n := range want {
			if g, ok := got[k]; !ok || g != n {
				fail("tree", out, "the tree of %s has %s with %d handlers (there: %v), expected %d", m, k, g, ok, n)
				return
			}
		}
	}
	todo := []func(){full, rawTree}
	for _, m := range methods {
		m := m
		todo = append(todo, func() { perMethod(m) }, func() { release(m) })
	}
	for r.Pct(50) {
		todo = append(todo, pick(r, todo)) // some twice
	}
	r.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
	for _, f := range todo {
		f()
		if c.Failed() {
			return
		}
	}
	same("after")
	c.Sample(func() any { return map[string]any{"declared": decl(), "tree": list(e.PrintRawRouter)} })
}
