package main

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C05", Quick: 20000, Thor: 500000,
		Rule: "a case is a generated tree of groups with middlewares attached in every way (Use before, between and after routes, arguments of Group, Before on the root) in every handler form; each route is requested and the recorded chain compared with a model of the declaration. Non-trivial: the expected chain has a middleware of a group; distinct by chain shape.",
		Need: []string{"requests", "group_arg_mw", "late_use", "nested_groups", "before", "outside_routes", "http_handler_forms", "shared_slices", "equal_groups", "deep_groups", "many_middlewares", "repeated"},
		Case: c05})
	register(&Prop{ID: "C06", Quick: 40000, Thor: 1000000,
		Rule: "a case is a chain of scripted handlers (write head/body, ask for next, return, up to 130 handlers) executed by the real engine and by an executable model; start/end events are compared. Non-trivial: at least one Next and one other event; distinct by script.",
		Need: []string{"requests", "next_calls", "stopped_by_write", "next_after_write", "next_at_end", "long_chains", "notfound_chains", "cancelled", "informational"},
		Case: c06})
}

// ---- C05

type trace struct {
	ev   []string
	self []string
	n    int
}

func tr(r *http.Request) *trace { return Val(r, "trace").(*trace) }

type structHandler struct{ name string }

func (h structHandler) ServeHTTP(c *water.Context) {
	t := tr(c.Request)
	t.ev = append(t.ev, h.name)
}

type ptrHandler struct{ name string }

func (h *ptrHandler) ServeHTTP(c *water.Context) {
	t := tr(c.Request)
	t.ev = append(t.ev, h.name)
}

type stdHandler struct{ name string }

func (h stdHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	t := tr(r)
	t.ev = append(t.ev, h.name)
}

// mwForm makes a handler of one of the supported forms.
func mwForm(r R, name string, forGroup bool, c *C) interface{} {
	rec := func(req *http.Request) {
		t := tr(req)
		t.ev = append(t.ev, name)
	}
	plain := func(c *water.Context) { rec(c.Request) }
	if forGroup {
		return plain
	}
	x := r.IntN(9)
	if x >= 4 && x <= 7 {
		c.Count("http_handler_forms", 1)
	}
	switch x {
	case 0:
		return water.HandlerFunc(plain)
	case 1:
		return structHandler{name}
	case 2:
		return &ptrHandler{name}
	case 3:
		return water.WrapHandler(plain)
	case 4:
		return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { rec(q) })
	case 5:
		return func(w http.ResponseWriter, q *http.Request) { rec(q) }
	case 6:
		return stdHandler{name}
	case 7:
		return water.WrapHandler(stdHandler{name})
	}
	return plain
}

type grp struct {
	parent *grp
	pat    string
	mws    []string
	rr     *water.Router
}

func (g *grp) path() string {
	if g.parent == nil {
		return g.pat
	}
	return g.parent.path() + g.pat
}

func (g *grp) stack() []string {
	if g == nil {
		return nil
	}
	return append(append([]string{}, g.parent.stack()...), g.mws...)
}

type c05route struct {
	g      *grp
	method string
	pat    string
	own    []string
}

func c05(c *C) {
	r := c.R
	n := 0
	name := func(k string) string { n++; return fmt.Sprintf("%s%d", k, n) }
	root := &grp{rr: water.NewRouter()}
	groups := []*grp{root}
	var routes []c05route
	var befores []string
	pats := map[string]bool{}
	decl := ""
	// slices of handlers with room to grow, extended for several routes and reused, as callers do
	var common []interface{}
	var commonNames []string
	if r.Pct(40) {
		common = make([]interface{}, 0, 8)
		for i := r.IntN(3); i > 0; i-- {
			nm := name("s")
			commonNames = append(commonNames, nm)
			common = append(common, mwForm(r, nm, false, c))
		}
	}
	grow := func() (hs []interface{}, names []string) {
		if common == nil || r.Pct(40) {
			return nil, nil
		}
		c.Count("shared_slices", 1)
		return common, append(names, commonNames...)
	}
	reuse := func(hs []interface{}) {
		if r.Pct(20) {
			nm := name("reused")
			for i := len(hs) - 1; i >= len(common) && i >= 0; i-- {
				hs[i] = mwForm(r, nm, false, c)
			}
		}
	}
	addR := func(g *grp) {
		m := pick(r, methods)
		if r.Pct(10) {
			m = "ANY"
		}
		p := fmt.Sprintf("/r%d", len(pats))
		pats[p] = true
		hs, own := grow()
		k := r.Rng(1, 3)
		if r.Pct(3) {
			k = r.Rng(10, 40)
		}
		for i := 0; i < k; i++ {
			nm := name("h")
			own = append(own, nm)
			hs = append(hs, mwForm(r, nm, false, c))
			for r.Pct(6) { // the same handler again
				own = append(own, nm)
				hs = append(hs, hs[len(hs)-1])
				c.Count("repeated", 1)
			}
		}
		if m == "ANY" {
			for _, mm := range []string{"GET", "POST", "DELETE", "PUT", "PATCH"} {
				routes = append(routes, c05route{g, mm, p, own})
			}
		} else {
			routes = append(routes, c05route{g, m, p, own})
		}
		addRoute(g.rr, m, p, hs)
		reuse(hs)
		decl += fmt.Sprintf("%s.%s(%s) %v\n", g.path(), m, p, own)
	}
	use := func(g *grp) {
		hs, names := grow()
		g.mws = append(g.mws, names...)
		k := r.Rng(1, 3)
		if r.OneIn(400) {
			k = r.Rng(20, 300)
			c.Count("many_middlewares", 1)
		}
		for i := k; i > 0; i-- {
			nm := name("m")
			g.mws = append(g.mws, nm)
			hs = append(hs, mwForm(r, nm, false, c))
			for r.Pct(6) {
				g.mws = append(g.mws, nm)
				hs = append(hs, hs[len(hs)-1])
				c.Count("repeated", 1)
			}
		}
		g.rr.Use(hs...)
		reuse(hs)
		decl += fmt.Sprintf("%q.Use -> %v\n", g.path(), g.mws)
		for _, t := range routes {
			if t.g == g {
				c.Count("late_use", 1)
				break
			}
		}
	}
	var sub func(g *grp, depth int) *grp
	fill := func(g *grp, depth int) {
		for i := r.Rng(1, 3); i > 0; i-- {
			switch r.IntN(4) {
			case 0:
				use(g)
			case 1, 2:
				addR(g)
			case 3:
				if depth < 4 {
					sub(g, depth+1)
				}
			}
		}
	}
	sub = func(g *grp, depth int) *grp {
		ng := &grp{parent: g, pat: fmt.Sprintf("/g%d", len(groups))}
		if r.Pct(15) {
			ng.pat = ""
		}
		if r.Pct(20) { // the pattern of a sibling, whose middlewares stay its own
			for _, o := range groups {
				if o.parent == g && r.Pct(60) {
					ng.pat = o.pat
					c.Count("equal_groups", 1)
					break
				}
			}
		}
		groups = append(groups, ng)
		if depth > 1 {
			c.Count("nested_groups", 1)
		}
		var args []interface{}
		type late struct{ f func() }
		for i := r.IntN(4); i > 0; i-- {
			if r.Pct(60) {
				nm := name("ga")
				args = append(args, mwForm(r, nm, true, c))
				// arguments are taken in order; a func(*Router) among them may Use in between
				args[len(args)-1] = wrapArg(args[len(args)-1])
				ng.pend(func() { ng.mws = append(ng.mws, nm) }, &args)
				c.Count("group_arg_mw", 1)
			} else {
				args = append(args, func(rr *water.Router) {
					ng.rr = rr
					fill(ng, depth)
				})
			}
		}
		// the model applies the arguments in the order the library is documented to
		conv := make([]interface{}, len(args))
		for i, a := range args {
			switch v := a.(type) {
			case argMW:
				conv[i] = v.f
			default:
				conv[i] = a
			}
		}
		// model effects of plain middlewares happen as the library walks the arguments: interleave by
		// registering them before/after the callbacks in the same order
		var order []func()
		for _, a := range args {
			switch v := a.(type) {
			case argMW:
				vv := v
				order = append(order, func() { vv.model() })
			}
		}
		if len(order) == len(args) { // no callbacks: simple
			for _, f := range order {
				f()
			}
			ng.rr = g.rr.Group(ng.pat, conv...)
		} else {
			// run the library one argument position at a time is impossible, so make each callback
			// first apply the model of the middlewares given before it
			var pending []func()
			for i, a := range args {
				switch v := a.(type) {
				case argMW:
					pending = append(pending, v.model)
				case func(*water.Router):
					ps := pending
					pending = nil
					cb := v
					conv[i] = func(rr *water.Router) {
						for _, f := range ps {
							f()
						}
						cb(rr)
					}
				}
			}
			ng.rr = g.rr.Group(ng.pat, conv...)
			for _, f := range pending {
				f()
			}
		}
		decl += fmt.Sprintf("group %q args=%d -> %v\n", ng.path(), len(args), ng.mws)
		return ng
	}
	if r.Pct(2) { // a long chain of groups
		g := root
		for i := r.Rng(8, 60); i > 0; i-- {
			ng := &grp{parent: g, pat: fmt.Sprintf("/g%d", len(groups))}
			groups = append(groups, ng)
			ng.rr = g.rr.Group(ng.pat)
			if r.Pct(70) {
				use(ng)
			}
			if r.Pct(30) {
				addR(ng)
			}
			g = ng
		}
		addR(g)
		c.Count("deep_groups", 1)
	}
	for i := r.Rng(2, 8); i > 0; i-- {
		g := pick(r, groups)
		switch r.IntN(8) {
		case 0, 1:
			use(g)
		case 2, 3:
			addR(g)
		case 4, 5:
			fill(sub(g, 1), 1)
		case 6:
			hs, names := grow()
			nm := name("b")
			befores = append(append(befores, names...), nm)
			hs = append(hs, mwForm(r, nm, false, c))
			root.rr.Before(hs...)
			reuse(hs)
			c.Count("before", 1)
		case 7:
			x := pick(r, groups)
			if x.rr != nil {
				addR(x)
			}
		}
	}
	addR(root)
	for _, g := range groups { // every group gets a route, also declared late
		if r.Pct(50) {
			addR(g)
		}
	}
	var eng *water.Engine
	if p, bad := try(func() { eng = root.rr.Handler(water.WithStaticRouter(r.Pct(50))) }); bad {
		c.Fail("build", "a well-formed configuration did not build: %v\n%s", p, decl)
		return
	}
	anyMW := len(befores) > 0
	for _, g := range groups {
		anyMW = anyMW || len(g.mws) > 0
	}
	for _, t := range routes {
		want := append(append(append([]string{}, befores...), t.g.stack()...), t.own...)
		x := &trace{}
		rec := Serve(eng, With(Noise(r, Req(t.method, t.g.path()+t.pat)), "trace", x))
		c.Eval()
		c.Count("requests", 1)
		if !reflect.DeepEqual(x.ev, want) {
			c.Fail("stack", "%s %s ran %v, expected %v (status %d)\n%s", t.method, t.g.path()+t.pat, x.ev, want, rec.Status(), decl)
			return
		}
		if len(t.g.stack()) > 0 {
			c.Seen(shape(want))
		}
		if anyMW && len(t.g.stack()) == 0 {
			c.Count("outside_routes", 1)
		}
		c.Sample(func() any { return map[string]any{"declaration": decl, "route": t.g.path() + t.pat, "ran": x.ev} })
	}
}

// argMW carries a middleware argument of Group with its model effect.
type argMW struct {
	f     interface{}
	model func()
}

func wrapArg(f interface{}) interface{} { return argMW{f: f} }

func (g *grp) pend(m func(), args *[]interface{}) {
	a := (*args)[len(*args)-1].(argMW)
	a.model = m
	(*args)[len(*args)-1] = a
}

func shape(w []string) string {
	return strings.Join(w, ",")
}

// ---- C06

type op struct {
	k    byte // 'n' next, 'h' write head, 'w' write body
	code int
}

type script []op

func (s script) String() string {
	o := ""
	for _, x := range s {
		o += string(x.k)
	}
	if o == "" {
		return "-"
	}
	return o
}

// model executes the scripts as the property describes.
type chainModel struct {
	ss      []script
	idx     int
	written bool
	ev      []string
	started []int
	skip    bool // reached behaviour the property leaves open
}

func (m *chainModel) run() {
	for m.idx < len(m.ss) {
		i := m.idx
		m.started[i]++
		m.ev = append(m.ev, fmt.Sprintf("+%d", i))
		for _, o := range m.ss[i] {
			switch o.k {
			case 'n':
				m.ev = append(m.ev, fmt.Sprintf("%d asks w=%v", i, m.written))
				m.idx++
				m.run()
				m.ev = append(m.ev, fmt.Sprintf("%d back w=%v", i, m.written))
			case 'i': // informational: the answer is still to come
			default:
				m.written = true
			}
		}
		m.ev = append(m.ev, fmt.Sprintf("-%d", i))
		m.idx++
		if m.written {
			return
		}
	}
}

func c06(c *C) {
	r := c.R
	n := r.Rng(1, 8)
	if r.Pct(6) {
		n = r.Rng(9, 130)
		if r.Pct(10) {
			n = r.Rng(131, 700)
		}
		c.Count("long_chains", 1)
	}
	ss := make([]script, n)
	pw, pn := r.Rng(0, 30), r.Rng(0, 70)
	if n > 8 {
		pw = r.Rng(0, 3)
	}
	for i := range ss {
		asked := false
		for k := r.IntN(4); k > 0; k-- {
			switch {
			case r.Pct(pw):
				ss[i] = append(ss[i], op{pick(r, []byte{'h', 'w'}), pick(r, []int{r.Rng(200, 230), r.Rng(200, 230), r.Rng(200, 599), r.Rng(400, 599)})})
			case r.Pct(4):
				ss[i] = append(ss[i], op{'i', pick(r, []int{100, 102, 103, 199})})
				c.Count("informational", 1)
			case r.Pct(pn):
				// asking twice is only defined when nothing is left after the first time (nobody answered)
				if !asked {
					ss[i] = append(ss[i], op{k: 'n'})
					asked = true
				}
			}
		}
	}
	m := &chainModel{ss: ss, started: make([]int, n)}
	m.run()
	// a second Next at the end, where the first one ran everything
	if !m.written && r.Pct(40) {
		for i := range ss {
			for _, o := range ss[i] {
				if o.k == 'n' && r.Pct(50) {
					for j := r.Rng(1, 3); j > 0; j-- {
						ss[i] = append(ss[i], op{k: 'n'})
					}
					break
				}
			}
		}
		m = &chainModel{ss: ss, started: make([]int, n)}
		m.run()
		c.Count("next_at_end", 1)
	}
	for i, k := range m.started {
		if k > 1 {
			panic(fmt.Sprintf("harness: model started %d %d times", i, k))
		}
	}
	mk := func(i int) func(*water.Context) {
		return func(cx *water.Context) {
			t := tr(cx.Request)
			t.ev = append(t.ev, fmt.Sprintf("+%d", i))
			for _, o := range ss[i] {
				switch o.k {
				case 'n':
					t.ev = append(t.ev, fmt.Sprintf("%d asks w=%v", i, cx.Written()))
					cx.Next()
					t.ev = append(t.ev, fmt.Sprintf("%d back w=%v", i, cx.Written()))
				case 'h', 'i':
					cx.WriteHeader(o.code)
				case 'w':
					cx.Write([]byte("x"))
				}
			}
			t.ev = append(t.ev, fmt.Sprintf("-%d", i))
		}
	}
	// the chain is split over Before, Use, group middlewares and the route, or runs as not-found chain
	root := water.NewRouter()
	nf := r.Pct(20)
	var opts []water.Option
	path := "/x"
	if nf {
		c.Count("notfound_chains", 1)
		k := r.IntN(n)
		for i := 0; i < k; i++ {
			root.Before(mk(i))
		}
		var hs []interface{}
		for i := k; i < n; i++ {
			hs = append(hs, mk(i))
		}
		root.GET("/x", func(*water.Context) {})
		opts = append(opts, water.WithNoFoundHandlers(hs...))
		path = "/y"
	} else {
		cut := []int{r.IntN(n), r.IntN(n), r.IntN(n)}
		for a := range cut {
			for b := range cut {
				if cut[a] < cut[b] {
					cut[a], cut[b] = cut[b], cut[a]
				}
			}
		}
		if cut[0] > cut[1] {
			cut[0], cut[1] = cut[1], cut[0]
		}
		if cut[1] > cut[2] {
			cut[1], cut[2] = cut[2], cut[1]
		}
		if cut[0] > cut[1] {
			cut[0], cut[1] = cut[1], cut[0]
		}
		for i := 0; i < cut[0]; i++ {
			root.Before(mk(i))
		}
		for i := cut[0]; i < cut[1]; i++ {
			root.Use(mk(i))
		}
		g := root.Group("/g")
		for i := cut[1]; i < cut[2]; i++ {
			g.Use(mk(i))
		}
		var hs []interface{}
		for i := cut[2]; i < n; i++ {
			hs = append(hs, mk(i))
		}
		g.GET("/x", hs...)
		path = "/g/x"
	}
	eng := root.Handler(opts...)
	// twice: the second request reuses a pooled context
	for k := 0; k < 2; k++ {
		t := &trace{}
		q := With(Req("GET", path), "trace", t)
		if r.Pct(15) || n > 60 && r.Pct(50) {
			q = q.WithContext(Gone(r, q.Context()))
			c.Count("cancelled", 1)
		}
		rec := Serve(eng, q)
		c.Eval()
		c.Count("requests", 1)
		if !reflect.DeepEqual(t.ev, m.ev) {
			c.Fail("chain", "scripts %v (nf=%v)\n got %v\nwant %v", ss, nf, t.ev, m.ev)
			return
		}
		if m.written != (len(rec.Codes) > 0) || len(rec.Codes) > 1 {
			c.Fail("chain", "scripts %v: heads %v, model answered=%v", ss, rec.Codes, m.written)
			return
		}
	}
	nn, ran := 0, 0
	for i := range ss {
		if m.started[i] == 0 {
			continue
		}
		ran++
		for _, o := range ss[i] {
			if o.k == 'n' {
				nn++
			}
		}
	}
	c.Count("next_calls", nn)
	if ran < n {
		c.Count("stopped_by_write", 1)
	}
	for _, e := range m.ev {
		if strings.HasSuffix(e, "asks w=true") {
			c.Count("next_after_write", 1)
		}
	}
	if nn > 0 && ran > 1 {
		c.Seen(fmt.Sprint(ss), nf)
	}
	c.Sample(func() any { return map[string]any{"scripts": fmt.Sprint(ss), "events": m.ev} })
}
