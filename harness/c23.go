package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C23", Quick: 100000, Thor: 2000000,
		Rule: "a case is a generated well-formed route table declared through nested groups with middlewares and options, which must build and whose every route must be reached by a request generated from its pattern (unless a better route takes them all); then the same table with exactly one configuration fault (of about fifty kinds, at a random place and nesting) declared or built inside a recovery, which must panic before any engine exists. Non-trivial: every fault; distinct by fault kind and pattern.",
		Need: []string{"good_tables", "routes_reached", "routes_shadowed", "faults", "duplicate", "nil handler", "unsupported handler", "no handlers", "slash", "brackets", "groups", "regexp", "root only", "options", "nested_fault", "empty_router", "joined_slashes", "many_handlers", "long_patterns"},
		Case: c23})
}

type c23faulty struct {
	kind string
	name string
	f    func(root, rr *water.Router) // rr is root or a group somewhere
	opt  func() water.Option          // fault in an option
	pre  string                       // group prefix of rr, fixed before
}

type c23iface interface{ Nothing() }

func c23ok(x *water.Context) {}

type c23value struct{ f func(x *water.Context) }

func (v c23value) ServeHTTP(x *water.Context) { v.f(x) }

type c23std struct{ x int }

func (v *c23std) ServeHTTP(http.ResponseWriter, *http.Request) {}

// c23forms is a route's own handler in one of the accepted forms, perhaps after others.
func c23forms(r R, t *rt) (hs []interface{}) {
	for k := r.IntN(5) - 2; k > 0; k-- {
		hs = append(hs, pick(r, []interface{}{c23ok, water.HandlerFunc(c23ok), c23value{c23ok}, &c23value{c23ok}, http.HandlerFunc(func(http.ResponseWriter, *http.Request) {}),
			func(http.ResponseWriter, *http.Request) {}, &c23std{}, water.WrapHandler(c23ok), water.Recovery()}))
	}
	h := routeHandler(t)
	switch r.IntN(6) {
	case 0:
		return append(hs, water.HandlerFunc(h))
	case 1:
		return append(hs, c23value{h})
	case 2:
		return append(hs, &c23value{h})
	case 3:
		return append(hs, water.WrapHandler(h))
	}
	return append(hs, h)
}

// c23fault makes one configuration fault. fresh is a literal no other pattern uses.
func c23fault(r R, rts []*rt, fresh string) c23faulty {
	h := []interface{}{c23ok}
	m := pick(r, methods)
	any := r.Pct(15)
	reg := func(rr *water.Router, pat string, hs []interface{}) {
		if any {
			rr.ANY(pat, hs...)
			return
		}
		addRoute(rr, m, pat, hs)
	}
	nilH := func() (string, interface{}) {
		switch r.IntN(5) {
		case 0:
			return "nil", nil
		case 1:
			return "nil func", (func(*water.Context))(nil)
		case 2:
			return "nil HandlerFunc", water.HandlerFunc(nil)
		case 3:
			return "nil http func", (func(http.ResponseWriter, *http.Request))(nil)
		}
		return "nil http.HandlerFunc", http.HandlerFunc(nil)
	}
	badH := func() (string, interface{}) {
		type odd struct{ A int }
		l := []interface{}{"GET", 7, func() {}, odd{}, &odd{}, func(*water.Context) error { return nil }, func(http.ResponseWriter) {}, []interface{}{c23ok}, map[string]int{}, c23iface(nil) == nil, func(water.Context) {}, []func(*water.Context){c23ok}}
		v := pick(r, l)
		return fmt.Sprintf("%T", v), v
	}
	hand := func() (string, string, interface{}) {
		if r.Pct(50) {
			n, v := nilH()
			return "nil handler", n, v
		}
		n, v := badH()
		return "unsupported handler", n, v
	}
	seg := fresh + r.Str("", "/"+fresh, "/<q9>", "/*")
	switch r.IntN(14) {
	case 0, 1: // the same pattern again
		o := pick(r, rts)
		for n := r.IntN(4); n > 0 && r.Pct(50); n-- { // with other handlers
			h = append(h, c23ok)
		}
		if o.Method != "HEAD" && o.Method != "OPTIONS" && r.Pct(25) {
			return c23faulty{kind: "duplicate", name: "ANY " + o.Pat, f: func(root, rr *water.Router) { root.ANY(o.Pat, h...) }}
		}
		return c23faulty{kind: "duplicate", name: o.Method + " " + o.Pat, f: func(root, rr *water.Router) {
			again := []*rt{o}
			mount(r, root, again, func(*rt) []interface{} { return h })
		}}
	case 2: // a handler among good ones
		kind, n, v := hand()
		hs := []interface{}{c23ok, c23ok}
		hs = hs[:r.IntN(3)]
		k := r.IntN(len(hs) + 1)
		hs = append(hs[:k:k], append([]interface{}{v}, hs[k:]...)...)
		return c23faulty{kind: kind, name: "route " + n, f: func(root, rr *water.Router) { reg(rr, "/"+seg, hs) }}
	case 3: // in a middleware
		kind, n, v := hand()
		where := r.IntN(5)
		return c23faulty{kind: kind, name: fmt.Sprint("middleware ", where, n), f: func(root, rr *water.Router) {
			switch where {
			case 0:
				root.Use(v)
			case 1:
				rr.Use(c23ok, v)
				reg(rr, "/"+seg, h)
			case 2:
				root.Before(v)
			case 3:
				if v == nil {
					v = 7
				}
				g := rr.Group("/"+fresh, func(g *water.Router) { g.Use(v, c23ok) })
				reg(g, "/x", h)
			default:
				g := rr.Group("/" + fresh)
				g.GET("/y", c23ok)
				g.Use(v) // after the route: still the group's
			}
		}}
	case 4: // group arguments
		n, v := badH()
		if r.Pct(30) {
			n, v = "nil", nil
		}
		return c23faulty{kind: "unsupported handler", name: "group argument " + n, f: func(root, rr *water.Router) { reg(rr.Group("/"+fresh, c23ok, v), "/x", h) }}
	case 5: // option
		if r.Pct(15) {
			return c23faulty{kind: "options", name: "no not-found handlers", opt: func() water.Option { return water.WithNoFoundHandlers() }}
		}
		kind, n, v := hand()
		if v == nil {
			kind, v = "unsupported handler", 3
		}
		return c23faulty{kind: kind, name: "option " + n, opt: func() water.Option { return water.WithNoFoundHandlers(c23ok, v) }}
	case 6: // no handlers
		return c23faulty{kind: "no handlers", name: "route without handlers", pre: "bare", f: func(root, rr *water.Router) { reg(rr, "/"+seg, nil) }}
	case 7: // slashes
		switch r.IntN(5) {
		case 0:
			return c23faulty{kind: "slash", name: "no leading", f: func(root, rr *water.Router) { reg(root, seg, h) }}
		case 1:
			return c23faulty{kind: "slash", name: "trailing", f: func(root, rr *water.Router) { reg(rr, "/"+seg+"/", h) }}
		case 2:
			return c23faulty{kind: "slash", name: "empty", f: func(root, rr *water.Router) { reg(root, "", h) }}
		case 3:
			return c23faulty{kind: "slash", name: "group root", f: func(root, rr *water.Router) { reg(root.Group("/"+fresh), "/", h) }}
		}
		return c23faulty{kind: "slash", name: "group without leading", f: func(root, rr *water.Router) { reg(root.Group(fresh), "/x", h) }}
	case 8, 9: // brackets
		b := r.Str("<id", "id>", "x<id>", "<id>x", "<id>-<b>", ">id<", "<a", "<id>.json", "v<id>", "<a><b>", "<<a>>", "<id ~ ^[0-9]+$", "x<id ~ ^a$>", "<id ~ ^a$>x", "<a>b<c>", "<id:int", "<", "<a:<b>>", "<a:int<b>>", "<a<b ~ x>", "<a:>b>")
		tail := r.Str("", "/x", "/<q9>", "/*")
		return c23faulty{kind: "brackets", name: b, f: func(root, rr *water.Router) { reg(rr, "/"+fresh+"/"+b+tail, h) }}
	case 10: // capture groups
		b := r.Str("<a ~ (a)(b)>", "<a,b ~ ^([a-z]+)$>", "<a,b ~ ^[a-z]+$>", "<a,b,c ~ (a)(b)>", "<a ~ ((a)b)>", "<a,b:int ~ (a)(b)(c)>", "<a,_ ~ (a)>", "<a, b ~ (?:a)(?:b)>", "<a ~ (?P<x>a)(?P<y>b)>")
		tail := r.Str("", "/x", "/<q9>", "/*")
		return c23faulty{kind: "groups", name: b, f: func(root, rr *water.Router) { reg(rr, "/"+fresh+"/"+b+tail, h) }}
	case 11: // not a regexp
		b := r.Str("<a ~ (>", "<a ~ [>", "<a ~ a)b>", "<a ~ *>", "<a ~ a{2,1}>", "<a ~ (?<!x)>", "<a,b ~ (a)(b>", "<a ~ \\>", "<a ~ [z-a]>", "<a ~ (?Q)>")
		tail := r.Str("", "/x", "/*")
		return c23faulty{kind: "regexp", name: b, f: func(root, rr *water.Router) { reg(rr, "/"+fresh+"/"+b+tail, h) }}
	case 12: // root only
		k := r.IntN(7)
		return c23faulty{kind: "root only", name: fmt.Sprint("operation ", k), f: func(root, rr *water.Router) {
			g := rr.Group("/" + fresh)
			g.GET("/x", c23ok)
			switch k {
			case 0:
				g.Before(c23ok)
			case 1:
				g.Handler()
			case 2:
				g.Classic()
			case 3:
				g.Static("/s", "/nowhere")
			case 4:
				g.StaticFile("/s", "/nowhere/x")
			case 5:
				g.StaticAdvance(&water.StaticOptions{Prefix: "/s", FileSystem: http.Dir("/nowhere")})
			case 6:
				g.Handler(water.WithStaticRouter(true))
			}
		}}
	}
	return c23faulty{kind: "options", name: "static without file system", f: func(root, rr *water.Router) { root.StaticAdvance(&water.StaticOptions{Prefix: "/" + fresh}) }}
}

func c23(c *C) {
	r := c.R
	max := 8
	if r.Pct(5) {
		max = 60
	}
	rts, lits := genTable(r, max, true)
	if r.OneIn(50) { // and very long ones
		for k := r.Rng(1, 3); k > 0; k-- {
			pat := "/long-" + fmt.Sprint(k) + strings.Repeat("y", r.Tail(1, 2000, 9000))
			for i := r.Tail(0, 50, 300); i > 0; i-- {
				pat += "/" + r.Str("a", "bcd", fmt.Sprintf("<p%d>", i), "*", fmt.Sprintf("<r%d ~ [a-z]+>", i))
			}
			rts = append(rts, newRt(pick(r, methods), pat, len(rts)))
		}
		c.Count("long_patterns", 1)
	}
	tab := newTable(rts)
	mws := r.Pct(30)
	build := func(fault *c23faulty) (*water.Engine, any, bool) {
		var e *water.Engine
		p, panicked := try(func() {
			root := water.NewRouter()
			if mws && (fault == nil || fault.pre != "bare") {
				root.Use(c23ok)
				if r.Pct(50) {
					root.Before(c23ok)
				}
			}
			at := -1
			if fault != nil {
				at = r.IntN(len(rts) + 1)
			}
			plant := func() {
				rr := root
				for r.Pct(40) {
					rr = rr.Group(r.Str("/g1", "", "/<g2>", "/g/h"))
					c.Count("nested_fault", 1)
				}
				if fault.f != nil {
					fault.f(root, rr)
				}
			}
			if r.Pct(20) {
				root.Group(r.Str("/empty", "", "/<e>"))
			}
			for i, t := range rts {
				if i == at {
					plant()
				}
				mount(r, root, []*rt{t}, func(t *rt) []interface{} { return c23forms(r, t) })
			}
			if at == len(rts) {
				plant()
			}
			var opts []water.Option
			if r.Pct(50) {
				opts = append(opts, water.WithStaticRouter(r.Pct(70)))
			}
			if r.Pct(20) {
				opts = append(opts, water.WithNoFoundHandlers(c23nf))
			}
			if fault != nil && fault.opt != nil {
				opts = append(opts, fault.opt())
			}
			e = root.Handler(opts...)
		})
		return e, p, panicked
	}
	c.Eval()
	e, p, panicked := build(nil)
	if panicked {
		c.Fail("refused", "a well-formed table did not build: %v\n%s", p, tableString(rts))
		return
	}
	c.Count("good_tables", 1)
	// every route is reached
	for _, t := range rts {
		reached := false
		for k := 0; k < 12 && !reached; k++ {
			path := t.instance(r, lits)
			if w, _ := tab.best(t.Method, path); w != t {
				continue
			}
			reached = true
			o := &obsRoute{id: -1}
			var rec *Rec
			if p, crashed := try(func() { rec = Serve(e, With(Req(t.Method, path), "obs", o)) }); crashed {
				c.Fail("serving", "serving %s %q panicked: %v\n%s", t.Method, path, p, tableString(rts))
				return
			}
			if o.id != t.ID || o.n != 1 {
				c.Fail("unreached", "%s %q did not reach %s but #%d (status %d)\n%s", t.Method, path, t, o.id, rec.Status(), tableString(rts))
				return
			}
		}
		if reached {
			c.Count("routes_reached", 1)
		} else {
			c.Count("routes_shadowed", 1)
		}
	}
	if r.Pct(10) { // below a group written with a trailing slash
		c.Count("joined_slashes", 1)
		root := water.NewRouter()
		var e *water.Engine
		pre := r.Str("/dd", "/d/e", "/<dd0>")
		at := strings.ReplaceAll(pre, "<dd0>", r.Word())
		if p, bad := try(func() {
			g := root.Group(pre + "/")
			for _, t := range rts {
				if t.Pat != "/" {
					mount(r, g, []*rt{t}, func(t *rt) []interface{} { return []interface{}{routeHandler(t)} })
				}
			}
			e = root.Handler(water.WithStaticRouter(r.Pct(50)))
		}); bad {
			c.Fail("refused", "the table did not build below the group %q: %v\n%s", pre+"/", p, tableString(rts))
			return
		}
		for _, t := range rts {
			path := t.instance(r, lits)
			if w, _ := tab.best(t.Method, path); w != t || t.Pat == "/" || strings.Trim(path, "/") == "" {
				continue
			}
			o := &obsRoute{id: -1}
			Serve(e, With(Req(t.Method, at+path), "obs", o))
			if o.id != t.ID {
				c.Fail("unreached", "%s %q did not reach %s below the group %q but #%d\n%s", t.Method, at+path, t, pre+"/", o.id, tableString(rts))
				return
			}
		}
	}
	if r.OneIn(200) { // very many handlers
		n, ran := r.Rng(250, 2500), 0
		hs := make([]interface{}, n)
		for i := range hs {
			hs[i] = func(x *water.Context) { ran++ }
		}
		c.Count("many_handlers", 1)
		if p, bad := try(func() {
			root := water.NewRouter()
			k, m := r.IntN(n), 0
			switch r.IntN(3) {
			case 0:
				root.Use(hs[:k]...)
			case 1:
				root.Before(hs[:k]...)
			default:
				m = k
				k = 0
			}
			g := root.Group("/g", hs[k:k+m]...)
			g.GET("/x", hs[k+m:]...)
			Serve(root.Handler(water.WithNoFoundHandlers(hs...)), Req("GET", "/g/x"))
		}); bad || ran != n {
			c.Fail("refused", "a route with %d handlers: %v, %d ran", n, p, ran)
		}
	}
	if r.Pct(3) { // nothing declared at all
		c.Count("empty_router", 1)
		if p, bad := try(func() {
			e := water.NewRouter().Handler()
			if rec := Serve(e, Req("GET", "/")); rec.Status() != 404 {
				c.Fail("empty", "an empty engine answers %d", rec.Status())
			}
		}); bad {
			c.Fail("empty", "a router without routes: %v", p)
		}
	}
	// one fault
	for k := 0; k < 3; k++ {
		f := c23fault(r, rts, "zz"+strings.Repeat("f", r.Rng(1, 3)))
		c.Eval()
		c.Count("faults", 1)
		c.Count(f.kind, 1)
		c.Seen(f.kind, f.name, len(rts))
		if _, _, panicked := build(&f); !panicked {
			c.Fail("accepted", "%s (%s) was not refused\n%s", f.kind, f.name, tableString(rts))
			return
		}
		c.Sample(func() any { return map[string]any{"fault": f.kind + ": " + f.name, "table": tableString(rts)} })
	}
}

func c23nf(x *water.Context) { x.WriteHeader(404) }
