package main

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C11", Quick: 50000, Thor: 1000000,
		Rule: "a case is a generated table (with middlewares, groups, before-handlers and a not-found configuration of scripted handlers in every form) and requests of all methods, most of them unmatched; handler events, what they see and the answer are compared with the chain model. Non-trivial: an unmatched request whose path shares a prefix with a route or matches one of another method; distinct by path, method and configuration.",
		Need: []string{"requests", "unmatched", "bare_404", "handled", "other_method_match", "no_route_of_method", "befores_run", "implicit_200", "no_routes", "after_param_request", "wire", "long_chains"},
		Case: c11})
}

func c11(c *C) {
	r := c.R
	rts, lits := genTable(r, 8, true)
	if r.Pct(4) { // an engine without any route
		rts = nil
		c.Count("no_routes", 1)
	}
	tab := newTable(rts)
	root := water.NewRouter()
	var ss []script
	mkScript := func() script {
		var s script
		asked := false
		for k := r.IntN(3); k > 0; k-- {
			switch r.IntN(5) {
			case 0, 1:
				if !asked {
					s = append(s, op{k: 'n'})
					asked = true
				}
			case 2:
				s = append(s, op{'h', r.Rng(200, 599)})
			case 3:
				s = append(s, op{'w', 0})
			}
		}
		return s
	}
	note := func(x *water.Context, q *http.Request, i int) *trace {
		t := tr(q)
		t.ev = append(t.ev, fmt.Sprintf("+%d", i))
		if x != nil {
			if len(x.Params) != 0 || x.FullPath() != "" {
				t.self = append(t.self, fmt.Sprintf("handler %d sees params %v, route %q", i, x.Params, x.FullPath()))
			}
			if _, bad := try(func() { x.Param("id") }); !bad {
				t.self = append(t.self, "Param of an absent name did not panic")
			}
			if len(x.Environ) != t.n {
				t.self = append(t.self, fmt.Sprintf("handler %d sees %d stored values", i, len(x.Environ)))
			}
			x.Set(fmt.Sprint("k", i), i)
			t.n++
		}
		return t
	}
	mk := func(i int) interface{} {
		s := ss[i]
		hasNext := false
		for _, o := range s {
			hasNext = hasNext || o.k == 'n'
		}
		water0 := func(x *water.Context) {
			t := note(x, x.Request, i)
			for _, o := range s {
				switch o.k {
				case 'n':
					t.ev = append(t.ev, fmt.Sprintf("%d asks w=%v", i, x.Written()))
					x.Next()
					t.ev = append(t.ev, fmt.Sprintf("%d back w=%v", i, x.Written()))
				case 'h':
					x.WriteHeader(o.code)
				case 'w':
					x.Write([]byte(fmt.Sprint("w", i)))
				}
			}
			t.ev = append(t.ev, fmt.Sprintf("-%d", i))
		}
		if !hasNext && r.Pct(30) {
			std := func(w http.ResponseWriter, q *http.Request) {
				t := note(nil, q, i)
				for _, o := range s {
					if o.k == 'h' {
						w.WriteHeader(o.code)
					} else {
						w.Write([]byte(fmt.Sprint("w", i)))
					}
				}
				t.ev = append(t.ev, fmt.Sprintf("-%d", i))
			}
			if r.Pct(50) {
				return http.HandlerFunc(std)
			}
			return std
		}
		switch r.IntN(3) {
		case 0:
			return water.HandlerFunc(water0)
		case 1:
			return water.WrapHandler(water0)
		}
		return water0
	}
	nb := r.IntN(3)
	nn := r.IntN(4)
	if r.OneIn(60) { // long ones
		nb, nn = r.Rng(4, 40), r.Rng(1, 40)
		c.Count("long_chains", 1)
	}
	for i := 0; i < nb+nn; i++ {
		ss = append(ss, mkScript())
	}
	for i := 0; i < nb; i++ {
		root.Before(mk(i))
	}
	// middlewares and route handlers: they must not run
	foreign := func(name string) func(*water.Context) {
		return func(x *water.Context) {
			t := tr(x.Request)
			t.ev = append(t.ev, name)
			if name == "route" {
				t.self = nil // a matched request is not judged here
				x.WriteHeader(204)
			}
		}
	}
	if r.Pct(60) {
		root.Use(foreign("mw"))
	}
	mount(r, root, rts, func(t *rt) []interface{} { return []interface{}{foreign("route")} })
	opts := []water.Option{water.WithStaticRouter(r.Pct(50))}
	if nn > 0 {
		var hs []interface{}
		for i := nb; i < nb+nn; i++ {
			hs = append(hs, mk(i))
		}
		opts = append(opts, water.WithNoFoundHandlers(hs...))
		if r.Pct(20) { // the caller's slice is the caller's
			for i := range hs {
				hs[i] = foreign("reused")
			}
		}
	}
	if r.Pct(50) {
		opts[0], opts[len(opts)-1] = opts[len(opts)-1], opts[0]
	}
	eng := root.Handler(opts...)
	m := &chainModel{ss: ss, started: make([]int, len(ss))}
	wantStatus, wantBody := 0, ""
	if nn > 0 {
		m.run()
		// the statuses and bytes in execution order
		wantStatus, wantBody = c11answer(ss)
	}
	hadParams := false
	for k := r.Rng(3, 8); k > 0; k-- {
		method := pick(r, methods)
		path := genPath(r, tab, lits)
		if path == "*" {
			continue
		}
		best, _ := tab.best(method, path)
		t := &trace{}
		q := With(Noise(r, Req(method, path), rts...), "trace", t)
		rec := NewRec()
		p, bad := try(func() { eng.ServeHTTP(rec, q) })
		c.Count("requests", 1)
		where := fmt.Sprintf("%s %q, %d before-handlers, %d not-found handlers, scripts %v, table:\n%s", method, path, nb, nn, ss, tableString(rts))
		if bad {
			c.Fail("panic", "panic %v: %s", p, where)
			return
		}
		if best != nil {
			hadParams = hadParams || len(best.params(splitPath(path))) > 0
			continue
		}
		c.Eval()
		c.Count("unmatched", 1)
		if hadParams {
			c.Count("after_param_request", 1)
		}
		other, anyRoute := false, false
		for _, mm := range methods {
			if b, _ := tab.best(mm, path); b != nil {
				other = true
			}
		}
		for _, x := range rts {
			anyRoute = anyRoute || x.Method == method
		}
		if other {
			c.Count("other_method_match", 1)
		}
		if !anyRoute {
			c.Count("no_route_of_method", 1)
		}
		if other || anyRoute {
			c.Seen(method, path, nb, nn, fmt.Sprint(ss))
		}
		if len(t.self) > 0 {
			c.Fail("view", "%s: %s", strings.Join(t.self, "; "), where)
			return
		}
		if nn == 0 {
			if len(t.ev) > 0 || rec.Status() != 404 || len(rec.Codes) != 1 || rec.Body.Len() > 0 || len(rec.H) > 0 {
				c.Fail("bare", "events %v, heads %v, headers %v, body %q: %s", t.ev, rec.Codes, rec.H, rec.Body.String(), where)
				return
			}
			c.Count("bare_404", 1)
			continue
		}
		if !reflect.DeepEqual(t.ev, m.ev) {
			c.Fail("chain", "events %v, expected %v: %s", t.ev, m.ev, where)
			return
		}
		want := wantStatus
		if want == 0 {
			want = 200
			c.Count("implicit_200", 1)
		}
		if rec.Status() != want || rec.Body.String() != wantBody || len(rec.Codes) > 1 {
			c.Fail("answer", "status %d heads %v body %q, expected %d %q: %s", rec.Status(), rec.Codes, rec.Body.String(), want, wantBody, where)
			return
		}
		c.Count("handled", 1)
		if nb > 0 {
			c.Count("befores_run", 1)
		}
		c.Sample(func() any {
			return map[string]any{"request": method + " " + path, "events": t.ev, "status": rec.Status(), "table": tableString(rts)}
		})
	}
	// over a connection as well
	if c.N%40 == 0 {
		srv := Listen(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { eng.ServeHTTP(w, With(q, "trace", &trace{})) }))
		defer srv.Close()
		path := "/none/such/" + r.Word() + "/at/all/x/y/z"
		if b, _ := tab.best("GET", path); b == nil {
			res := srv.Get("GET", path)
			c.Eval()
			c.Count("wire", 1)
			want, body := 404, ""
			if nn > 0 {
				want, body = wantStatus, wantBody
				if want == 0 {
					want = 200
				}
				if want == 204 || want == 304 {
					body = ""
				}
			}
			if res.Err != nil || res.Status != want || string(res.Body) != body {
				c.Fail("wire", "GET %s: %v, expected %d %q, scripts %v", path, res, want, body, ss)
			}
		}
	}
}

// c11answer runs the scripts for their visible effect.
func c11answer(ss []script) (status int, body string) {
	idx := 0
	var run func()
	run = func() {
		for idx < len(ss) {
			i := idx
			for _, o := range ss[i] {
				switch o.k {
				case 'n':
					idx++
					run()
				case 'h':
					if status == 0 {
						status = o.code
					}
				case 'w':
					if status == 0 {
						status = 200
					}
					body += fmt.Sprint("w", i)
				}
			}
			idx++
			if status != 0 {
				return
			}
		}
	}
	run()
	return
}
