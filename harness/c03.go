package main

import (
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C03", Quick: 10000, Thor: 250000,
		Rule: "a case builds two engines from one generated router, static-route option on and off, and sends both the same request sequence (in the same order, so pooled contexts see the same history); everything observed is compared. Non-trivial: the path is a fully literal registered route, or was preceded by a request with parameters.",
		Need: []string{"requests", "static_hits", "param_then_static", "panics", "notfound", "double_slashes"},
		Case: c03})
	register(&Prop{ID: "C04", Quick: 8000, Thor: 150000, Serial: true,
		Rule: "a case is a generated table over all methods (ANY included, exclusion list varied) and requests with supported, unknown and odd methods, old protocol versions and the '*' target; which handlers ran and the status are compared with the property. Non-trivial: distinct (method, protocol, target kind, registered methods) combinations.",
		Need: []string{"requests", "refused_405", "refused_406", "served", "other_method_only", "any_routes"},
		Case: c04})
}

type fullObs struct {
	Trace  []string
	Params map[string]string
	Full   []string
	Env    []string
	Status int
	Body   string
	Head   string
	Panic  string
}

// obsHandler appends to the request's trace.
func obsHandler(name string, act int) func(*water.Context) {
	return func(c *water.Context) {
		o := Val(c.Request, "full").(*fullObs)
		o.Trace = append(o.Trace, fmt.Sprintf("%s w=%v s=%d", name, c.Written(), c.Status()))
		for k, v := range c.Params {
			if o.Params == nil {
				o.Params = map[string]string{}
			}
			o.Params[k] = v
		}
		o.Full = append(o.Full, c.FullPath())
		for k := range c.Environ {
			o.Env = append(o.Env, k)
		}
		sort.Strings(o.Env)
		c.Set(name+"#"+fmt.Sprint(len(o.Trace)), 1)
		switch act {
		case 1:
			c.String(201, name+" "+fmt.Sprint(len(c.Params))+" "+c.FullPath())
		case 2:
			c.Next()
			o.Trace = append(o.Trace, "after "+name)
		case 3:
			panic("boom " + name)
		case 4:
			c.Write([]byte(name))
		case 5:
			keys := []string{}
			for k, v := range c.Params {
				keys = append(keys, k+"="+v)
			}
			sort.Strings(keys)
			c.JSON(200, keys)
		case 6: // the parameters are the request's own to extend
			c.Params["own"] = name
			c.Next()
			o.Trace = append(o.Trace, "left "+c.Params["own"])
		}
	}
}

func observe(e http.Handler, method, path string, noise uint64, rts []*rt) (o *fullObs) {
	o = &fullObs{}
	rec := NewRec()
	p, bad := try(func() {
		q := Noise(newR(noise, "C03", 0), Req(method, path), rts...)
		e.ServeHTTP(rec, With(q, "full", o))
	})
	if bad {
		o.Panic = fmt.Sprint(p)
	}
	o.Status = rec.Status()
	o.Body = rec.Body.String()
	o.Head = fmt.Sprint(rec.Head, rec.Codes)
	return
}

func c03(c *C) {
	r := c.R
	rts, lits := genTable(r, 14, true)
	if r.Pct(60) { // more literal routes
		for i := r.Rng(1, 6); i > 0; i-- {
			p := ""
			for k := r.Rng(1, 3); k > 0; k-- {
				p += "/" + pick(r, lits)
			}
			dup := false
			for _, t := range rts {
				dup = dup || t.Pat == p && t.Method == "GET"
			}
			if !dup {
				rts = append(rts, newRt("GET", p, len(rts)))
			}
		}
	}
	if r.Pct(20) { // as joined from groups that end with a slash
		for i, t := range rts {
			segs := strings.Split(t.Pat, "/")
			if k := r.IntN(len(segs)); k > 0 && t.Pat != "/" && r.Pct(60) {
				p := strings.Join(segs[:k], "/") + strings.Repeat("/", r.Rng(2, 4)) + strings.Join(segs[k:], "/")
				rts[i] = newRt(t.Method, p, t.ID)
				c.Count("double_slashes", 1)
			}
		}
	}
	tab := newTable(rts)
	root := water.NewRouter()
	if r.Pct(30) {
		root.Before(obsHandler("gb", pick(r, []int{0, 2})))
	}
	for i := r.IntN(3); i > 0; i-- {
		root.Use(obsHandler(fmt.Sprintf("mw%d", i), pick(r, []int{0, 0, 2, 2, 1})))
	}
	mount(r, root, rts, func(t *rt) []interface{} {
		var hs []interface{}
		for i := r.Rng(1, 3); i > 0; i-- {
			hs = append(hs, obsHandler(fmt.Sprintf("r%d.%d", t.ID, i), pick(r, []int{0, 0, 1, 2, 3, 4, 5, 6})))
		}
		return hs
	})
	var opts []water.Option
	if r.Pct(30) {
		opts = append(opts, water.WithNoFoundHandlers(obsHandler("nf", pick(r, []int{0, 1, 4}))))
	}
	var on, off *water.Engine
	if p, bad := try(func() {
		on = root.Handler(append([]water.Option{water.WithStaticRouter(true)}, opts...)...)
		off = root.Handler(append([]water.Option{water.WithStaticRouter(false)}, opts...)...)
	}); bad {
		c.Fail("build", "a well-formed table did not build: %v\n%s", p, tableString(rts))
		return
	}
	prevParams := false
	hist := ""
	for i := 0; i < 25; i++ {
		path := genPath(r, tab, lits)
		if r.Pct(40) { // exactly a literal route
			t := pick(r, rts)
			lit := true
			for _, s := range t.segs {
				lit = lit && s.kind == kLit
			}
			if lit {
				path = t.Pat
				if r.Pct(15) {
					path = r.Str(path+"/", path+"//", "/"+path, path+"/.", strings.ToLower(path), path[1:])
				}
			}
		}
		if r.Pct(20) {
			path = strings.ReplaceAll(path, "//", "/")
		}
		m := pick(r, rts).Method
		hist += m + " " + fmt.Sprintf("%q", path) + "\n"
		noise := r.Uint64()
		a, b := observe(on, m, path, noise, rts), observe(off, m, path, noise, rts)
		c.Eval()
		c.Count("requests", 1)
		stat := false
		for _, t := range rts {
			if t.Method == m && t.Pat == path && !strings.ContainsAny(path, "<*:") {
				stat = true
			}
		}
		if stat {
			c.Count("static_hits", 1)
			c.Seen(m, path, prevParams, tableString(rts))
			if prevParams {
				c.Count("param_then_static", 1)
			}
		}
		if a.Panic != "" {
			c.Count("panics", 1)
		}
		if a.Status == 404 {
			c.Count("notfound", 1)
		}
		prevParams = len(a.Params) > 0
		if !reflect.DeepEqual(a, b) {
			c.Fail("differs", "%s %q\n on: %+v\noff: %+v\nhistory:\n%stable:\n%s", m, path, a, b, hist, tableString(rts))
			return
		}
		c.Sample(func() any { return map[string]any{"request": m + " " + path, "both": a} })
	}
}

func c04(c *C) {
	r := c.R
	excl := water.MethodAnyExclude
	defer func() { water.MethodAnyExclude = excl }()
	ex := []string{"HEAD", "OPTIONS"}
	if r.Pct(40) {
		ex = nil
		for _, m := range methods {
			if r.Pct(35) {
				ex = append(ex, m)
			}
		}
		water.MethodAnyExclude = ex
	}
	rts0, lits := genTable(r, 8, true)
	// some routes are registered for any method
	root := water.NewRouter()
	before := r.Pct(30)
	ran := func(name string) func(*water.Context) {
		return func(c *water.Context) {
			o := Val(c.Request, "full").(*fullObs)
			o.Trace = append(o.Trace, name)
		}
	}
	if before {
		root.Before(ran("before"))
	}
	if r.Pct(30) {
		root.Use(ran("use"))
	}
	var rts []*rt
	seen := map[string]bool{}
	for _, t := range rts0 {
		ms := []string{t.Method}
		reg := t.Method
		if r.Pct(40) {
			reg = "ANY"
			ms = nil
			for _, m := range []string{"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"} {
				skip := false
				for _, x := range ex {
					skip = skip || x == m
				}
				if !skip {
					ms = append(ms, m)
				}
			}
		}
		dup := false
		for _, m := range ms {
			dup = dup || seen[m+t.Pat]
		}
		if dup {
			continue
		}
		if reg == "ANY" {
			c.Count("any_routes", 1)
		}
		for _, m := range ms {
			seen[m+t.Pat] = true
			rts = append(rts, newRt(m, t.Pat, len(rts)))
		}
		id := t.ID
		addRoute(root, reg, t.Pat, []interface{}{func(c *water.Context) {
			o := Val(c.Request, "full").(*fullObs)
			o.Trace = append(o.Trace, fmt.Sprintf("route %d %s", id, c.FullPath()))
			c.WriteHeader(299)
		}})
	}
	nf := r.Pct(40)
	opts := []water.Option{water.WithStaticRouter(r.Pct(50))}
	if nf {
		opts = append(opts, water.WithNoFoundHandlers(ran("nf")))
	}
	var eng *water.Engine
	if p, bad := try(func() { eng = root.Handler(opts...) }); bad {
		c.Fail("build", "a well-formed table did not build: %v\n%s", p, tableString(rts))
		return
	}
	tab := newTable(rts)
	odd := []string{"TRACE", "CONNECT", "PROPFIND", "get", "Get", "GETX", "POS", "LINK", "PURGE", "head", "M-SEARCH", "options", "QUERY", "G"}
	for i := 0; i < 30; i++ {
		m := pick(r, methods)
		if r.Pct(30) {
			m = pick(r, odd)
		}
		path := genPath(r, tab, lits)
		if len(rts) > 0 && r.Pct(60) {
			path = pick(r, rts).instance(r, lits)
		}
		req := Noise(r, Req(m, path), rts...)
		old, star := false, false
		kind := "1.1"
		switch x := r.IntN(20); x {
		case 0, 1:
			req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/1.0", 1, 0
			old, kind = true, "1.0"
		case 2:
			req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/0.9", 0, 9
			old, kind = true, "0.9"
		case 3:
			req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
			kind = "2.0"
		case 4:
			req.RequestURI = "*"
			if r.Pct(50) {
				req.URL.Path = "*"
			}
			star, kind = true, "*"
		case 5:
			req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/1.2", 1, 2
		case 6:
			req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/0.2", 0, 2
			old, kind = true, "0.2"
		}
		o := &fullObs{}
		rec := Serve(eng, With(req, "full", o))
		c.Eval()
		c.Count("requests", 1)
		st := rec.Status()
		known := false
		for _, x := range methods {
			known = known || x == m
		}
		desc := func() string {
			return fmt.Sprintf("%s %q %s target %q: status %d trace %q; exclude %q nf=%v before=%v\n%s", m, req.URL.Path, req.Proto, req.RequestURI, st, o.Trace, ex, nf, before, tableString(rts))
		}
		c.Seen(m, kind, len(rts), nf, before, st)
		if old || star || m == "CONNECT" {
			c.Count("refused_406", 1)
			if st != 406 && !(st == 405 && !known && m != "CONNECT") || len(o.Trace) != 0 || len(rec.Codes) != 1 {
				c.Fail("406", "expected 406 and no handler: %s", desc())
				return
			}
			continue
		}
		if !known {
			c.Count("refused_405", 1)
			if st != 405 || len(o.Trace) != 0 || len(rec.Codes) != 1 {
				c.Fail("405", "expected 405 and no handler: %s", desc())
				return
			}
			continue
		}
		want, _ := tab.best(m, req.URL.Path)
		n := 0
		for _, t := range o.Trace {
			if strings.HasPrefix(t, "route ") {
				n++
			}
		}
		if want == nil {
			if len(rts) > 0 {
				ps := splitPath(req.URL.Path)
				for _, t := range rts {
					if t.matches(ps) {
						c.Count("other_method_only", 1)
						break
					}
				}
			}
			if n != 0 || !nf && (st != 404 || len(o.Trace) != 0) {
				c.Fail("method", "no route of this method, expected not found: %s", desc())
				return
			}
			continue
		}
		c.Count("served", 1)
		last := ""
		if len(o.Trace) > 0 {
			last = o.Trace[len(o.Trace)-1]
		}
		own := false // whichever matching route is the best is C01's business
		for _, t := range rts {
			own = own || t.Method == m && strings.HasSuffix(last, " "+t.Pat) && t.matches(splitPath(req.URL.Path))
		}
		if n != 1 || st != 299 || !own {
			c.Fail("method", "expected a route (like %q) registered for %s: %s", want.Pat, m, desc())
			return
		}
		c.Sample(func() any { return desc() })
	}
}
