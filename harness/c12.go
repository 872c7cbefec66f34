package main

import (
	"fmt"
	"net/http"
	"reflect"
	"slices"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C12", Quick: 80000, Thor: 1500000,
		Rule: "a case is a generated CORS configuration placed on the root, before it, on a group or in front of not-found handlers, and a sequence of requests of all methods whose origins are configured ones, look-alikes of them (other scheme, port, case, prefix, suffix, null) or absent; headers, status and which later handlers ran are compared with the property. Non-trivial: an origin is sent and the configuration lists origins; distinct by configuration, origin and method.",
		Need: []string{"requests", "granted", "star", "denied", "no_origin", "preflights", "simple", "requested_headers_echoed", "configured_headers", "credentials", "max_age", "exposed", "notfound_chains", "left_unanswered", "slices_reused", "headers_edited", "long_lists", "many_requested", "varied_before"},
		Case: c12})
}

var c12origins = []string{"http://a.test", "https://a.test", "http://a.test:8080", "http://b.test", "http://A.test", "http://sub.a.test",
	"http://a.test.evil.test", "http://evil.test/http://a.test", "null", "http://a.tes", "http://a.testt", "chrome-extension://abc", "http://a.test/", "https://x*", "file://", "*x", "http://a.test,http://b.test", "http://a.test http://b.test"}

func splitList(vs []string) []string {
	var out []string
	for _, v := range vs {
		for _, x := range strings.Split(v, ",") {
			if x = strings.TrimSpace(x); x != "" {
				out = append(out, x)
			}
		}
	}
	return out
}

func c12(c *C) {
	r := c.R
	cfg := water.CORSConfig{}
	for i := r.IntN(4); i > 0; i-- {
		cfg.AllowOrigins = append(cfg.AllowOrigins, pick(r, c12origins))
	}
	if r.Pct(15) {
		cfg.AllowOrigins = append(cfg.AllowOrigins, "*")
		r.Shuffle(len(cfg.AllowOrigins), func(i, j int) {
			cfg.AllowOrigins[i], cfg.AllowOrigins[j] = cfg.AllowOrigins[j], cfg.AllowOrigins[i]
		})
	}
	for i := r.IntN(4); i > 0; i-- {
		cfg.AllowMethods = append(cfg.AllowMethods, pick(r, append(methods, "REPORT")))
	}
	for i := r.IntN(3); i > 0; i-- {
		cfg.AllowHeaders = append(cfg.AllowHeaders, pick(r, []string{"X-One", "Content-Type", "Authorization", "x-two"}))
	}
	for i := r.IntN(3); i > 0; i-- {
		cfg.ExposeHeaders = append(cfg.ExposeHeaders, pick(r, []string{"X-Out", "ETag", "Location"}))
	}
	if r.OneIn(150) { // long lists
		for i := r.Rng(10, 400); i > 0; i-- {
			cfg.AllowOrigins = append(cfg.AllowOrigins, fmt.Sprintf("%s://h%d.test", r.Str("http", "https"), i))
			if r.Pct(40) {
				cfg.AllowMethods = append(cfg.AllowMethods, fmt.Sprint("M", i))
			}
			if r.Pct(40) {
				cfg.AllowHeaders = append(cfg.AllowHeaders, fmt.Sprint("X-A", i))
			}
			if r.Pct(40) {
				cfg.ExposeHeaders = append(cfg.ExposeHeaders, fmt.Sprint("X-E", i))
			}
		}
		c.Count("long_lists", 1)
	}
	cfg.AllowCredentials = r.Pct(40)
	cfg.MaxAge = pick(r, []int{0, 0, -1, -86400, 1, 59, 600, 7200, 86400, 86401, 604800, 1<<31 - 1, 1 << 40})
	wantMethods := cfg.AllowMethods
	if len(wantMethods) == 0 {
		wantMethods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD"}
	}
	origins := cfg.AllowOrigins
	if len(origins) == 0 {
		origins = []string{"*"}
	}
	given := cfg
	given.AllowOrigins, given.AllowMethods = slices.Clone(cfg.AllowOrigins), slices.Clone(cfg.AllowMethods)
	given.AllowHeaders, given.ExposeHeaders = slices.Clone(cfg.AllowHeaders), slices.Clone(cfg.ExposeHeaders)
	mw := water.CORS(given)
	if r.Pct(30) { // the caller builds its next configuration in the same slices
		for _, l := range [][]string{given.AllowOrigins, given.AllowMethods, given.AllowHeaders, given.ExposeHeaders} {
			for i := range l {
				l[i] = pick(r, append(c12origins, "*"))
			}
		}
		c.Count("slices_reused", 1)
	}
	later := func(name string) func(*water.Context) {
		return func(x *water.Context) {
			t := tr(x.Request)
			t.ev = append(t.ev, name)
			if name == "end" && x.GetHeader("X-Quiet") == "" {
				if x.GetHeader("X-Edit") != "1" {
					x.Header().Add("Vary", "Accept")
				}
				x.String(201, "body")
				if x.GetHeader("X-Edit") != "" { // what it was handed is the request's own
					for _, vs := range x.Header() {
						for i := range vs[:cap(vs)] {
							vs[:cap(vs)][i] = "http://edited.test"
						}
					}
				}
			}
		}
	}
	root := water.NewRouter()
	place := r.IntN(4)
	before := r.Pct(25) // what varies besides
	if before {
		root.Before(func(x *water.Context) { x.Header().Add("Vary", "Accept-Language") })
		c.Count("varied_before", 1)
	}
	g := root
	path := "/x"
	var opts []water.Option
	switch place {
	case 0:
		root.Use(mw)
	case 1:
		root.Before(mw)
	case 2:
		path = "/g/x"
		g = root.Group("/g", func(x *water.Context) { mw(x) })
	case 3:
		root.Before(mw)
		path = "/nf"
		opts = append(opts, water.WithNoFoundHandlers(later("mid"), later("end")))
		c.Count("notfound_chains", 1)
	}
	for _, m := range methods {
		addRoute(g, m, "/x", []interface{}{later("mid"), later("end")})
	}
	eng := root.Handler(opts...)
	for k := r.Rng(2, 6); k > 0; k-- {
		origin := ""
		switch {
		case r.Pct(45) && len(cfg.AllowOrigins) > 0:
			origin = pick(r, cfg.AllowOrigins)
			if r.Pct(30) {
				o := origin
				origin = pick(r, []string{strings.ToUpper(o), o + ".evil", "x" + o, o + "/", o[:len(o)-1], " " + o, strings.Replace(o, "http", "https", 1)})
			}
		case r.Pct(85):
			origin = pick(r, c12origins)
		}
		method := pick(r, methods)
		if r.Pct(40) {
			method = "OPTIONS"
		}
		t := &trace{}
		q := With(Req(method, path), "trace", t)
		if origin != "" {
			q.Header.Set("Origin", origin)
		}
		reqHeaders := ""
		if r.Pct(50) {
			reqHeaders = pick(r, []string{"X-A", "x-a, X-B", "content-type,authorization"})
			if r.Pct(2) {
				reqHeaders += strings.Repeat(",x-"+r.Word(), r.Rng(50, 1500))
				c.Count("many_requested", 1)
			}
			q.Header.Set("Access-Control-Request-Headers", reqHeaders)
		}
		if r.Pct(50) {
			q.Header.Set("Access-Control-Request-Method", pick(r, methods))
		}
		quiet := r.Pct(10)
		if r.Pct(10) {
			q.Header.Set("X-Edit", r.Str("1", "2"))
			c.Count("headers_edited", 1)
		}
		if quiet {
			q.Header.Set("X-Quiet", "1")
		}
		rec := Serve(eng, q)
		c.Eval()
		c.Count("requests", 1)
		h := rec.Head
		if quiet && len(rec.Codes) == 0 && method != http.MethodOptions { // what net/http sends then
			h = rec.H
			c.Count("left_unanswered", 1)
		}
		where := fmt.Sprintf("%s %s Origin %q requested headers %q, config %+v, placed %d: status %d heads %v headers %v later %v", method, path, origin, reqHeaders, cfg, place, rec.Status(), rec.Codes, h, t.ev)
		bad := func(what string) { c.Fail(what, "%s: %s", what, where) }
		if h == nil {
			bad("unanswered")
			return
		}
		star, own := false, false
		for _, o := range origins {
			star = star || o == "*"
			own = own || origin != "" && o == origin
		}
		acao := h["Access-Control-Allow-Origin"]
		switch {
		case len(acao) > 1:
			bad("several allowed origins")
			return
		case star || own:
			if len(acao) != 1 || !(star && acao[0] == "*" || own && acao[0] == origin) {
				bad("allowed origin")
				return
			}
			c.Count("granted", 1)
			if star {
				c.Count("star", 1)
			}
		default:
			if len(acao) == 1 && acao[0] != "" {
				bad("granted to a foreign origin")
				return
			}
			c.Count("denied", 1)
		}
		if origin == "" {
			c.Count("no_origin", 1)
		}
		vary := false
		for _, v := range splitList(h["Vary"]) {
			vary = vary || strings.EqualFold(v, "Origin") || v == "*"
		}
		if !vary {
			bad("no Vary: Origin")
			return
		}
		if before && !slices.Contains(splitList(h["Vary"]), "Accept-Language") && q.Header.Get("X-Edit") == "" {
			bad("the Vary of an earlier handler is gone")
			return
		}
		cred := h["Access-Control-Allow-Credentials"]
		if cfg.AllowCredentials && (len(cred) != 1 || cred[0] != "true") || !cfg.AllowCredentials && len(cred) > 0 {
			bad("credentials")
			return
		}
		if cfg.AllowCredentials {
			c.Count("credentials", 1)
		}
		if method == http.MethodOptions {
			c.Count("preflights", 1)
			if rec.Status() != 204 || len(rec.Codes) != 1 || rec.Body.Len() > 0 || len(t.ev) > 0 {
				bad("preflight answer")
				return
			}
			if got := splitList(h["Access-Control-Allow-Methods"]); !reflect.DeepEqual(got, wantMethods) {
				bad("allowed methods")
				return
			}
			got := splitList(h["Access-Control-Allow-Headers"])
			want := cfg.AllowHeaders
			if len(want) == 0 {
				want = splitList([]string{reqHeaders})
				if len(want) > 0 {
					c.Count("requested_headers_echoed", 1)
				}
			} else {
				c.Count("configured_headers", 1)
			}
			if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
				bad("allowed headers")
				return
			}
			ma := h["Access-Control-Max-Age"]
			if cfg.MaxAge > 0 && (len(ma) != 1 || ma[0] != strconv.Itoa(cfg.MaxAge)) || cfg.MaxAge <= 0 && len(ma) > 0 {
				bad("max age")
				return
			}
			if cfg.MaxAge > 0 {
				c.Count("max_age", 1)
			}
		} else {
			c.Count("simple", 1)
			status, body := 201, "body"
			if quiet {
				status, body = 200, ""
			}
			if rec.Status() != status || rec.Body.String() != body || !reflect.DeepEqual(t.ev, []string{"mid", "end"}) {
				bad("later handlers")
				return
			}
			got := splitList(h["Access-Control-Expose-Headers"])
			if len(got) != len(cfg.ExposeHeaders) || len(got) > 0 && !reflect.DeepEqual(got, cfg.ExposeHeaders) {
				bad("exposed headers")
				return
			}
			if len(got) > 0 {
				c.Count("exposed", 1)
			}
			if len(h["Access-Control-Max-Age"])+len(h["Access-Control-Allow-Methods"]) > 0 {
				bad("preflight headers on a simple request")
				return
			}
		}
		if origin != "" && len(cfg.AllowOrigins) > 0 {
			c.Seen(fmt.Sprintf("%+v", cfg), origin, method, place)
		}
		c.Sample(func() any { return where })
	}
}
