package main

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C24", Quick: 3000, Thor: 60000,
		Rule: "a case is a history of declaring routes, groups and middlewares on one or two routers, building engines at many points (with options values shared between builds) and serving on any engine built so far; each request's middleware and handler trace, parameters, not-found handling and upload placement are compared with the model of the router at the moment that engine was built. In a concurrent phase every engine is served from its own goroutine while routers are changed and built further, under the race detector. Non-trivial: an engine served after its router changed; distinct by history shape.",
		Need: []string{"engines", "requests", "served_after_change", "absent_later_route", "rebuilt", "same_build_twice", "concurrent_requests", "built_while_serving", "notfound_handlers", "uploads", "different_limits", "shared_options", "later_middleware", "parallel_builds", "parallel_routers"},
		Case: c24})
}

type c24node struct {
	parent *c24node
	prefix string
	mws    []int
	rr     *water.Router
}
type c24route struct {
	node   *c24node
	method string
	pat    string // below the node
	id     int
	own    []int
}
type c24router struct {
	root   *water.Router
	top    *c24node
	nodes  []*c24node
	before []int
	routes []c24route
	have   map[string]bool
	ver    int
}
type c24want struct {
	trace []int
	full  string
}
type c24engine struct {
	e      *water.Engine
	routes map[string]c24want // method + path
	nf     []int              // trace of a request without a route
	limit  int
	ver    int
	of     *c24router
	static bool
}

type c24obs struct {
	trace []int
	full  string
	disk  int // 0 no upload, 1 memory, 2 disk
	param string
}

func c24h(id int) func(*water.Context) {
	return func(x *water.Context) {
		o := Val(x.Request, "c24").(*c24obs)
		o.trace = append(o.trace, id)
		x.Next()
	}
}
func c24end(id int) func(*water.Context) {
	return func(x *water.Context) {
		o := Val(x.Request, "c24").(*c24obs)
		o.trace = append(o.trace, id)
		o.full = x.FullPath()
		for k, v := range x.Params {
			o.param += k + "=" + v + ";"
		}
		if x.Request.Method == "POST" {
			if _, fh, err := x.FormFile("f"); err == nil {
				o.disk = 1
				if onDisk(fh) {
					o.disk = 2
				}
				x.Request.MultipartForm.RemoveAll()
			}
		}
		x.WriteHeader(200)
	}
}

func newC24router() *c24router {
	t := &c24router{root: water.NewRouter(), have: map[string]bool{}}
	t.top = &c24node{rr: t.root}
	t.nodes = []*c24node{t.top}
	return t
}

var c24paths = []string{"/a", "/b", "/c", "/d/e", "/p/<v>", "/w/*", "/n/<v ~ ^[0-9]+$>", "/s/t/u"}

func c24method(r R) string {
	return r.Str("GET", "GET", "GET", "POST", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD")
}

func c24path(pat string) (string, string) {
	switch {
	case strings.HasSuffix(pat, "<v>"):
		return strings.TrimSuffix(pat, "<v>") + "val", "v=val;"
	case strings.HasSuffix(pat, "*"):
		return strings.TrimSuffix(pat, "*") + "x/y", "*0=x/y;"
	case strings.HasSuffix(pat, ">"):
		return pat[:strings.Index(pat, "<")] + "42", "v=42;"
	}
	return pat, ""
}

func (n *c24node) full() string {
	if n == nil {
		return ""
	}
	return n.parent.full() + n.prefix
}
func (n *c24node) all() []int {
	if n == nil {
		return nil
	}
	return append(append([]int{}, n.parent.all()...), n.mws...)
}

// change applies one declaration.
func (t *c24router) change(c *C, r R, id *int) {
	t.ver++
	*id++
	switch r.IntN(10) {
	case 0:
		t.root.Before(c24h(*id))
		t.before = append(t.before, *id)
	case 1, 2:
		n := pick(r, t.nodes)
		k := r.Rng(1, 3)
		for ; k > 0; k-- {
			n.rr.Use(c24h(*id))
			n.mws = append(n.mws, *id)
			*id++
		}
		c.Count("later_middleware", 1)
	case 3:
		if len(t.nodes) > 5 {
			return
		}
		p := pick(r, t.nodes)
		n := &c24node{parent: p, prefix: fmt.Sprintf("/g%d", len(t.nodes))}
		if r.Pct(50) {
			n.mws = []int{*id}
			n.rr = p.rr.Group(n.prefix, c24h(*id))
		} else {
			n.rr = p.rr.Group(n.prefix)
		}
		t.nodes = append(t.nodes, n)
	default:
		n := pick(r, t.nodes)
		m := c24method(r)
		pat := pick(r, c24paths)
		if t.have[m+n.full()+pat] {
			return
		}
		t.have[m+n.full()+pat] = true
		own := []int{}
		var hs []interface{}
		for k := r.IntN(3); k > 0; k-- {
			own = append(own, *id)
			hs = append(hs, c24h(*id))
			*id++
		}
		own = append(own, *id)
		hs = append(hs, c24end(*id))
		addRoute(n.rr, m, pat, hs)
		t.routes = append(t.routes, c24route{n, m, pat, *id, own})
	}
}

type c24opts struct {
	opts   []water.Option
	nf     []int
	limit  int
	static bool
}

func c24options(r R, id *int) c24opts {
	o := c24opts{limit: 32 << 20}
	if r.Pct(60) {
		o.static = r.Pct(60)
		o.opts = append(o.opts, water.WithStaticRouter(o.static))
	}
	if r.Pct(50) {
		var hs []interface{}
		for k := r.IntN(3); k > 0; k-- {
			*id++
			o.nf = append(o.nf, *id)
			hs = append(hs, c24h(*id))
		}
		*id++
		o.nf = append(o.nf, *id)
		hs = append(hs, c24end(*id))
		o.opts = append(o.opts, water.WithNoFoundHandlers(hs...))
		if r.Pct(30) { // the caller's slice is the caller's
			hs[0] = c24end(-1)
		}
	}
	if r.Pct(60) {
		o.limit = pick(r, []int{1, 100, 1000, 5000})
		o.opts = append(o.opts, water.WithMaxMultipartMemory(int64(o.limit)))
	}
	return o
}

func (t *c24router) build(c *C, o c24opts) *c24engine {
	g := &c24engine{routes: map[string]c24want{}, limit: o.limit, ver: t.ver, of: t, static: o.static}
	for _, rt := range t.routes {
		full := rt.node.full() + rt.pat
		tr := append(append(append([]int{}, t.before...), rt.node.all()...), rt.own...)
		p, _ := c24path(full)
		g.routes[rt.method+p] = c24want{tr, full}
	}
	if len(o.nf) > 0 {
		g.nf = append(append([]int{}, t.before...), o.nf...)
	}
	p, bad := try(func() { g.e = t.root.Handler(o.opts...) })
	if bad {
		c.Fail("build", "building panicked: %v", p)
		return nil
	}
	c.Count("engines", 1)
	return g
}

// serve sends one request to an engine and compares.
func (g *c24engine) serve(c *C, r R, history func() string) {
	t := g.of
	node := ""
	if r.Pct(60) { // any prefix of any of the routers
		node = r.Str("/g1", "/g2", "/g1/g2", "/g2/g3", "/g3")
	}
	m := c24method(r)
	pat := pick(r, c24paths)
	path, params := c24path(node + pat)
	if len(g.routes) > 0 && r.Pct(60) {
		ks := []string{}
		for k := range g.routes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		k := pick(r, ks)
		i := strings.Index(k, "/")
		m, path = k[:i], k[i:]
		_, params = c24path(g.routes[k].full)
	}
	w, ok := g.routes[m+path]
	req := Req(m, path)
	o := &c24obs{}
	size := 0
	if m == "POST" && r.Pct(60) {
		size = pick(r, []int{0, 2, 99, 100, 101, 999, 1001, 5001, 20})
		var b bytes.Buffer
		mw := multipart.NewWriter(&b)
		f, _ := mw.CreateFormFile("f", "x")
		f.Write(make([]byte, size))
		mw.Close()
		req.Header.Set("Content-Type", mw.FormDataContentType())
		req.Body = io.NopCloser(&b)
		size++
	}
	var rec *Rec
	if p, crashed := try(func() { rec = Serve(g.e, With(req, "c24", o)) }); crashed {
		c.Fail("crash", "%s %s: %v\n%s", m, path, p, history())
		return
	}
	c.Eval()
	c.Count("requests", 1)
	if t.ver != g.ver {
		c.Count("served_after_change", 1)
	}
	if !ok {
		c.Count("absent_later_route", 1)
		status := 404
		if len(g.nf) > 0 {
			c.Count("notfound_handlers", 1)
			status = 200
		}
		if !reflect.DeepEqual(o.trace, g.nf) && len(o.trace)+len(g.nf) > 0 || rec.Status() != status {
			c.Fail("notfound", "%s %s is no route of this engine (version %d): ran %v, expected %v; status %d\n%s", m, path, g.ver, o.trace, g.nf, rec.Status(), history())
		}
		return
	}
	if !reflect.DeepEqual(o.trace, w.trace) || o.full != w.full || o.param != params {
		c.Fail("snapshot", "%s %s on an engine of version %d: ran %v, expected %v; full path %q, expected %q; parameters %q, expected %q\n%s", m, path, g.ver, o.trace, w.trace, o.full, w.full, o.param, params, history())
		return
	}
	if size > 0 {
		c.Count("uploads", 1)
		want := 1
		if size-1 > g.limit {
			want = 2
		}
		if o.disk != want {
			c.Fail("limit", "an upload of %d bytes with this engine's limit %d was placed %d, expected %d (1 memory, 2 disk)\n%s", size-1, g.limit, o.disk, want, history())
		}
	}
}

func c24(c *C) {
	r := c.R
	id := 0
	rts := []*c24router{newC24router()}
	if r.Pct(60) {
		rts = append(rts, newC24router())
	}
	var engs []*c24engine
	var hist []string
	var hmu sync.Mutex
	note := func(f string, a ...any) { hmu.Lock(); hist = append(hist, fmt.Sprintf(f, a...)); hmu.Unlock() }
	history := func() string {
		hmu.Lock()
		defer hmu.Unlock()
		return strings.Join(hist, " ")
	}
	var shared []c24opts
	build := func(t *c24router) {
		var o c24opts
		if len(shared) > 0 && r.Pct(50) {
			o = pick(r, shared)
			c.Count("shared_options", 1)
		} else {
			o = c24options(r, &id)
			shared = append(shared, o)
		}
		for _, g := range engs {
			if g.of == t {
				c.Count("rebuilt", 1)
				if g.ver == t.ver {
					c.Count("same_build_twice", 1)
				}
			}
			if g.limit != o.limit {
				c.Count("different_limits", 1)
			}
		}
		if g := t.build(c, o); g != nil {
			engs = append(engs, g)
			note("build(v%d,static=%v,nf=%v,limit=%d)", t.ver, o.static, o.nf, o.limit)
		}
	}
	steps := r.Rng(10, 50)
	for i := 0; i < steps && !c.Failed(); i++ {
		t := pick(r, rts)
		switch {
		case len(engs) == 0 && i > 4 || r.Pct(12) && len(engs) < 8:
			build(t)
		case len(engs) > 0 && r.Pct(50):
			pick(r, engs).serve(c, r, history)
		default:
			n := len(t.routes)
			t.change(c, r, &id)
			note("change(%d,v%d,%d routes)", len(rts), t.ver, len(t.routes)-n)
		}
	}
	c.Seen(strings.Join(hist, " ")[:min(200, len(strings.Join(hist, " ")))])
	if len(engs) == 0 || c.Failed() {
		return
	}
	if r.Pct(50) { // the same router built from two goroutines, and everything served meanwhile
		var wg sync.WaitGroup
		for _, g := range engs {
			wg.Add(1)
			gr := newR(c.Seed, "C24g", c.N*16+len(hist)+g.ver)
			// the model of this engine is not touched any more; its router's version is
			frozen := *g
			frozen.of = &c24router{ver: g.ver}
			go func() {
				defer wg.Done()
				for k := 0; k < 25 && !c.Failed(); k++ {
					frozen.serve(c, gr, history)
					c.Count("concurrent_requests", 1)
				}
			}()
		}
		for k := r.Rng(5, 20); k > 0; k-- {
			t := pick(r, rts)
			if r.Pct(30) && len(engs) < 14 {
				build(t)
				c.Count("built_while_serving", 1)
			} else {
				t.change(c, r, &id)
			}
			if r.Pct(40) {
				pick(r, engs).serve(c, r, history)
			}
		}
		wg.Wait()
		t := pick(r, rts)
		o := pick(r, shared)
		es := make([]*c24engine, 3)
		own := make([]string, 6)
		start := make(chan struct{})
		for i := range own { // routers of their own, with the same and with new patterns
			wg.Add(1)
			path, want := fmt.Sprintf("/p%d/%d", c.N, 700+i), fmt.Sprintf("[%d %d]", i, 700+i)
			go func() {
				defer wg.Done()
				<-start
				rt := water.NewRouter()
				for _, pat := range []string{fmt.Sprintf("/p%d/<v ~ [0-9]{3}>", c.N), fmt.Sprintf("/q%d/<v,w ~ ([a-z]%d)-([0-9])>", c.N, i), "/n/<v ~ ^[0-9]+$>", "/w/<a>/*", "/<any>"} {
					rt.GET(pat, func(x *water.Context) { x.String(200, fmt.Sprint([]string{fmt.Sprint(i), x.Params["v"]})) })
				}
				rec := NewRec()
				if p, bad := try(func() { rt.Handler().ServeHTTP(rec, Req("GET", path)) }); bad || rec.Body.String() != want {
					own[i] = fmt.Sprintf("router %d of those made at once: %s gave %v %q, expected %q (panic %v)", i, path, rec.Codes, rec.Body.String(), want, p)
				}
			}()
		}
		for i := range es {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; es[i] = t.build(c, o) }()
		}
		close(start)
		wg.Wait()
		c.Count("parallel_builds", 1)
		for _, s := range own {
			if s != "" {
				c.Fail("parallel", "%s", s)
				return
			}
			c.Count("parallel_routers", 1)
		}
		for _, g := range es {
			if g == nil {
				return
			}
			for k := 0; k < 6 && !c.Failed(); k++ {
				g.serve(c, r, history)
			}
		}
	}
	c.Sample(func() any { return map[string]any{"history": history()} })
}
