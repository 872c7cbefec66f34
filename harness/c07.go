package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C07", Quick: 260, Thor: 6000, Serial: true,
		Rule: "a case is one engine and 1-16 concurrent clients (in process without any shared synchronisation, so that the race detector sees every unprotected sharing, or over real connections), each sending a stream of requests with unique tokens in path, query, body and stored values; every handler compares all it can see with its own request's plan before and after yielding, and the client compares the response. Panicking, unmatched and re-entrant requests are mixed in. Non-trivial: a request served while another was in flight or on a recycled context; distinct by (kind, kinds in flight, recycled).",
		Need: []string{"kept_maps", "crowds", "crowded_notfound", "own_params_changed", "long_values", "requests", "overlapping", "recycled_contexts", "panics", "unmatched", "nested", "probes", "wire_requests", "recycled_after_panic_or_miss"},
		Case: c07})
}

// c07plan is what one request is about; only its own goroutine(s) touch it.
type c07plan struct {
	id, ip  string
	kind    int
	method  string
	path    string
	query   string
	full    string
	params  map[string]string
	body    string
	ctype   string
	env     map[string]interface{} // what this request stored so far
	bad     []string
	probes  int
	ctx     uintptr
	ran     []string
	act     int
	yield   int
	nest    bool
	depth   int
	status  int // chosen so far, 0 = none
	trap    bool
	changed bool // own parameters added and removed
	long    bool
	keptP   water.Params // a handler may hold on to these after the request, in a goroutine say
	keptE   water.Environ
}

// kept tells what became of the maps a handler held on to.
func (p *c07plan) kept() string {
	if p.keptP == nil {
		return ""
	}
	if !reflect.DeepEqual(map[string]string(p.keptP), p.params) {
		return fmt.Sprintf("the parameters a handler of request %s kept became %v after the request, they were %v", p.id, p.keptP, p.params)
	}
	if !reflect.DeepEqual(map[string]interface{}(p.keptE), p.env) {
		return fmt.Sprintf("the store a handler of request %s kept became %v after the request, it was %v", p.id, p.keptE, p.env)
	}
	return ""
}

func (p *c07plan) header(q *http.Request) {
	q.Header.Set("X-Id", p.id)
	q.Header.Set("Cookie", "ck="+p.id)
	q.Header.Set("User-Agent", "ua"+p.id)
	q.Header.Set("X-Real-Ip", p.ip)
	q.Header.Set("X-Forwarded-Proto", "https")
}

func (p *c07plan) fail(f string, a ...any) {
	if len(p.bad) < 3 {
		p.bad = append(p.bad, fmt.Sprintf(f, a...))
	}
}

type c07world struct {
	eng     http.Handler
	plans   []atomic.Pointer[c07plan] // wire mode: by slot
	nested  func(p *c07plan, parent *water.Context)
	found   bool
	nfs     int
	recover bool
	mws     int
}

func (w *c07world) plan(req *http.Request) *c07plan {
	if v := Val(req, "plan"); v != nil {
		return v.(*c07plan)
	}
	i := 0
	fmt.Sscan(req.Header.Get("X-Slot"), &i)
	return w.plans[i].Load()
}

// probe compares everything visible with the plan.
func (w *c07world) probe(p *c07plan, c *water.Context, where string) {
	p.probes++
	if c.Request.Header.Get("X-Id") != p.id {
		p.fail("%s: request header X-Id = %q, own is %q", where, c.Request.Header.Get("X-Id"), p.id)
	}
	if len(c.Params) != len(p.params) {
		p.fail("%s: params %v, own are %v", where, c.Params, p.params)
	}
	for k, v := range p.params {
		if c.Params[k] != v {
			p.fail("%s: params %v, own are %v", where, c.Params, p.params)
			break
		}
	}
	if got := c.FullPath(); got != p.full {
		p.fail("%s: FullPath %q, own is %q", where, got, p.full)
	}
	if !reflect.DeepEqual(map[string]interface{}(c.Environ), p.env) {
		p.fail("%s: stored values %v, own are %v", where, c.Environ, p.env)
	}
	if c.Written() != (p.status != 0) || c.Status() != p.status {
		p.fail("%s: Written/Status %v/%d, own are %v/%d", where, c.Written(), c.Status(), p.status != 0, p.status)
	}
}

func (w *c07world) store(p *c07plan, c *water.Context, name string) {
	v := p.id + "@" + name
	if x, bad := try(func() { c.Set(name, v) }); bad {
		p.fail("storing %s: %v", name, x)
	}
	p.env[name] = v
}

func spin(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

func (w *c07world) mw(i int) func(*water.Context) {
	return func(c *water.Context) {
		p := w.plan(c.Request)
		p.ran = append(p.ran, fmt.Sprintf("mw%d", i))
		p.ctx = reflect.ValueOf(c).Pointer()
		w.probe(p, c, "mw")
		w.store(p, c, fmt.Sprintf("mw%d", i))
		spin(p.yield)
		w.probe(p, c, "mw after yield")
		if i%2 == 0 {
			c.Next()
			w.probe(p, c, "mw after Next")
		}
	}
}

func (w *c07world) final(name string) func(*water.Context) {
	return func(c *water.Context) {
		p := w.plan(c.Request)
		p.ran = append(p.ran, name)
		p.ctx = reflect.ValueOf(c).Pointer()
		p.keptP, p.keptE = c.Params, c.Environ
		w.probe(p, c, name)
		if p.kind%4 != 1 {
			w.store(p, c, "final")
		}
		if p.nest && w.nested != nil {
			w.nested(p, c)
			w.probe(p, c, name+" after nested")
		}
		switch p.kind % 3 {
		case 0:
			if q := c.Query("tok"); q != p.id {
				p.fail("Query(tok)=%q, own is %q", q, p.id)
			}
			if g := c.QueryMap("g"); len(g) != 1 || g["own"] != p.id {
				p.fail("QueryMap(g)=%q, own is %q", g, p.id)
			}
			if l := c.QueryArray("l"); len(l) != 2 || l[0] != p.id || l[1] != "2"+p.id {
				p.fail("QueryArray(l)=%q, own is %q", l, p.id)
			}
			if q := c.DefaultQuery("d"+p.id, p.id); q != p.id {
				p.fail("DefaultQuery=%q, own is %q", q, p.id)
			}
			if q := c.Cookie("ck"); q != p.id {
				p.fail("Cookie(ck)=%q, own is %q", q, p.id)
			}
			if a, b := c.RealIp(), c.UserAgent(); a != p.ip || b != "ua"+p.id {
				p.fail("RealIp and UserAgent %q %q, own are %q %q", a, b, p.ip, "ua"+p.id)
			}
			if a, b := c.Protocol(), c.ContentType(); a != "https" || b != p.ctype {
				p.fail("Protocol and ContentType %q %q, own are %q %q", a, b, "https", p.ctype)
			}
			if p.ctype == "application/x-www-form-urlencoded" {
				if q := c.Query("btok"); q != p.id {
					p.fail("Query(btok)=%q from the body, own is %q", q, p.id)
				}
			}
		case 1:
			var t struct {
				Tok string `form:"tok" json:"tok"`
			}
			if err := c.Bind(&t); err != nil || t.Tok != p.id {
				p.fail("Bind gave %q, %v, own is %q", t.Tok, err, p.id)
			}
		case 2:
			b, err := c.BodyString()
			if err != nil || b != p.body {
				p.fail("body %q %v, own is %q", head(b, 80), err, head(p.body, 80))
			}
		}
		spin(p.yield)
		w.probe(p, c, name+" after reading")
		switch p.act {
		case 0:
			p.status = []int{200, 201, 403, 418, 503}[len(p.id)%5]
			c.Header().Set("X-Tok", p.id)
			c.WriteHeader(p.status)
			spin(p.yield)
			c.Write([]byte(p.id + "|"))
			spin(p.yield)
			c.Write([]byte(p.body))
		case 1:
			p.status = 201
			c.Header().Set("X-Tok", p.id)
			c.String(201, p.id+"|"+p.body)
		case 2:
			p.status = 200
			c.Header().Set("X-Tok", p.id)
			c.Write([]byte(p.id + "|" + p.body))
		case 3:
			panic("own panic " + p.id)
		case 4: // begun, then panics
			p.status = 202
			c.Header().Set("X-Tok", p.id)
			c.Data(202, "text/plain", []byte(p.id+"|"+p.body))
			spin(p.yield)
			w.probe(p, c, name+" before panic")
			panic("own panic " + p.id)
		case 5: // nothing: implicit answer
		}
		if p.kind%5 == 0 && c.Params != nil { // it is its own map
			c.Params["added"] = p.id
			p.params["added"] = p.id
			for k := range p.params {
				if len(k) == 1 {
					delete(c.Params, k)
					delete(p.params, k)
					break
				}
			}
			p.changed = true
		}
		w.probe(p, c, name+" at the end")
		spin(p.yield)
		w.probe(p, c, name+" at the end after yield")
	}
}

func c07(c *C) {
	r := c.R
	w := &c07world{recover: r.Pct(60)}
	root := water.NewRouter()
	if w.recover {
		root.Use(water.Recovery())
	}
	w.mws = r.IntN(3)
	for i := 0; i < w.mws; i++ {
		root.Use(w.mw(i))
	}
	type kind struct {
		pat  string
		make func(p *c07plan)
	}
	kinds := []kind{
		{"/lit/one", func(p *c07plan) { p.path = "/lit/one" }},
		{"/lit/two", func(p *c07plan) { p.path = "/lit/two" }},
		{"/p/:a", func(p *c07plan) { p.path = "/p/" + p.id; p.params["a"] = p.id }},
		{"/p/:a/q/<b>", func(p *c07plan) {
			p.path = "/p/" + p.id + "/q/x" + p.id
			p.params["a"] = p.id
			p.params["b"] = "x" + p.id
		}},
		{"/same/for-everybody/however/many/there/are/<a>/k/<b>", func(p *c07plan) {
			p.path = "/same/for-everybody/however/many/there/are/one/k/and-the-same"
			p.params["a"], p.params["b"] = "one", "and-the-same"
		}},
		{"/w/*", func(p *c07plan) { p.path = "/w/" + p.id + "/more/" + p.id; p.params["*0"] = p.id + "/more/" + p.id }},
		{"/g/*/k/<z>", func(p *c07plan) {
			p.path = "/g/" + p.id + "/k/z" + p.id
			p.params["*0"] = p.id
			p.params["z"] = "z" + p.id
		}},
		{"/r/<num1,num2 ~ ([a-z]+)-(\\d+)>", func(p *c07plan) {
			a, b := "ab", strings.Map(func(x rune) rune {
				if x < '0' || x > '9' {
					return -1
				}
				return x
			}, p.id)
			p.path = "/r/" + a + "-" + b
			p.params["num1"], p.params["num2"] = a, b
		}},
	}
	ms := []string{"GET", "POST", "PUT", "DELETE"}
	for _, k := range kinds {
		for _, m := range ms {
			h := w.final(k.pat)
			addRoute(root, m, k.pat, []interface{}{h})
		}
	}
	var opts []water.Option
	if r.Pct(50) {
		opts = append(opts, water.WithStaticRouter(true))
	}
	if r.Pct(50) {
		w.nfs = 1
		opts = append(opts, water.WithNoFoundHandlers(w.mw(100), w.final("nf")))
	}
	w.eng = root.Handler(opts...)

	wire := r.Pct(35)
	clients := pick(r, []int{1, 2, 4, 8, 16})
	per := 150 / clients
	if wire {
		per = 80 / clients
	}
	per = max(per, 6)
	var inflight, overlaps atomic.Int64
	type out struct {
		kept                                                                           []*c07plan
		keptChecks                                                                     int
		changed, long, requests, recycled, panics, unmatched, nested, probes, afterBad int
		seen                                                                           []string
		fail                                                                           string
	}
	outs := make([]out, clients)
	mk := func(r R, id string, depth int) *c07plan {
		long := r.OneIn(100)
		if long {
			id += strings.Repeat("0long", r.Tail(50, 300, 5000))
		}
		p := &c07plan{id: id, long: long, kind: r.IntN(1 << 20), params: map[string]string{}, env: map[string]interface{}{}, depth: depth}
		p.ip = fmt.Sprintf("10.%d.%d.%d", r.IntN(256), r.IntN(256), r.IntN(256))
		p.yield = pick(r, []int{0, 0, 1, 3})
		p.act = pick(r, []int{0, 1, 2, 0, 1, 2, 3, 4, 5})
		p.method = pick(r, ms)
		p.query = "tok=" + p.id + "&g%5Bown%5D=" + p.id + "&l=" + p.id + "&l=2" + p.id
		if r.Pct(18) {
			p.path = "/none/" + p.id
			p.trap = true
		} else {
			k := pick(r, kinds)
			p.full = k.pat
			k.make(p)
		}
		if p.method != "GET" && p.method != "DELETE" {
			p.body = strings.Repeat(id+";", min(r.Rng(1, 40), 1+100_000/len(id))) // net/http cuts the connection over more that is not read
			switch p.kind % 3 {
			case 0:
				if r.Pct(60) {
					p.ctype = "application/x-www-form-urlencoded"
					p.body = "btok=" + id
				}
			case 1:
				if r.Pct(60) {
					p.ctype = "application/json"
					p.body = `{"tok":"` + id + `"}`
				}
			}
		}
		p.nest = depth < 2 && r.Pct(8)
		return p
	}
	newReq := func(p *c07plan) *http.Request {
		q := Req(p.method, p.path)
		q.URL.RawQuery = p.query
		p.header(q)
		if p.ctype != "" {
			q.Header.Set("Content-Type", p.ctype)
		}
		q.Body = io.NopCloser(strings.NewReader(p.body))
		q.ContentLength = int64(len(p.body))
		return With(q, "plan", p)
	}
	// judge compares the finished request with its plan.
	judge := func(p *c07plan, status int, tok string, body string, panicked bool, val any) string {
		if len(p.bad) > 0 {
			return fmt.Sprintf("request %s %s?%s (token %s): %s", p.method, p.path, p.query, p.id, strings.Join(p.bad, "; "))
		}
		d := fmt.Sprintf("request %s %s (act %d, token %s) got %d tok=%q %q", p.method, p.path, p.act, p.id, status, tok, head(body, 200))
		if p.trap && w.nfs == 0 {
			if status != 404 || body != "" || len(p.ran) > 0 || panicked {
				return "unmatched " + d + fmt.Sprint(p.ran)
			}
			return ""
		}
		wantPanic := (p.act == 3 || p.act == 4) && (!w.recover || p.trap)
		if panicked != wantPanic {
			return d + fmt.Sprintf(" panicked=%v %v", panicked, val)
		}
		if panicked && fmt.Sprint(val) != "own panic "+p.id {
			return d + fmt.Sprintf(" panicked with %v", val)
		}
		switch p.act {
		case 3:
			if !wantPanic {
				if status != 500 {
					return d
				}
			}
		case 5:
			if status != 200 || body != "" {
				return d
			}
		default:
			if tok != p.id || status != p.status || body != p.id+"|"+p.body {
				return d
			}
		}
		return ""
	}
	keep := func(o *out, p *c07plan) bool {
		if p.changed {
			o.changed++
		}
		if p.long {
			o.long++
		}
		o.kept = append(o.kept, p)
		if len(o.kept) > 6 {
			o.kept = o.kept[1:]
		}
		for _, q := range o.kept {
			if q.keptP != nil {
				o.keptChecks++
			}
			if f := q.kept(); f != "" {
				o.fail = f
				return false
			}
		}
		return true
	}
	ctxs := make([]map[uintptr]int, clients) // per client: last use kind of each context (single-writer)
	seedBase := c.Uint64()
	run := func(g int) {
		o := &outs[g]
		ctxs[g] = map[uintptr]int{}
		cr := newR(seedBase, "client", g)
		for i := 0; i < per; i++ {
			p := mk(cr, fmt.Sprintf("t%dc%dx%d", c.N, g, i), 0)
			rec := NewRec()
			var val any
			var bad bool
			req := newReq(p)
			if inflight.Load() > 0 {
				overlaps.Add(1)
			}
			inflight.Add(1)
			val, bad = try(func() { w.eng.ServeHTTP(rec, req) })
			inflight.Add(-1)
			o.requests++
			o.probes += p.probes
			st := rec.Status()
			if f := judge(p, st, rec.H.Get("X-Tok"), rec.Body.String(), bad, val); f != "" {
				o.fail = f
				return
			}
			if !keep(o, p) {
				return
			}
			if p.ctx != 0 {
				last, ok := ctxs[g][p.ctx]
				if ok {
					o.recycled++
					if last != 0 {
						o.afterBad++
					}
				}
				ctxs[g][p.ctx] = 0
				o.seen = append(o.seen, fmt.Sprint(p.full, p.act, p.kind%3, ok, last, clients > 1))
			}
			if p.act == 3 || p.act == 4 || p.trap {
				for k := range ctxs[g] {
					ctxs[g][k] = 1
				}
			}
			if p.act == 3 || p.act == 4 {
				o.panics++
			}
			if p.trap {
				o.unmatched++
			}
			if p.nest {
				o.nested++
			}
		}
	}
	w.nested = func(p *c07plan, parent *water.Context) {
		cr := newR(seedBase, p.id, p.depth)
		q := mk(cr, p.id+"n", p.depth+1)
		rec := NewRec()
		val, bad := try(func() { w.eng.ServeHTTP(rec, newReq(q)) })
		p.probes += q.probes
		if f := judge(q, rec.Status(), rec.H.Get("X-Tok"), rec.Body.String(), bad, val); f != "" {
			p.fail("nested: %s", f)
		}
	}
	if wire {
		w.plans = make([]atomic.Pointer[c07plan], clients)
		done := make([]chan struct{}, clients)
		type ret struct {
			bad bool
			val any
		}
		rets := make([]ret, clients)
		for i := range done {
			done[i] = make(chan struct{}, 1)
		}
		srv := Listen(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			i := 0
			fmt.Sscan(req.Header.Get("X-Slot"), &i)
			val, bad := try(func() { w.eng.ServeHTTP(rw, req) })
			rets[i] = ret{bad, val}
			done[i] <- struct{}{}
			if bad {
				panic(http.ErrAbortHandler)
			}
		}))
		defer srv.Close()
		run = func(g int) {
			o := &outs[g]
			cr := newR(seedBase, "client", g)
			t := srv.Transport()
			defer t.CloseIdleConnections()
			for i := 0; i < per; i++ {
				p := mk(cr, fmt.Sprintf("t%dc%dx%d", c.N, g, i), 0)
				w.plans[g].Store(p)
				var rd io.Reader
				if p.body != "" {
					rd = bytes.NewReader([]byte(p.body))
				}
				req, err := http.NewRequest(p.method, "http://example.test"+(&url.URL{Path: p.path}).EscapedPath()+"?"+p.query, rd)
				must(err)
				req.GetBody = nil // never replayed by the transport
				p.header(req)
				req.Header.Set("X-Slot", fmt.Sprint(g))
				if p.ctype != "" {
					req.Header.Set("Content-Type", p.ctype)
				}
				if inflight.Load() > 0 {
					overlaps.Add(1)
				}
				inflight.Add(1)
				// closing idle connections first keeps net/http from retrying idempotent requests on a dead one
				if cr.Pct(30) || p.act == 3 || p.act == 4 {
					t.CloseIdleConnections()
					req.Close = true
				}
				resp, err := t.RoundTrip(req)
				status, body, tok := 0, "", ""
				var berr error
				if err == nil {
					var b []byte
					b, berr = io.ReadAll(resp.Body)
					resp.Body.Close()
					status, body, tok = resp.StatusCode, string(b), resp.Header.Get("X-Tok")
				}
				if !awaited(done[g]) {
					o.fail = fmt.Sprintf("request %s %s (act %d): no handler came to its end: %v", p.method, p.path, p.act, err)
					return
				}
				inflight.Add(-1)
				x := rets[g]
				o.requests++
				o.probes += p.probes
				if x.bad { // the connection was cut by the panic: nothing to compare on the wire
					if f := judge(p, p.status, p.id, p.id+"|"+p.body, x.bad, x.val); f != "" {
						o.fail = f
						return
					}
				} else if err != nil || berr != nil {
					o.fail = fmt.Sprintf("request %s %s (act %d): %v %v", p.method, p.path, p.act, err, berr)
					return
				} else if f := judge(p, status, tok, body, false, nil); f != "" {
					o.fail = f
					return
				}
				if !keep(o, p) {
					return
				}
				if p.act == 3 || p.act == 4 {
					o.panics++
				}
				if p.trap {
					o.unmatched++
				}
				o.seen = append(o.seen, fmt.Sprint("wire", p.full, p.act, p.kind%3, clients > 1))
			}
		}
	}
	if c.N%8 == 0 {
		c07crowd(c, opts)
	}
	var wg sync.WaitGroup
	for g := 0; g < clients; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			run(g)
		}(g)
	}
	wg.Wait()
	total := 0
	for g := range outs {
		o := &outs[g]
		if o.fail != "" {
			c.Fail("isolation", "%d clients, wire=%v: %s", clients, wire, o.fail)
			return
		}
		for i := 0; i < o.requests; i++ {
			c.Eval()
		}
		total += o.requests
		c.Count("own_params_changed", o.changed)
		c.Count("long_values", o.long)
		if wire {
			c.Count("wire_requests", o.requests)
		}
		c.Count("requests", o.requests)
		c.Count("probes", o.probes)
		c.Count("kept_maps", o.keptChecks)
		c.Count("recycled_contexts", o.recycled)
		c.Count("recycled_after_panic_or_miss", o.afterBad)
		c.Count("panics", o.panics)
		c.Count("unmatched", o.unmatched)
		c.Count("nested", o.nested)
		for _, s := range o.seen {
			c.Seen(s)
		}
	}
	c.Count("overlapping", int(overlaps.Load()))
	c.Sample(func() any {
		return map[string]any{"clients": clients, "wire": wire, "requests": total, "overlapping": overlaps.Load(), "middlewares": w.mws, "recovery": w.recover}
	})
}

// c07crowd has very many requests in handlers at the same time.
func c07crowd(c *C, opts []water.Option) {
	n := c.Tail(100, 600, 2500)
	var arrived atomic.Int64
	all := make(chan struct{})
	meet := func() bool {
		if arrived.Add(1) == int64(n) {
			close(all)
		}
		return awaited(all)
	}
	h := func(x *water.Context) {
		id := x.Request.Header.Get("X-Id")
		x.Set("id", id)
		if !meet() {
			x.String(500, "the others did not come")
			return
		}
		if v, _ := x.GetMaybe("id"); v != id || len(x.Environ) != 1 || x.Written() || x.Status() != 0 {
			x.String(500, fmt.Sprint("sees ", x.Environ, x.Written(), x.Status()))
			return
		}
		x.String(201, fmt.Sprint(id, x.Request.Header.Get("X-Id"), len(x.Params), x.Params["a"], x.Params["b"], x.FullPath()))
	}
	root := water.NewRouter()
	root.Use(func(x *water.Context) { x.Next() })
	root.GET("/crowd/:a/<b>", h)
	e := root.Handler(append(opts, water.WithNoFoundHandlers(h))...)
	bad := make([]string, n)
	var wg sync.WaitGroup
	for i := range bad {
		wg.Add(1)
		go func() {
			defer wg.Done()
			id := fmt.Sprintf("t%dn%d", c.N, i)
			path, want := "/crowd/"+id+"/"+id+"b", fmt.Sprint(id, id, 2, id, id+"b", "/crowd/:a/<b>")
			if i%10 == 9 {
				path, want = "/none/"+id, fmt.Sprint(id, id, 0, "", "", "")
			}
			q := Req("GET", path)
			q.Header.Set("X-Id", id)
			rec := NewRec()
			val, panicked := try(func() { e.ServeHTTP(rec, q) })
			if panicked || rec.Status() != 201 || rec.Body.String() != want {
				bad[i] = fmt.Sprintf("with %d requests in handlers at once, %s got %d %q (panic %v), expected %q", n, path, rec.Status(), head(rec.Body.String(), 300), val, want)
			}
		}()
	}
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			c.Fail("crowd", "%s", b)
			return
		}
		c.Eval()
	}
	c.Count("crowds", 1)
	c.Count("crowded_notfound", n/10)
}
