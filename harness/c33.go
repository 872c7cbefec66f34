package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C33", Quick: 40000, Thor: 600000,
		Rule: "a case is a chain of handlers of every accepted form (plain and named functions, own types by value and by pointer, net/http handlers and functions, wrapped net/http handlers), placed as before-handlers, middlewares, group middlewares, route or not-found handlers, whose programs read the body, set headers, answer, change or replace the request, its body or the response writer for the rest of the chain, and ask for the next; the event log and the response are compared with a model of the chain. Non-trivial: a chain with at least two forms; distinct by forms, placements and programs.",
		Need: []string{"chains", "handlers_run", "form_func", "form_HandlerFunc", "form_value", "form_pointer", "form_http", "form_httpfunc", "form_plain", "form_strip", "form_mux", "form_kind", "form_cors", "form_recovery", "form_named", "request_replaced", "request_changed", "writer_replaced", "writer_restored", "body_replaced", "seen_by_http", "written_by_http", "notfound", "names_checked", "names_of_types", "lost", "on_the_wire", "read_to_the_end", "megabytes"},
		Case: c33})
}

var c33isHTTP = map[string]bool{"http": true, "httpfunc": true, "plain": true, "strip": true, "mux": true}

type c33op struct {
	kind string // mark, header, read, rest, status, write, req, wrap, body, next, name
	s    string
	n    int
}

type c33handler struct {
	form string
	ops  []c33op
	i    int
}

// c33run is one request's log.
type c33run struct {
	hs  []*c33handler
	log []string
}

func (o *c33run) add(format string, a ...any) { o.log = append(o.log, fmt.Sprintf(format, a...)) }

type c33wrap struct {
	water.ResponseWriter
	tag string
	o   *c33run
}

func (w *c33wrap) WriteHeader(code int) {
	w.o.add("%s head %d", w.tag, code)
	w.ResponseWriter.WriteHeader(code)
}

func (w *c33wrap) Write(b []byte) (int, error) {
	_, err := w.ResponseWriter.Write(append([]byte("<"+w.tag+">"), b...))
	return len(b), err
}

// exec interprets a handler's program; x is nil for the net/http forms.
func (h *c33handler) exec(x *water.Context, w http.ResponseWriter, q *http.Request) {
	o := Val(q, "o").(*c33run)
	o.add("+%d", h.i)
	if x == nil {
		o.add("%d in http", h.i)
	}
	cur := func() *http.Request {
		if x != nil {
			return x.Request
		}
		return q
	}
	for _, op := range h.ops {
		switch op.kind {
		case "mark":
			o.add("%d sees %v %v %v %v", h.i, Val(cur(), "v"), cur().URL.Path, cur().Form["f"], cur().Header["X-Q"])
		case "inplace":
			*cur() = *With(cur(), "v", op.s)
		case "form":
			cur().Form = url.Values{"f": {op.s}}
		case "qheader":
			cur().Header["X-Q"] = append(cur().Header["X-Q"], op.s)
		case "header":
			w.Header().Add("X-H", op.s)
		case "headers":
			o.add("%d headers %v", h.i, w.Header()["X-H"])
		case "read":
			b := make([]byte, op.n)
			n, err := io.ReadFull(cur().Body, b)
			o.add("%d read %q %v", h.i, b[:n], err != nil)
		case "rest":
			b, err := io.ReadAll(cur().Body)
			o.add("%d the rest: %s %v", h.i, c33digest(b), err)
		case "status":
			w.WriteHeader(op.n)
		case "write":
			n, err := io.WriteString(w, op.s)
			o.add("%d wrote %d %v", h.i, n, err)
		case "req":
			x.Request = With(x.Request, "v", op.s)
		case "url":
			u := *x.Request.URL
			u.Path += op.s
			q2 := x.Request.WithContext(x.Request.Context())
			q2.URL = &u
			x.Request = q2
		case "wrap", "wraprestore":
			old := x.ResponseWriter
			x.ResponseWriter = &c33wrap{old, op.s, o}
			if op.kind == "wraprestore" {
				defer func() { x.ResponseWriter = old }()
			}
		case "body":
			x.Request.Body = io.NopCloser(strings.NewReader(op.s))
		case "next":
			x.Next()
		case "facts":
			o.add("%d facts %v %d %s", h.i, x.Written(), x.Status(), x.FullPath())
		case "name":
			o.add("%d name %s", h.i, x.HandlerName())
		}
	}
	o.add("-%d", h.i)
}

func c33digest[T string | []byte](b T) string {
	h := fnv.New64a()
	h.Write([]byte(b))
	return fmt.Sprintf("%d %x", len(b), h.Sum64())
}

type c33value struct{ h *c33handler }

func (v c33value) ServeHTTP(x *water.Context) { v.h.exec(x, x, x.Request) }

type c33pointer struct{ h *c33handler }

func (v *c33pointer) ServeHTTP(x *water.Context) { v.h.exec(x, x, x.Request) }

type c33http struct{ h *c33handler }

func (v c33http) ServeHTTP(w http.ResponseWriter, q *http.Request) { v.h.exec(nil, w, q) }

// the last handler of the chain when it is a named function
func c33lastA(x *water.Context) {
	hs := Val(x.Request, "o").(*c33run).hs
	hs[len(hs)-1].exec(x, x, x.Request)
}
func c33lastB(x *water.Context) {
	hs := Val(x.Request, "o").(*c33run).hs
	hs[len(hs)-1].exec(x, x, x.Request)
}

type c33slice []*c33handler

func (v c33slice) ServeHTTP(x *water.Context) { v[0].exec(x, x, x.Request) }

type c33map map[string]*c33handler

func (v c33map) ServeHTTP(x *water.Context) { v["h"].exec(x, x, x.Request) }

type c33int int

func (v c33int) ServeHTTP(x *water.Context) {
	Val(x.Request, "o").(*c33run).hs[v].exec(x, x, x.Request)
}

type c33string string

func (v c33string) ServeHTTP(x *water.Context) {
	Val(x.Request, "o").(*c33run).hs[v[0]].exec(x, x, x.Request)
}

type c33chan chan *c33handler

func (v c33chan) ServeHTTP(x *water.Context) {
	h := <-v
	v <- h
	h.exec(x, x, x.Request)
}

type c33func func(x *water.Context)

func (v c33func) ServeHTTP(x *water.Context) { v(x) }

func (h *c33handler) make() interface{} {
	switch h.form {
	case "kind0":
		return c33slice{h}
	case "kind1":
		return c33map{"h": h}
	case "kind2":
		return c33int(h.i)
	case "kind3":
		return c33string([]byte{byte(h.i)})
	case "kind4":
		v := make(c33chan, 1)
		v <- h
		return v
	case "kind5":
		return c33func(func(x *water.Context) { h.exec(x, x, x.Request) })
	case "kind6":
		v := c33slice{h}
		return &v
	case "HandlerFunc":
		return water.HandlerFunc(func(x *water.Context) { h.exec(x, x, x.Request) })
	case "value":
		return c33value{h}
	case "pointer":
		return &c33pointer{h}
	case "http":
		return c33http{h}
	case "httpfunc":
		return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { h.exec(nil, w, q) })
	case "plain":
		return func(w http.ResponseWriter, q *http.Request) { h.exec(nil, w, q) }
	case "strip":
		return http.StripPrefix("/r", http.MaxBytesHandler(c33http{h}, 1<<30))
	case "mux":
		m := http.NewServeMux()
		m.HandleFunc("POST /r/{rest...}", func(w http.ResponseWriter, q *http.Request) {
			Val(q, "o").(*c33run).add("%d routed by %s with %s", h.i, q.Pattern, q.PathValue("rest"))
			h.exec(nil, w, q)
		})
		return m
	case "cors":
		return water.CORS(water.CORSConfig{AllowCredentials: true})
	case "recovery":
		return water.Recovery()
	case "namedA":
		return c33lastA
	case "namedB":
		return c33lastB
	}
	return func(x *water.Context) { h.exec(x, x, x.Request) }
}

// c33lost: a handler of net/http that knows no better answers itself, and the chain ends there.
func c33lost(c *C) bool {
	c.Count("lost", 1)
	for name, h := range map[string]http.Handler{"mux": http.NewServeMux(), "404": http.NotFoundHandler(), "redirect": http.RedirectHandler("/else", 307), "gone": http.TimeoutHandler(http.NotFoundHandler(), 10*time.Second, "")} {
		late, said := false, ""
		rt := water.NewRouter()
		rt.Use(func(x *water.Context) {
			x.Next()
			said = fmt.Sprint(x.Written(), x.Status())
		})
		rt.GET("/r", h, func(x *water.Context) { late = true })
		want := 404
		if name == "redirect" {
			want = 307
		}
		rec := Serve(rt.Handler(), Req("GET", "/r"))
		if late || rec.Status() != want || said != fmt.Sprint(true, want) {
			c.Fail("lost", "%s: status %d, expected %d; the handler after it ran: %v; the middleware around saw %s", name, rec.Status(), want, late, said)
			return false
		}
	}
	return true
}

func c33(c *C) {
	r := c.R
	c.Eval()
	c.Count("chains", 1)
	if c.N%400 == 3 && !c33lost(c) {
		return
	}
	o := &c33run{}
	total := r.Rng(2, 7)
	tags := 0
	for i := 0; i < total; i++ {
		h := &c33handler{i: i, form: r.Str("func", "func", "HandlerFunc", "value", "pointer", "http", "httpfunc", "plain", "strip", "mux")}
		if r.Pct(8) {
			h.form = fmt.Sprint("kind", r.IntN(7))
		}
		if i == total-1 && r.Pct(40) {
			h.form = r.Str("namedA", "namedB")
		}
		if i < total-1 && r.Pct(10) { // the package's own
			h.form = r.Str("cors", "recovery")
			c.Count("form_"+h.form, 1)
			o.hs = append(o.hs, h)
			continue
		}
		waterForm := !c33isHTTP[h.form]
		nexted := false
		for k := r.Rng(1, 5); k > 0; k-- {
			kinds := []string{"mark", "header", "headers", "read", "rest", "mark", "inplace", "form", "qheader"}
			if i >= total/2 || r.Pct(30) {
				kinds = append(kinds, "status", "write", "write")
			}
			if waterForm {
				kinds = append(kinds, "req", "url", "wrap", "wraprestore", "body", "facts", "name", "next", "next")
			}
			op := c33op{kind: pick(r, kinds)}
			tags++
			op.s = fmt.Sprintf("t%d", tags)
			switch op.kind {
			case "read":
				op.n = r.IntN(5)
			case "status":
				op.n = pick(r, []int{200, 201, 202, 400, 404, 418, 500})
			case "next":
				if nexted {
					continue
				}
				nexted = true
			}
			h.ops = append(h.ops, op)
		}
		c.Count("form_"+strings.TrimRight(h.form, "AB0123456"), 1)
		o.hs = append(o.hs, h)
	}

	// placement: before-handlers, root middlewares, group middlewares, route handlers
	nf := r.Pct(15)
	cuts := []int{r.IntN(total), r.IntN(total), r.IntN(total)}
	for i := 1; i < 3; i++ {
		if cuts[i] < cuts[i-1] {
			cuts[i] = cuts[i-1]
		}
	}
	rt := water.NewRouter()
	var last interface{}
	mk := func(from, to int) (a []interface{}) {
		for _, h := range o.hs[from:to] {
			last = h.make()
			a = append(a, last)
		}
		return a
	}
	var e *water.Engine
	full, path := "/r/<id>", "/r/x"
	if nf {
		full = ""
		rt.Before(mk(0, cuts[0])...)
		rt.Use(func(x *water.Context) { o.add("a middleware of no route") })
		rt.GET("/else", func(x *water.Context) {})
		e = rt.Handler(water.WithNoFoundHandlers(mk(cuts[0], total)...))
		c.Count("notfound", 1)
	} else {
		rt.Before(mk(0, cuts[0])...)
		rt.Use(mk(cuts[0], cuts[1])...)
		g := rt.Group("/r")
		g.Use(mk(cuts[1], cuts[2])...)
		g.POST("/<id>", mk(cuts[2], total)...)
		e = rt.Handler()
	}
	body := r.From("abcdefgh", r.IntN(20))
	wire := r.Pct(3)
	if r.OneIn(300) {
		body, wire = r.From("abcdefgh", r.Rng(1_000_000, 3_000_000)), false
		c.Count("megabytes", 1)
	}

	// the model
	want := &c33run{}
	type writer struct{ tags []string } // outermost first
	var (
		idx      int
		written  bool
		status   int
		xh       []string
		headXH   string
		out      bytes.Buffer
		stack    []string
		val      any
		form     []string
		qh       []string
		src      = body
		upath    = path
		runChain func()
		forms    = map[string]bool{}
	)
	head := func(code int) {
		if written {
			return
		}
		written, status = true, code
		headXH = fmt.Sprint(xh)
		for k := len(stack) - 1; k >= 0; k-- {
			want.add("%s head %d", stack[k], code)
		}
	}
	name := ""
	switch o.hs[total-1].form {
	case "func", "HandlerFunc", "namedA", "namedB", "kind5":
		name = runtime.FuncForPC(reflect.ValueOf(last).Pointer()).Name()
	}
	exec := func(h *c33handler) {
		isHTTP := c33isHTTP[h.form]
		forms[h.form] = true
		c.Count("handlers_run", 1)
		if h.form == "cors" || h.form == "recovery" {
			idx++
			runChain()
			if h.form == "recovery" { // answers what nobody did
				head(200)
			}
			return
		}
		if h.form == "strip" && !strings.HasPrefix(upath, "/r") {
			panic("harness: path")
		}
		if h.form == "mux" {
			want.add("%d routed by POST /r/{rest...} with %s", h.i, strings.TrimPrefix(upath, "/r/"))
		}
		want.add("+%d", h.i)
		if isHTTP {
			want.add("%d in http", h.i)
		}
		var restore []func()
		if h.form == "strip" { // hands a copy on, changes of it are its own
			v, f := val, form
			restore = append(restore, func() { val, form = v, f })
		}
		for _, op := range h.ops {
			switch op.kind {
			case "mark":
				p := upath
				if h.form == "strip" {
					p = strings.TrimPrefix(p, "/r")
				}
				want.add("%d sees %v %v %v %v", h.i, val, p, form, qh)
				if isHTTP && val != nil {
					c.Count("seen_by_http", 1)
				}
			case "inplace":
				val = op.s
				c.Count("request_changed", 1)
			case "form":
				form = []string{op.s}
				c.Count("request_changed", 1)
			case "qheader":
				qh = append(qh, op.s)
				c.Count("request_changed", 1)
			case "header":
				xh = append(xh, op.s)
			case "headers":
				want.add("%d headers %v", h.i, xh)
			case "read":
				n := min(op.n, len(src))
				want.add("%d read %q %v", h.i, src[:n], n < op.n)
				src = src[n:]
			case "rest":
				want.add("%d the rest: %s <nil>", h.i, c33digest(src))
				src = ""
				c.Count("read_to_the_end", 1)
			case "status":
				head(op.n)
			case "write":
				head(200)
				want.add("%d wrote %d <nil>", h.i, len(op.s))
				s := op.s
				for k := len(stack) - 1; k >= 0; k-- {
					s = "<" + stack[k] + ">" + s
				}
				out.WriteString(s)
				if isHTTP {
					c.Count("written_by_http", 1)
				}
			case "req":
				val = op.s
				c.Count("request_replaced", 1)
			case "url":
				upath += op.s
				c.Count("request_replaced", 1)
			case "wrap", "wraprestore":
				n := len(stack)
				old := stack
				stack = append(stack[:n:n], op.s)
				c.Count("writer_replaced", 1)
				if op.kind == "wraprestore" {
					restore = append(restore, func() { stack = old })
					c.Count("writer_restored", 1)
				}
			case "body":
				src = op.s
				c.Count("body_replaced", 1)
			case "next":
				idx++
				runChain()
			case "facts":
				want.add("%d facts %v %d %s", h.i, written, status, full)
			case "name":
				want.add("%d name %s", h.i, name)
				if name != "" {
					c.Count("names_checked", 1)
				} else {
					c.Count("names_of_types", 1)
				}
			}
		}
		want.add("-%d", h.i)
		for k := len(restore) - 1; k >= 0; k-- {
			restore[k]()
		}
	}
	runChain = func() {
		for idx < total {
			exec(o.hs[idx])
			idx++
			if written {
				return
			}
		}
	}
	runChain()

	// the real thing
	var gotStatus int
	var gotBody []byte
	var gotXH string
	heads := 0
	if wire {
		s := Listen(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { e.ServeHTTP(w, With(q, "o", o)) }))
		p := s.Raw("POST", Line("POST", path, nil, []byte(body)))
		s.Close()
		if p.Err != nil {
			c.Fail("wire", "%v", p)
			return
		}
		gotStatus, gotBody, gotXH = p.Status, p.Body, fmt.Sprint(p.Head["X-H"])
		c.Count("on_the_wire", 1)
	} else {
		q := Req("POST", path)
		q.Body = io.NopCloser(strings.NewReader(body))
		if r.Pct(70) {
			q.ContentLength = int64(len(body))
		}
		w := Serve(e, With(q, "o", o))
		gotStatus, gotBody, heads = w.Status(), w.Body.Bytes(), len(w.Codes)
		if heads > 0 {
			gotXH = fmt.Sprint(w.Head["X-H"])
		} else {
			gotXH = fmt.Sprint(w.H["X-H"])
		}
	}
	if !written { // net/http answers 200 with the headers set
		status, headXH = 200, fmt.Sprint(xh)
	}
	show := func() string {
		var b strings.Builder
		for _, h := range o.hs {
			fmt.Fprintf(&b, "%d %s %v\n", h.i, h.form, h.ops)
		}
		return fmt.Sprintf("chain (cuts %v, notfound %v):\n%sevents %q\nwanted %q", cuts, nf, b.String(), o.log, want.log)
	}
	if name == "" { // the names of types are not specified, asking must just be harmless
		for i, l := range o.log {
			if k := strings.Index(l, " name "); k > 0 {
				o.log[i] = l[:k+6]
			}
		}
	}
	if !reflect.DeepEqual(o.log, want.log) {
		c.Fail("events", "the chain did not run as it should\n%s", show())
		return
	}
	if gotStatus != status || !bytes.Equal(gotBody, out.Bytes()) || gotXH != headXH || heads > 1 {
		c.Fail("answer", "answered %d %s %q (%d heads), expected %d %s %q\n%s", gotStatus, gotXH, gotBody, heads, status, headXH, out.Bytes(), show())
		return
	}
	if len(forms) > 1 {
		c.Seen(want.log, cuts, nf)
	}
	c.Sample(func() any { return map[string]any{"events": want.log} })
}
