package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"reflect"
	"strings"
	"sync"
	"syscall"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C10", Quick: 500, Thor: 6000, Serial: true,
		Rule: "a case is an engine (Recovery through Use, Before, a group or Default, or absent; stable or development mode) on a loopback socket under concurrent clients; requests carry a plan (panic value kind, which handler panics, before or after asking for the next, before, during or after the response) mixed with healthy ones; handler events, what outer middlewares see and the raw response are compared. Race-detector build. Non-trivial: a recovered panic; distinct by (value kind, position, response point, mode).",
		Need: []string{"requests", "recovered", "unrecovered", "stable_panics", "dev_panics", "after_response", "healthy", "implicit_200", "cancelled", "notfound_panics", "concurrent_batches", "panics_in_a_row", "hints", "mode_set_later", "headers_left"},
		Case: c10})
}

type c10plan struct {
	id    string
	panic int // which link panics, -1 none
	point int // 0 before anything, 1 after WriteHeader, 2 after some body, 3 after asking for the next
	kind  int
	links int
	reply int // who replies: link index, or -1
	nf    bool
	group bool // route inside the group that has Recovery
	ev    []string
	outer []string
	sent  string
	code  int
	done  chan struct{}
	up    interface{} // what came out of the engine
	out   bool
	hint  bool // a 103 goes out before it panics
	head  int  // headers of the answer it never came to: 1 a type, 2 a length, 3 more
	late  bool // the request is cancelled already
}

type c10val struct{ secret string }

type c10evil struct{ secret string }

func (e c10evil) Error() string { panic("nested " + e.secret) }

type c10str struct{ secret string }

func (e c10str) String() string { return "str " + e.secret }

const c10secret = "S3CR3T"

func c10throw(kind int, id string) {
	s := c10secret + id
	switch kind {
	case 0:
		panic(s)
	case 1:
		panic(errors.New(s))
	case 2:
		panic(fmt.Errorf("wrap %w", errors.New(s)))
	case 3:
		panic(c10val{s})
	case 4:
		panic(&c10val{s})
	case 5:
		panic(c10evil{s})
	case 6:
		panic(c10str{s})
	case 7:
		var m map[string]int
		m[s] = 1
	case 8:
		var p *c10val
		_ = p.secret
		fmt.Fprint(io.Discard, p.secret)
	case 9:
		a := []int{}
		i := len(id)
		fmt.Fprint(io.Discard, a[i])
	case 10:
		var v interface{} = s
		_ = v.(int)
	case 11:
		panic(nil)
	case 12:
		panic(http.ErrAbortHandler)
	case 13:
		panic(strings.Repeat(s+" %s%d%!\n", 300))
	case 14:
		panic(42)
	case 15:
		panic(func() {})
	case 16:
		panic([]string{s})
	case 17:
		var deep func(n int)
		deep = func(n int) {
			if n == 0 {
				panic(s)
			}
			deep(n - 1)
		}
		deep(pick(newR(1, id, 0), []int{5, 100, 500, 2000}))
	case 18:
		z := len(id) - len(id)
		fmt.Fprint(io.Discard, 1/z)
	case 19:
		panic(error(nil))
	case 23:
		panic(strings.Repeat(s+" ", 200_000))
	case 24:
		panic(fmt.Errorf("%s: %w", strings.Repeat(s, 150_000), io.ErrUnexpectedEOF))
	default:
		if kind >= 25 { // errors with a meaning elsewhere
			err := c10known[kind-25]
			if len(id)%2 == 0 {
				err = fmt.Errorf("%s: %w", s, err)
			}
			panic(err)
		}
		panic(s)
	}
}

var c10known = []error{
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)},
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)},
	syscall.EPIPE, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, net.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, os.ErrPermission,
	context.Canceled, context.DeadlineExceeded, http.ErrHandlerTimeout, http.ErrServerClosed, http.ErrBodyNotAllowed, http.ErrContentLength,
	http.ErrHijacked, http.ErrMissingFile, http.ErrAbortHandler, &http.MaxBytesError{Limit: 3}, &http.ProtocolError{ErrorString: "x"},
}

func c10kind(r R) int {
	if r.Pct(2) {
		return r.Rng(23, 24) // a value of megabytes
	}
	if r.Pct(35) {
		return 25 + r.IntN(len(c10known))
	}
	return r.IntN(23)
}

func c10(c *C) {
	r := c.R
	oldStatus, oldClose := water.Status, water.LogClose
	defer func() { water.Status, water.LogClose = oldStatus, oldClose }()
	stable := r.Pct(50)
	water.Status = water.Dev
	if stable {
		water.Status = water.Stable
	}
	water.LogClose = r.Pct(50)
	late := r.Pct(40) // the mode is set after the engine was built
	if late {
		water.Status, water.LogClose = water.Stable, !water.LogClose
		if stable {
			water.Status = water.Dev
		}
	}
	var plans sync.Map
	get := func(q *http.Request) *c10plan {
		v, _ := plans.Load(q.Header.Get("X-Id"))
		return v.(*c10plan)
	}
	// link i of the chain behind Recovery
	link := func(i int) func(*water.Context) {
		return func(x *water.Context) {
			p := get(x.Request)
			p.ev = append(p.ev, fmt.Sprint(i))
			act := func(point int) {
				if p.panic == i && p.point == point {
					if p.head > 0 && !x.Written() {
						x.Header().Set("Content-Type", "image/png")
						if p.head > 1 {
							x.Header().Set("Content-Length", []string{"70000", "0", "1", "400"}[p.kind%4])
						}
						if p.head > 2 {
							x.Header().Set("Etag", `"x"`)
							x.Header().Set("Cache-Control", "max-age=60")
							x.Header().Set("Content-Disposition", "attachment")
						}
					}
					if p.hint && !x.Written() {
						x.Header().Set("Link", "</style.css>")
						x.WriteHeader(103)
					}
					if !x.Written() {
						switch p.kind { // statuses net/http refuses by a panic
						case 20:
							x.WriteHeader(0)
						case 21:
							x.Abort(1000)
						case 22:
							x.JSON(99, water.H{"s": c10secret + p.id})
						}
					}
					c10throw(p.kind, p.id)
				}
			}
			act(0)
			if p.reply == i || p.panic == i && (p.point == 1 || p.point == 2) {
				p.code = 200 + len(p.id)%3
				x.WriteHeader(p.code)
				act(1)
				x.Write([]byte("begun " + p.id))
				p.sent = "begun " + p.id
				act(2)
			}
			if i%2 == 0 && !x.Written() {
				x.Next()
				p.ev = append(p.ev, fmt.Sprint("after", i))
			}
			act(3)
		}
	}
	outer := func(name string) func(*water.Context) {
		return func(x *water.Context) {
			p := get(x.Request)
			p.outer = append(p.outer, "in "+name)
			x.Next()
			p.outer = append(p.outer, fmt.Sprintf("out %s %v %d", name, x.Written(), x.Status()))
		}
	}
	how := r.IntN(5) // 0 Use, 1 Before, 2 group argument, 3 Default, 4 none
	var root *water.Router
	nOuter := r.IntN(3)
	switch how {
	case 3:
		root = water.Default()
		nOuter = 0
	default:
		root = water.NewRouter()
		for i := 0; i < nOuter; i++ {
			if how == 1 {
				root.Before(outer(fmt.Sprint(i)))
			} else {
				root.Use(outer(fmt.Sprint(i)))
			}
		}
	}
	links := r.Rng(1, 4)
	var chain []interface{}
	for i := 0; i < links; i++ {
		chain = append(chain, link(i))
	}
	target := root
	prefix := ""
	switch how {
	case 0:
		root.Use(water.Recovery())
	case 1:
		root.Before(water.Recovery())
	case 2:
		target = root.Group("/g")
		target.Use(water.Recovery())
		prefix = "/g"
	}
	for _, m := range []string{"GET", "POST"} {
		addRoute(target, m, "/t/:id", chain)
		addRoute(target, m, "/plain", chain)
	}
	nf := how == 1 && r.Pct(70)
	opts := []water.Option{water.WithStaticRouter(r.Pct(50))}
	if nf {
		opts = append(opts, water.WithNoFoundHandlers(chain...))
	}
	eng := root.Handler(opts...)
	if late {
		water.Status, water.LogClose = water.Dev, !water.LogClose
		if stable {
			water.Status = water.Stable
		}
		c.Count("mode_set_later", 1)
	}
	recovered := how != 4
	srv := Listen(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		p := get(q)
		defer close(p.done)
		if p.late { // the client's patience, or a deadline, is over: what is sent stays the same
			ctx, cancel := context.WithCancel(q.Context())
			cancel()
			q = q.WithContext(ctx)
		}
		p.up, p.out = try(func() { eng.ServeHTTP(w, q) })
		if p.out {
			panic(http.ErrAbortHandler) // as net/http would, without its log
		}
	}))
	defer srv.Close()

	mk := func(r R, id string) *c10plan {
		p := &c10plan{id: id, links: links, panic: -1, reply: -1, kind: c10kind(r), done: make(chan struct{})}
		if r.Pct(65) {
			p.panic = r.IntN(links)
			p.point = r.IntN(4)
		}
		if r.Pct(70) {
			p.reply = r.IntN(links)
		}
		p.nf = nf && r.Pct(25)
		p.late = r.Pct(10)
		if r.Pct(25) {
			p.head = r.Rng(1, 3)
		}
		p.hint = p.panic >= 0 && p.point == 0 && r.Pct(15)
		return p
	}
	// model: which links run, what the client gets
	type expect struct {
		ev     []string
		panics bool
		status int // 0: nobody answered
		body   string
	}
	model := func(p *c10plan) (e expect) {
		// returns false when a panic unwinds
		var run func(i int) (next int, ok bool)
		run = func(i int) (int, bool) {
			for i < links {
				e.ev = append(e.ev, fmt.Sprint(i))
				if p.panic == i && p.point == 0 {
					return i, false
				}
				if p.reply == i || p.panic == i && (p.point == 1 || p.point == 2) {
					first := e.status == 0
					if first {
						e.status = 200 + len(p.id)%3
					}
					if p.panic == i && p.point == 1 {
						return i, false
					}
					e.body += "begun " + p.id
					if p.panic == i && p.point == 2 {
						return i, false
					}
				}
				at := i
				if i%2 == 0 && e.status == 0 {
					n, ok := run(i + 1)
					if !ok {
						return n, false
					}
					i = n
					e.ev = append(e.ev, fmt.Sprint("after", at))
				}
				if p.panic == at && p.point == 3 {
					return i, false
				}
				i++
				if e.status != 0 {
					return i, true
				}
			}
			return i, true
		}
		_, ok := run(0)
		e.panics = !ok
		return
	}
	one := func(p *c10plan) string {
		plans.Store(p.id, p)
		defer plans.Delete(p.id)
		path := prefix + "/t/" + p.id
		if len(p.id)%2 == 0 {
			path = prefix + "/plain"
		}
		if p.nf {
			path = "/nowhere/x"
		}
		method := "GET"
		if p.kind%2 == 0 {
			method = "POST"
		}
		conn := srv.Dial()
		defer conn.Close()
		conn.Write(Line(method, path, [][2]string{{"X-Id", p.id}}, nil))
		raw, _ := io.ReadAll(conn)
		if !awaited(p.done) {
			return fmt.Sprintf("the handlers did not run to their end: plan panic=%d point=%d kind=%d reply=%d nf=%v, raw %.300q", p.panic, p.point, p.kind, p.reply, p.nf, raw)
		}
		e := model(p)
		where := fmt.Sprintf("recovery by %d, stable=%v, %d links, plan panic=%d point=%d kind=%d reply=%d nf=%v cancelled=%v hint=%v head=%d: ",
			how, stable, links, p.panic, p.point, p.kind, p.reply, p.nf, p.late, p.hint, p.head)
		if !reflect.DeepEqual(p.ev, e.ev) {
			return where + fmt.Sprintf("handlers ran %v, expected %v", p.ev, e.ev)
		}
		status, body := e.status, e.body
		if e.panics && !recovered {
			if !p.out {
				return where + "the panic did not reach net/http"
			}
			return ""
		}
		if p.out {
			return where + fmt.Sprintf("a panic escaped: %v", p.up)
		}
		if e.panics && status == 0 {
			status = 500
		}
		resp, err := readRaw(raw, method)
		if err != nil {
			return where + fmt.Sprintf("no response: %v, raw %.300q", err, raw)
		}
		wire := status
		if wire == 0 {
			wire = 200
		}
		if resp.Status != wire {
			return where + fmt.Sprintf("got %v, expected status %d", resp, wire)
		}
		if !(e.panics && e.status == 0 && !stable) && string(resp.Body) != body {
			return where + fmt.Sprintf("got %v, expected the body %q", resp, body)
		}
		if e.panics && (stable || e.status != 0) {
			for _, leak := range []string{c10secret, "goroutine", "panic", "crash", ".go", "runtime"} {
				if strings.Contains(string(raw), leak) {
					return where + fmt.Sprintf("the response tells %q: %.400q", leak, raw)
				}
			}
		}
		if recovered && status == 0 {
			status = 200 // Recovery answers
		}
		if how == 2 {
			// outer middlewares are outside of the group's Recovery as well
		}
		var want []string
		if nOuter > 0 {
			for i := 0; i < nOuter; i++ {
				want = append(want, fmt.Sprint("in ", i))
			}
			for i := nOuter - 1; i >= 0; i-- {
				want = append(want, fmt.Sprintf("out %d %v %d", i, status != 0, status))
			}
		}
		if !reflect.DeepEqual(p.outer, want) {
			return where + fmt.Sprintf("outer middlewares saw %v, expected %v", p.outer, want)
		}
		return ""
	}
	clients := pick(r, []int{1, 2, 6})
	base := c.Uint64()
	fails := make([]string, clients)
	type tally struct{ m map[string]int }
	tallies := make([]map[string]int, clients)
	seen := make([][]string, clients)
	var wg sync.WaitGroup
	for g := 0; g < clients; g++ {
		wg.Add(1)
		tallies[g] = map[string]int{}
		go func(g int) {
			defer wg.Done()
			cr := newR(base, "c10", g)
			for i := 0; i < 30/clients; i++ {
				p := mk(cr, fmt.Sprintf("q%dc%dx%d", c.N, g, i))
				e := model(p)
				if f := one(p); f != "" {
					fails[g] = f
					return
				}
				t := tallies[g]
				t["requests"]++
				if p.late {
					t["cancelled"]++
				}
				if p.hint && e.panics {
					t["hints"]++
				}
				if p.head > 1 && e.panics && e.status == 0 && recovered {
					t["headers_left"]++
				}
				switch {
				case e.panics && recovered:
					t["recovered"]++
					if stable {
						t["stable_panics"]++
					} else {
						t["dev_panics"]++
					}
					if e.status != 0 {
						t["after_response"]++
					}
					if p.nf {
						t["notfound_panics"]++
					}
					seen[g] = append(seen[g], fmt.Sprint(p.kind, p.panic, p.point, stable, how, links, e.status != 0))
				case e.panics:
					t["unrecovered"]++
				default:
					t["healthy"]++
					if e.status == 0 && recovered {
						t["implicit_200"]++
					}
				}
			}
		}(g)
	}
	wg.Wait()
	if c.N%4 == 0 { // very many panics, and the engine is as good as new
		n := r.Tail(60, 600, 3000)
		for i := 0; i <= n; i++ {
			p := mk(r, fmt.Sprintf("q%dm%d", c.N, i))
			p.kind, p.panic, p.point, p.hint = pick(r, []int{r.IntN(20), 25 + r.IntN(len(c10known))}), r.IntN(links), r.IntN(4), false
			if p.kind == 17 || p.kind == 13 {
				p.kind = 0
			}
			path := prefix + "/plain"
			if nf && i%3 == 0 {
				path = "/nowhere"
			}
			if i == n {
				if fails[0] == "" {
					p.panic, p.point = -1, 0
					fails[0] = one(p)
				}
				break
			}
			plans.Store(p.id, p)
			q := Req("GET", path)
			q.Header.Set("X-Id", p.id)
			w := NewRec()
			up, out := try(func() { eng.ServeHTTP(w, q) })
			plans.Delete(p.id)
			e := model(p)
			if !reflect.DeepEqual(p.ev, e.ev) || out != (e.panics && !recovered) || e.panics && recovered && e.status == 0 && w.Status() != 500 {
				fails[0] = fmt.Sprintf("request %d of %d in a row that panic (recovery by %d, stable=%v, %d links, plan panic=%d point=%d kind=%d reply=%d): escaped %v %v, status %d, handlers ran %v, expected %v", i, n, how, stable, links, p.panic, p.point, p.kind, p.reply, out, up, w.Status(), p.ev, e.ev)
				break
			}
			if e.panics {
				c.Count("panics_in_a_row", 1)
			}
			c.Eval()
		}
	}
	if clients > 1 {
		c.Count("concurrent_batches", 1)
	}
	for g := range fails {
		if fails[g] != "" {
			c.Fail("containment", "%s", fails[g])
			return
		}
		for k, v := range tallies[g] {
			c.Count(k, v)
			if k == "requests" {
				for ; v > 0; v-- {
					c.Eval()
				}
			}
		}
		for _, s := range seen[g] {
			c.Seen(s)
		}
	}
	c.Sample(func() any {
		return map[string]any{"recovery": how, "stable": stable, "links": links, "outer": nOuter, "clients": clients, "tallies": tallies}
	})
}
