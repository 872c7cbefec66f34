package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/meilihao/logx"
	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C15", Quick: 300, Thor: 6000, Serial: true,
		Rule:   "a case is an engine with the logging middleware (as Use, Before, in the not-found chain or on one route, with recovery inside or outside) and logger settings; batches of requests with bodies of all sizes, framings and types, read errors included, run concurrently in a race-detector build, each also against a twin engine without the logger; what the handler saw, what the client got and the captured log are matched by per-request tokens. Non-trivial: a logged request with a body, a non-200 answer or company; distinct by settings, body size, type, script and client address source.",
		Need:   []string{"requests", "records", "json_bodies_logged", "bodies_withheld", "closed_settings", "set_later", "read_errors", "over_1m", "concurrent_batches", "implicit_200", "notfound_logged", "recovered", "chunked", "ready_made", "trace_ids", "bodies_closed", "decoded_bodies", "long_targets", "cancelled"},
		Before: c15before, Case: c15})
}

// c15log captures everything written to standard output.
var c15log struct {
	sync.Mutex
	c *sync.Cond
	b bytes.Buffer
}

func c15before(e *Env) { captureStdout(); consoleLog() }

var stdoutOnce sync.Once

func captureStdout() {
	stdoutOnce.Do(func() {
		r, w, err := os.Pipe()
		must(err)
		os.Stdout = w
		c15log.c = sync.NewCond(&c15log)
		go func() {
			buf := make([]byte, 1<<16)
			for {
				n, err := r.Read(buf)
				c15log.Lock()
				c15log.b.Write(buf[:n])
				c15log.c.Broadcast()
				c15log.Unlock()
				if err != nil {
					return
				}
			}
		}()
	})
}

func consoleLog() {
	l := logx.NewLogger()
	l.SetFuncCallDepth(3)
	must(l.AddLogger("console"))
	logx.SetOutput(l)
}

var sentinels atomic.Int64

// takeLog waits until all that was written before has arrived, and takes it.
func takeLog() string {
	mark := fmt.Sprintf("<<sentinel %d>>\n", sentinels.Add(1))
	_, err := os.Stdout.WriteString(mark)
	must(err)
	c15log.Lock()
	defer c15log.Unlock()
	for !bytes.HasSuffix(c15log.b.Bytes(), []byte(mark)) {
		c15log.c.Wait()
	}
	s := strings.TrimSuffix(c15log.b.String(), mark)
	c15log.b.Reset()
	return s
}

var ansiRe = regexp.MustCompile("\x1b\\[[0-9;]*m")

type c15req struct {
	token   string
	method  string
	target  string
	url     string // as the request's URL prints
	hdr     [][2]string
	ct      string
	json    bool
	body    []byte
	chunked bool
	errAt   int // in process: the body fails there
	read    int // 0 not, 1 all, 2 some, 3 in pieces, 4 through Bind
	resp    int
	code    int
	logged  bool
	maybe   bool // the handler panicked through the logger
	known   string
	wg      *sync.WaitGroup

	mu     sync.Mutex
	peer   string
	seen   []byte
	seenOK string
	rerr   error
	closed int
	runs   int
	status int // sent, as the connection saw it
}

type c15body struct {
	q      *c15req
	left   []byte
	failed bool
	n      int
	r      R
}

var errC15 = errors.New("connection torn")

// readErr is what the body fails with.
func (q *c15req) readErr() error {
	return []error{errC15, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded}[q.errAt/2%3]
}

func (b *c15body) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	lim := len(p)
	if b.r.Pct(50) {
		lim = min(lim, b.r.Rng(1, 4096))
	}
	if b.q.errAt >= 0 {
		lim = min(lim, b.q.errAt-b.n)
	}
	if b.q.errAt >= 0 && lim == 0 {
		if b.failed && b.q.errAt%2 == 0 { // net/http's own body says EOF from then on
			return 0, io.EOF
		}
		b.failed = true
		return 0, b.q.readErr()
	}
	n := copy(p[:lim], b.left)
	b.left = b.left[n:]
	b.n += n
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}
func (b *c15body) Close() error { b.q.mu.Lock(); b.q.closed++; b.q.mu.Unlock(); return nil }

// c15spy sees the status that reaches the connection.
type c15spy struct {
	http.ResponseWriter
	code int
}

func (s *c15spy) WriteHeader(c int) {
	if s.code == 0 {
		s.code = c
	}
	s.ResponseWriter.WriteHeader(c)
}
func (s *c15spy) Write(b []byte) (int, error) {
	if s.code == 0 {
		s.code = 200
	}
	return s.ResponseWriter.Write(b)
}

func c15handler(x *water.Context) {
	q, _ := Val(x.Request, "q").(*c15req)
	if q == nil {
		return
	}
	q.mu.Lock()
	q.runs++
	q.peer = x.Request.RemoteAddr
	q.seenOK = fmt.Sprintf("%s %s %d %q %q %s", x.Request.Method, x.Request.URL, x.Request.ContentLength, x.Request.TransferEncoding, x.Request.Header, x.Request.Host)
	q.mu.Unlock()
	var seen []byte
	var rerr error
	body := x.Request.Body
	switch q.read {
	case 1:
		seen, rerr = io.ReadAll(body)
		body.Close()
	case 2:
		buf := make([]byte, len(q.body)/2)
		n := 0
		n, rerr = io.ReadFull(body, buf)
		seen = buf[:n]
	case 3:
		buf := make([]byte, 1+len(q.body)/7)
		for rerr == nil {
			var n int
			n, rerr = body.Read(buf)
			seen = append(seen, buf[:n]...)
		}
		if rerr == io.EOF {
			rerr = nil
		}
	case 4:
		var v any
		rerr = json.NewDecoder(body).Decode(&v)
		seen = q.body
	}
	q.mu.Lock()
	q.seen, q.rerr = seen, rerr
	q.mu.Unlock()
	c15respond(x, q)
}

func c15respond(x *water.Context, q *c15req) {
	switch q.resp {
	case 0:
	case 1:
		x.WriteHeader(q.code)
	case 2:
		x.String(q.code, "answer "+q.known)
	case 3:
		x.Write([]byte("only a body"))
	case 4:
		x.WriteHeader(q.code)
		x.WriteHeader(201)
		x.Write([]byte("twice"))
	case 5:
		x.JSON(q.code, map[string]string{"k": q.known})
	case 6:
		x.Found("/elsewhere")
	case 7:
		http.Error(x, "oops", q.code)
	case 8:
		x.Forbidden()
	case 9:
		panic("handler gave up")
	case 10:
		x.WriteHeader(q.code)
		panic("handler gave up later")
	}
}

func c15(c *C) {
	r := c.R
	// settings: plain globals, so only set while nothing runs; the application may set them before it makes its engine or after
	settings := func() {
		water.LogClose = r.Pct(15)
		water.LogHttpBody = r.Pct(70)
		water.LogColor = r.Pct(50)
		water.LogTimeFormat = pick(r, []string{"2006-01-02 15:04:05", time.RFC3339Nano})
	}
	settings()
	defer func() {
		water.LogClose, water.LogHttpBody, water.LogColor, water.LogTimeFormat = false, true, true, "2006-01-02 15:04:05"
	}()
	where := r.IntN(4) // of the logger: 0 Use, 1 Before, 2 on a group, 3 as an http-like wrapped handler
	recov := r.IntN(3) // 0 none, 1 inside, 2 outside of the logger
	nfWith := r.Pct(60)
	ready := where == 0 && recov == 1 && r.Pct(60)
	if ready {
		c.Count("ready_made", 1)
	}
	build := func(with bool) *water.Engine {
		rt := water.NewRouter()
		ready := ready && with
		if ready && c.N%2 == 0 {
			rt = water.Default()
		} else if ready {
			rt.Classic()
		}
		lg := func() []interface{} {
			var l []interface{}
			if recov == 2 {
				l = append(l, water.Recovery())
			}
			if with {
				l = append(l, water.Logger())
			}
			if recov == 1 {
				l = append(l, water.Recovery())
			}
			return l
		}
		h := rt
		switch where {
		case 0, 3:
			if !ready {
				rt.Use(lg()...)
			}
		case 1:
			rt.Before(lg()...)
		case 2:
			h = rt.Group("/g")
			h.Use(lg()...)
		}
		h.Use(func(x *water.Context) {
			if q, _ := Val(x.Request, "q").(*c15req); q != nil && q.code == 418 && q.resp == 1 { // a gate answers instead
				x.WriteHeader(418)
				return
			}
			x.Next()
		})
		for _, m := range methods {
			addRoute(h, m, "/p/:id", []interface{}{c15handler})
			addRoute(h, m, "/f/*", []interface{}{c15handler})
		}
		var o []water.Option
		if nfWith {
			var l []interface{}
			if where != 1 {
				l = lg()
			}
			o = append(o, water.WithNoFoundHandlers(append(l, c15handler)...))
		}
		return rt.Handler(o...)
	}
	e, twin := build(true), build(false)
	if r.Pct(50) {
		settings()
		c.Count("set_later", 1)
	}
	if water.LogClose {
		c.Count("closed_settings", 1)
	}
	var reqs sync.Map
	front := func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, x *http.Request) {
			if v, ok := reqs.Load(x.Header.Get("X-Token")); ok {
				q := v.(*c15req)
				spy := &c15spy{ResponseWriter: w}
				defer q.wg.Done()
				defer func() { q.mu.Lock(); q.status = spy.code; q.mu.Unlock() }()
				h.ServeHTTP(spy, With(x, "q", q))
			}
		})
	}
	srv, srv2 := Listen(front(e)), Listen(front(twin))
	defer srv.Close()
	defer srv2.Close()
	takeLog()

	gen := func(b, i int) *c15req {
		q := &c15req{token: fmt.Sprintf("tok%dx%dx%dz", c.N, b, i), errAt: -1, known: r.Word()}
		q.method = pick(r, []string{"GET", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"})
		p := pick(r, []string{"/p/" + q.token, "/f/a/" + q.token, "/f/%25d/" + q.token, "/p/%E4%B8%AD" + q.token})
		inGroup := where == 2
		if inGroup {
			p = "/g" + p
		}
		nf := false
		if r.Pct(15) {
			p, nf = "/nowhere/"+q.token, true
		}
		q.target = p + pick(r, []string{"", "", "?a=1&b=%20%s", "?x=%0a[E]", "?x=%0A%0D", "?%zz=1", "?q=|200|"})
		if r.Pct(6) {
			if !strings.Contains(q.target, "?") && r.Pct(50) {
				q.target += "?long="
			}
			q.target += r.From("abc=&0", r.Rng(200, 1000)) + strings.Repeat(r.Str("%20", "&a=", "x")+r.Word(), r.IntN(900))
			c.Count("long_targets", 1)
		}
		q.url = q.target
		q.logged = !nf || nfWith
		q.resp = r.IntN(9)
		q.code = pick(r, []int{200, 201, 204, 206, 206, 299, 304, 400, 404, 418, 499, 500, 503, 599})
		if r.Pct(20) {
			q.code = r.Rng(200, 599)
		}
		if recov != 0 && r.Pct(20) {
			q.resp = r.Rng(9, 10)
			// without recovery in the not-found chain the panic belongs to the server
			if nf && !nfWith {
				q.resp = 0
			}
		}
		if q.resp >= 9 && recov == 2 {
			q.maybe = true
		}
		q.ct = pick(r, []string{"application/json", "application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8", "text/plain", "application/x-www-form-urlencoded", "application/octet-stream", "multipart/form-data; boundary=xx", ""})
		q.json = strings.Contains(q.ct, "application/json")
		if r.Pct(75) {
			n := pick(r, []int{0, 1, 2, 100, 511, 512, 513, 4095, 4096, 4097, 40000, 65536})
			if r.Pct(4) || c.Thorough() && r.Pct(10) {
				n = 1<<20 + pick(r, []int{-1, 0, 1, 7, 4096, 1 << 20})
			}
			q.body = make([]byte, n)
			copy(q.body, []byte(`{"v":"`+q.token+`body`))
			fill := r.From("abcdefgh<>%\n\té中", 61)
			for k := len(q.token) + 10; k < n; k += len(fill) {
				copy(q.body[k:], fill)
			}
			for k := 0; k < n; k++ { // no stray zero bytes
				if q.body[k] == 0 {
					q.body[k] = '0'
				}
			}
			if n > 60 {
				copy(q.body[n-2:], `"}`)
				copy(q.body[n-2-len(q.token)-3:], q.token+"end")
			}
			// bytes a well-meaning filter might drop at either end
			odd := []string{"\xef\xbb\xbf", "\xff\xfe", " ", "\n", "\r\n", "\t", "\x00", "\x1b[0m", "\xff", "/*c*/", ")]}',\n", "\xc2\xa0", "\xe2\x80\xa8"}
			if r.Pct(12) {
				q.body = append([]byte(pick(r, odd)), q.body...)
			}
			if r.Pct(12) {
				q.body = append(q.body, pick(r, odd)...)
			}
		} else {
			q.body = nil
		}
		q.read = r.IntN(5)
		if q.read == 4 && !json.Valid(q.body) {
			q.read = 1
		}
		q.chunked = len(q.body) > 0 && r.Pct(30)
		q.hdr = [][2]string{{"X-Token", q.token}}
		if q.ct != "" {
			q.hdr = append(q.hdr, [2]string{"Content-Type", q.ct})
		}
		if r.Pct(50) {
			q.hdr = append(q.hdr, [2]string{"Trace-ID", pick(r, []string{"t-1", "%s%d", "|"})})
		}
		ip := fmt.Sprintf("10.%d.%d.%d", r.IntN(256), r.IntN(256), r.IntN(256))
		if r.Pct(25) { // the next generation
			ip = fmt.Sprintf("fe80::%x:%x", r.IntN(65535)+1, r.IntN(65535)+1) + pick(r, []string{"", "%eth0", "%25"})
		}
		switch r.IntN(4) {
		case 0:
			q.hdr = append(q.hdr, [2]string{"X-Real-Ip", ip})
			if r.Pct(50) {
				q.hdr = append(q.hdr, [2]string{"X-Forwarded-For", "9.9.9.9"})
			}
		case 1:
			q.hdr = append(q.hdr, [2]string{"X-Forwarded-For", ip + ", 9.9.9.9"})
		default:
			ip = ""
		}
		q.known += ip // "" : the peer
		q.hdr = append(q.hdr, [2]string{"X-Want-Ip", ip})
		return q
	}
	wantIP := func(q *c15req) string {
		for _, h := range q.hdr {
			if h[0] == "X-Want-Ip" && h[1] != "" {
				return h[1]
			}
		}
		h, _, _ := net.SplitHostPort(q.peer)
		return h
	}
	fail := func(sig string, q *c15req, format string, a ...any) {
		c.Fail(sig, "%s\n%s %s %v body %d bytes chunked=%v errAt=%d read=%d resp=%d code=%d; logger at %d, recovery %d, close=%v body=%v color=%v",
			fmt.Sprintf(format, a...), q.method, q.target, q.hdr, len(q.body), q.chunked, q.errAt, q.read, q.resp, q.code, where, recov, water.LogClose, water.LogHttpBody, water.LogColor)
	}
	raw := func(q *c15req) []byte {
		if !q.chunked {
			return Line(q.method, q.target, q.hdr, q.body)
		}
		var b bytes.Buffer
		b.Write(Line(q.method, q.target, append(q.hdr[:len(q.hdr):len(q.hdr)], [2]string{"Transfer-Encoding", "chunked"}), nil))
		for rest, k := q.body, 1+len(q.body)/5; len(rest) > 0; {
			n := min(k, len(rest))
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		b.WriteString("0\r\n\r\n")
		return b.Bytes()
	}
	send := func(s *Server, q *c15req) (res *Resp) {
		return s.Raw(q.method, raw(q))
	}
	sawBody := func(q *c15req) bool {
		want := q.body
		if q.errAt >= 0 {
			want = want[:q.errAt]
		}
		switch q.read {
		case 1, 3:
			if !bytes.Equal(q.seen, want) || (q.errAt >= 0) != (q.rerr != nil) || q.errAt >= 0 && q.rerr != q.readErr() {
				fail("body", q, "the handler read %d bytes (%.80q...) and %v", len(q.seen), q.seen, q.rerr)
				return false
			}
		case 2:
			k := len(q.body) / 2
			if q.errAt >= 0 {
				k = min(k, q.errAt)
			}
			if !bytes.Equal(q.seen, q.body[:k]) {
				fail("body", q, "the handler read %d bytes (%.80q...) of the first %d, and %v", len(q.seen), q.seen, k, q.rerr)
				return false
			}
		case 4:
			if q.rerr != nil {
				fail("body", q, "the handler could not decode the body: %v", q.rerr)
				return false
			}
		}
		return true
	}
	expectRuns := func(q *c15req) bool {
		nf := strings.Contains(q.target, "/nowhere/")
		return (!nf || nfWith) && !(q.code == 418 && q.resp == 1 && !nf)
	}

	for b := r.Rng(1, 3); b > 0; b-- {
		k := 1
		if r.Pct(70) {
			k = r.Rng(2, 12)
			c.Count("concurrent_batches", 1)
		}
		var qs []*c15req
		for i := 0; i < k; i++ {
			qs = append(qs, gen(b, i))
		}
		// the twins first
		type view struct{ seen, resp string }
		twins := make([]view, k)
		resp := make([]*Resp, k)
		inproc := make([]bool, k)
		for i := range inproc {
			inproc[i] = qs[i].resp < 9 && r.Pct(25)
			if inproc[i] && len(qs[i].body) > 0 && r.Pct(50) && qs[i].read != 4 {
				qs[i].errAt = r.IntN(len(qs[i].body) + 1)
				c.Count("read_errors", 1)
			}
		}
		show := func(q *c15req, x *Resp) string {
			if i := bytes.Index(x.Body, []byte("gave up")); i >= 0 { // a stack follows, which has the logger in it
				return fmt.Sprint(x.Status, x.Head.Get("Content-Type"), string(x.Body[:i]))
			}
			if x.Err != nil {
				return "no response"
			}
			h := x.Head.Clone()
			delete(h, "Date")
			if q.method == "HEAD" && q.resp >= 9 { // the length of that stack
				delete(h, "Content-Length")
			}
			return fmt.Sprint(x.Status, h, " ", string(x.Body), " ", string(x.Rest))
		}
		run := func(s *Server, h http.Handler, i int) *Resp {
			q := qs[i]
			q.wg = &sync.WaitGroup{}
			q.wg.Add(1)
			if !inproc[i] {
				reqs.Store(q.token, q)
				x := send(s, q)
				ended := make(chan struct{})
				go func() { q.wg.Wait(); close(ended) }()
				if !awaited(ended) {
					return &Resp{Err: errors.New("the handlers did not run to their end")}
				}
				reqs.Delete(q.token)
				return x
			}
			req := Req(q.method, "/")
			must2(req, q)
			req.Body = &c15body{q: q, left: q.body, r: newR(c.Seed, q.token, i)}
			if gr := newR(c.Seed, q.token+" length", i); gr.Pct(15) { // somebody decoded the body, the header tells of what was sent
				req.ContentLength = int64(gr.IntN(3) * gr.IntN(len(q.body)+10))
				c.Count("decoded_bodies", 1)
			}
			if gr := newR(c.Seed, q.token+" gone", i); gr.Pct(25) {
				req = req.WithContext(Gone(gr, req.Context()))
				c.Count("cancelled", 1)
			}
			spy := &c15spy{ResponseWriter: NewRec()}
			p, bad := try(func() { h.ServeHTTP(spy, With(req, "q", q)) })
			if bad {
				return &Resp{Err: fmt.Errorf("panic %v", p)}
			}
			q.status = spy.code
			rec := spy.ResponseWriter.(*Rec)
			return &Resp{Status: rec.Status(), Head: rec.Head, Body: rec.Body.Bytes()}
		}
		for i, q := range qs {
			x := run(srv2, twin, i)
			twins[i] = view{q.seenOK, show(q, x)}
			q.seen, q.rerr, q.runs, q.seenOK, q.status, q.closed = nil, nil, 0, "", 0, 0
		}
		if extra := takeLog(); strings.Contains(extra, "[ water : ") {
			panic("harness: the twin logged: " + extra)
		}
		var wg sync.WaitGroup
		for i := range qs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				resp[i] = run(srv, e, i)
			}()
		}
		wg.Wait()
		out := takeLog()
		segs := strings.Split(out, "[ water : ")[1:]
		for i, q := range qs {
			c.Eval()
			c.Count("requests", 1)
			c.Seen(len(q.body), q.ct, q.resp, q.code, q.read, k > 1, water.LogClose, water.LogHttpBody, where, recov)
			if q.chunked {
				c.Count("chunked", 1)
			}
			if expectRuns(q) {
				if q.runs != 1 {
					fail("disturbed", q, "the handler ran %d times", q.runs)
					return
				}
				if q.seenOK != twins[i].seen {
					fail("disturbed", q, "the handler saw %s, without the logger %s", q.seenOK, twins[i].seen)
					return
				}
				if !sawBody(q) {
					return
				}
				if inproc[i] && q.read == 1 && len(q.body) > 0 {
					c.Count("bodies_closed", 1)
					if q.closed == 0 {
						fail("disturbed", q, "the handler closed the body and the request's stayed open")
						return
					}
				}
			}
			if s := show(q, resp[i]); s != twins[i].resp {
				fail("disturbed", q, "the client got %.3000q, without the logger %.3000q", s, twins[i].resp)
				return
			}
			var mine []string
			for _, s := range segs {
				hd, _, _ := strings.Cut(s, "\n")
				if strings.Contains(hd, q.token) {
					mine = append(mine, s)
				}
			}
			if water.LogClose || !q.logged {
				if strings.Contains(out, q.token) {
					fail("logged-closed", q, "nothing should be logged: %.2000q", out)
					return
				}
				continue
			}
			if len(mine) == 0 && q.maybe {
				continue
			}
			if len(mine) != 1 {
				fail("records", q, "%d records for the request in %.4000q", len(mine), out)
				return
			}
			c.Count("records", 1)
			if strings.Contains(q.target, "/nowhere/") {
				c.Count("notfound_logged", 1)
			}
			if q.resp >= 9 {
				c.Count("recovered", 1)
			}
			seg := mine[0]
			hd, rest, more := strings.Cut(seg, "\n")
			if strings.Contains(hd, "\x1b") != water.LogColor && !water.LogColor && strings.Contains(strings.TrimSuffix(hd, "\x1b[0m"), "\x1b") {
				fail("color", q, "colour though switched off: %q", hd)
				return
			}
			hd = ansiRe.ReplaceAllString(hd, "")
			st := q.status
			if st == 0 {
				st = 200
				c.Count("implicit_200", 1)
			}
			ip := wantIP(q)
			if inproc[i] && ip == "" {
				ip = "192.0.2.7"
			}
			if !regexp.MustCompile(fmt.Sprintf(`\|\s*%d\s*\|`, st)).MatchString(strings.Replace(hd, q.url, "", 1)) {
				fail("status", q, "the status sent was %d: %q", st, hd)
				return
			}
			if !regexp.MustCompile(`\s` + regexp.QuoteMeta(ip) + `[\s|]`).MatchString(hd) {
				fail("address", q, "the client address is %q: %q", ip, hd)
				return
			}
			if !regexp.MustCompile(`\s` + q.method + `\s+` + regexp.QuoteMeta(q.url) + `\s*$`).MatchString(hd) {
				fail("url", q, "expected %s %s: %q", q.method, q.url, hd)
				return
			}
			for _, h := range q.hdr {
				if h[0] == "Trace-ID" {
					c.Count("trace_ids", 1)
					if head, _, _ := strings.Cut(hd, "]"); strings.TrimSpace(head) != h[1] {
						fail("trace", q, "the request's trace ID is %q: %q", h[1], hd)
						return
					}
				}
			}
			for _, o := range qs {
				if o != q && strings.Contains(seg, o.token) {
					fail("mixed", q, "the record also has another request's %s: %.3000q", o.token, seg)
					return
				}
			}
			want := q.body
			if q.errAt >= 0 {
				want = want[:q.errAt]
			}
			if q.json && water.LogHttpBody {
				if len(want) > 1<<20 {
					c.Count("over_1m", 1)
					if strings.Contains(rest, string(want[:1<<20+1])) {
						fail("too-much", q, "more than the first mebibyte of the body was logged")
						return
					}
					want = want[:1<<20]
				}
				if len(want) > 0 {
					c.Count("json_bodies_logged", 1)
					if !more || !strings.HasPrefix(rest, string(want)) {
						fail("log-body", q, "the body is missing in the record: %.2000q", seg)
						return
					}
				}
			} else {
				c.Count("bodies_withheld", 1)
				if strings.Contains(out, q.token+"body") {
					fail("body-leaked", q, "the body should not be logged: %.2000q", seg)
					return
				}
			}
		}
	}
	c.Sample(func() any {
		return map[string]any{"logger": where, "recovery": recov, "close": water.LogClose, "bodies": water.LogHttpBody}
	})
}

// must2 fills an in-process request from the generated one.
func must2(req *http.Request, q *c15req) {
	raw := Line(q.method, q.target, q.hdr, nil)
	x, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(raw)))
	must(err)
	req.URL, req.Header, req.RequestURI, req.Host = x.URL, x.Header, x.RequestURI, x.Host
	req.ContentLength = int64(len(q.body))
}
