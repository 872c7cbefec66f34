package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

func init() {
	register(&Prop{ID: "C37", Quick: 30000, Thor: 500000,
		Rule: "a case is an engine whose handler of some form and place interprets a program of writes, body reads, streams and looks at the request's context, under a writer that takes only part of some write or fails and a body that counts how far it was read; after every step the writer must hold what was written and the body must not have been read ahead, and each step must report what writer, body and context said. Some cases hold such a dialogue over a connection with a client that sends the next part of its body only once the handler has had the last one, waits for each part of the answer, or goes away while the handler waits for cancellation, or has sent its multipart form whole but ends the body only after the answer. A logger recording JSON bodies must hand on the request's own context and the whole body. Non-trivial: a fault, a dialogue or at least three steps; distinct by program, fault and place.",
		Need: []string{"requests", "writes", "reads", "short_writes", "failed_writes", "json_failed", "xml_failed", "stream_failed", "streams", "stream_steps", "pushing_sources", "cancelled_before", "cancelled_during", "deadlines", "values", "upload_dialogues", "form_dialogues", "logged_bodies", "download_dialogues", "client_gone", "http_handlers", "before_handlers", "middlewares", "notfound", "unread_bodies", "recovery", "logger"},
		Case: c37})
}

var errC37 = errors.New("connection broken")

// c37writer takes limit bytes and then fails.
type c37writer struct {
	h     http.Header
	code  int
	got   []byte
	limit int // -1: no fault
	fails int
	quiet bool // reports what it took, and no error
	err   error
}

func (w *c37writer) Header() http.Header { return w.h }
func (w *c37writer) WriteHeader(code int) {
	if w.code == 0 {
		w.code = code
	}
}
func (w *c37writer) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	if w.limit >= 0 && len(w.got)+len(b) > w.limit {
		n := max(0, w.limit-len(w.got))
		w.got = append(w.got, b[:n]...)
		w.fails++
		if w.quiet {
			return n, nil
		}
		return n, w.err
	}
	w.got = append(w.got, b...)
	return len(b), nil
}
func (w *c37writer) Flush()                   {}
func (w *c37writer) CloseNotify() <-chan bool { return make(chan bool) }
func (w *c37writer) Hijack() (rw net.Conn, b *bufio.ReadWriter, err error) {
	return nil, nil, errors.New("no")
}

// c37body counts what was taken from it.
type c37body struct {
	r    io.Reader
	took int
}

func (b *c37body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	b.took += n
	return n, err
}
func (b *c37body) Close() error { return nil }

// c37source hands out one piece per read and looks before each whether the last ones have arrived.
type c37source struct {
	parts [][]byte
	given int
	look  func(given int)
	err   error
}

func (s *c37source) Read(p []byte) (int, error) {
	s.look(s.given)
	if len(s.parts) == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := copy(p, s.parts[0])
	if s.parts[0] = s.parts[0][n:]; len(s.parts[0]) == 0 {
		s.parts = s.parts[1:]
	}
	s.given += n
	return n, nil
}

// c37pushed writes its pieces to where they should go.
type c37pushed struct{ *c37source }

func (s c37pushed) WriteTo(w io.Writer) (n int64, err error) {
	for _, p := range s.parts {
		s.look(s.given)
		k, err := w.Write(p)
		n += int64(k)
		s.given += len(p)
		if err == nil && k < len(p) {
			err = io.ErrShortWrite
		}
		if err != nil {
			return n, err
		}
	}
	s.look(s.given)
	return n, s.err
}

const c37ahead = 64 << 10 // what may be held back in a buffer

type c37app struct {
	e     *water.Engine
	desc  string
	http  bool
	log   bool
	path  string
	place int
}

// c37build puts h somewhere in an engine's chain.
func c37build(c *C, h func(x *water.Context, w http.ResponseWriter, q *http.Request)) *c37app {
	r := c.R
	a := &c37app{path: "/a/b", place: r.IntN(5)}
	rt := water.NewRouter()
	if r.Pct(25) {
		a.log = true
		rt.Before(water.Logger())
		a.desc += " logger"
		c.Count("logger", 1)
	}
	if r.Pct(40) {
		rt.Before(water.Recovery())
		a.desc += " recovery"
		c.Count("recovery", 1)
	}
	if r.Pct(25) {
		rt.Before(water.CORS(water.CORSConfig{}))
		a.desc += " cors"
	}
	var hh interface{} = func(x *water.Context) { h(x, x, x.Request) }
	if r.Pct(30) {
		a.http = true
		hh = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { h(nil, w, q) })
		a.desc += " http"
		c.Count("http_handlers", 1)
	}
	end := func(x *water.Context) { x.String(200, "end") }
	var opts []water.Option
	add := func(hs ...interface{}) {
		pat := r.Str("/a/b", "/a/<x>", "/a/*", "/<n ~ [a-z]+>/b")
		for _, m := range methods {
			addRoute(rt, m, pat, hs)
		}
	}
	switch a.place {
	case 0:
		rt.Before(hh)
		add(end)
		c.Count("before_handlers", 1)
	case 1:
		rt.Use(hh)
		add(end)
		c.Count("middlewares", 1)
	case 2:
		add(hh, end)
	case 3:
		add(func(x *water.Context) { x.Next() }, hh, end)
	case 4:
		opts = append(opts, water.WithNoFoundHandlers(hh, end))
		a.path = "/none/at/all"
		add(end)
		c.Count("notfound", 1)
	}
	opts = append(opts, water.WithStaticRouter(r.Pct(50)))
	a.desc = fmt.Sprintf("place %d%s", a.place, a.desc)
	a.e = rt.Handler(opts...)
	return a
}

func c37(c *C) {
	switch {
	case c.N%60 == 7:
		c37upload(c)
	case c.N%60 == 17:
		c37form(c)
	case c.N%60 == 27:
		c37download(c)
	case c.N%60 == 47:
		c37gone(c)
	default:
		c37steps(c)
	}
}

func c37steps(c *C) {
	r := c.R
	w := &c37writer{h: http.Header{}, limit: -1, err: pick(r, []error{errC37, errC37, http.ErrBodyNotAllowed, http.ErrContentLength, http.ErrHandlerTimeout, http.ErrAbortHandler, io.ErrShortWrite, io.ErrClosedPipe, io.EOF, io.ErrUnexpectedEOF, net.ErrClosed, syscall.EPIPE, syscall.ECONNRESET, context.Canceled, context.DeadlineExceeded, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EAGAIN}})}
	body := r.Bytes(pick(r, []int{0, 1, 100, 5000, 300000}))
	src := &c37body{r: bytes.NewReader(body)}
	fault := r.Pct(35)
	if fault {
		w.limit = pick(r, []int{0, 1, 10, 500, 4096, 40000})
		c.Seen("error", w.err)
		w.quiet = r.Pct(15)
	}
	head := 0
	if r.Pct(15) {
		head = pick(r, []int{200, 201, 204, 204, 304, 304, 404, 500})
		if head == 204 || head == 304 { // as net/http's writer does
			fault, w.limit, w.quiet, w.err = true, 0, false, http.ErrBodyNotAllowed
			c.Count("bodiless", 1)
		}
	}
	type key struct{}
	base := context.WithValue(context.Background(), key{}, c.N)
	cancelAt := -1
	var cancel context.CancelFunc
	deadline := time.Time{}
	if r.Pct(30) {
		deadline = time.Now().Add(time.Hour + time.Duration(c.N)*time.Second)
		base, cancel = context.WithDeadline(base, deadline)
	} else {
		base, cancel = context.WithCancel(base)
	}
	defer cancel()
	n := r.Rng(1, 6)
	if r.Pct(50) {
		cancelAt = r.IntN(n + 1) // before the handler at 0, otherwise by its step
	}
	var prog []string
	for i := 0; i < n; i++ {
		prog = append(prog, r.Str("write", "write", "read", "readall", "ctx", "stream", "json", "xml", "copy", "fprint"))
	}
	bad := ""
	fail := func(format string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(format, a...)
		}
	}
	ran := 0
	ahead := false // the logger may read the body ahead
	var sent []byte
	took := 0
	a := c37build(c, func(x *water.Context, out http.ResponseWriter, q *http.Request) {
		ran++
		if head > 0 {
			out.WriteHeader(head)
		}
		check := func(at string, wrote bool) {
			if wrote {
				c.Count("writes", 1)
			}
			over := w.limit >= 0 && len(sent) > w.limit
			want := sent
			if over {
				want = want[:w.limit]
			}
			if !bytes.Equal(w.got, want) {
				fail("%s: the writer has %d bytes when %d were written (limit %d)", at, len(w.got), len(want), w.limit)
			}
			if src.took > took && !ahead {
				fail("%s: %d bytes of the body were taken when the handlers had read %d", at, src.took, took)
			}
		}
		check("start", false)
		if got := q.Context().Value(key{}); got != c.N {
			fail("the request's context lost its values")
		}
		c.Count("values", 1)
		for i, op := range prog {
			if cancelAt == i+1 {
				cancel()
				c.Count("cancelled_during", 1)
			}
			failed := w.fails
			switch op {
			case "write", "fprint":
				b := r.Bytes(pick(r, []int{1, 5, 600, 5000}))
				before := len(w.got)
				var k int
				var err error
				if op == "fprint" {
					k, err = fmt.Fprintf(out, "%s", b)
				} else {
					k, err = out.Write(b)
				}
				sent = append(sent, b...)
				switch {
				case w.fails > failed:
					if !w.quiet && !errors.Is(err, w.err) || k != len(w.got)-before {
						fail("step %d: Write said %d %v when the connection took %d and failed", i, k, err, len(w.got)-before)
					}
					if k > 0 {
						c.Count("short_writes", 1)
					}
					c.Count("failed_writes", 1)
					sent = append([]byte(nil), w.got...)
				case err != nil || k != len(b):
					fail("step %d: Write of %d bytes said %d %v", i, len(b), k, err)
				}
				check(fmt.Sprintf("step %d %s", i, op), true)
			case "copy":
				b := r.Bytes(pick(r, []int{3, 40000, 70000}))
				_, err := io.Copy(out, struct{ io.Reader }{bytes.NewReader(b)})
				sent = append(sent, b...)
				if (w.fails > failed) != (err != nil) || err != nil && !w.quiet && !errors.Is(err, w.err) {
					fail("step %d: Copy said %v, the connection failed: %v", i, err, w.fails > failed)
				}
				if w.fails > failed {
					sent = append([]byte(nil), w.got...)
				}
				check(fmt.Sprintf("step %d copy", i), true)
			case "read":
				b := make([]byte, pick(r, []int{1, 10, 1000, 40000}))
				k, err := q.Body.Read(b)
				if err != nil && err != io.EOF || !bytes.Equal(b[:k], body[took:took+k]) || err == io.EOF && took+k != len(body) {
					fail("step %d: Read at %d of %d said %d %v", i, took, len(body), k, err)
				}
				took += k
				c.Count("reads", 1)
				check(fmt.Sprintf("step %d read", i), false)
			case "readall":
				b, err := io.ReadAll(q.Body)
				if err != nil || !bytes.Equal(b, body[took:]) {
					fail("step %d: reading the rest at %d of %d said %d bytes %v", i, took, len(body), len(b), err)
				}
				took = len(body)
				c.Count("reads", 1)
			case "ctx":
				d, ok := q.Context().Deadline()
				if ok == deadline.IsZero() || ok && !d.Equal(deadline) {
					fail("step %d: the context's deadline is %v, expected %v", i, d, deadline)
				}
				if ok {
					c.Count("deadlines", 1)
				}
				over := cancelAt == 0 || cancelAt > 0 && i+1 >= cancelAt
				if (q.Context().Err() != nil) != over {
					fail("step %d: the context says %v, it was cancelled: %v", i, q.Context().Err(), over)
				}
			case "stream":
				if x == nil {
					continue
				}
				c.Count("streams", 1)
				var all []byte
				s := &c37source{}
				for k := r.Rng(1, 5); k > 0; k-- {
					p := r.Bytes(pick(r, []int{1, 1000, 30000, 100000}))
					s.parts, all = append(s.parts, p), append(all, p...)
				}
				if r.Pct(20) {
					s.err = errors.New("source broken")
				}
				before := len(w.got)
				s.look = func(given int) {
					c.Count("stream_steps", 1)
					if w.fails == failed && len(w.got)-before < given-c37ahead {
						fail("step %d: Stream asks for more when of %d bytes only %d were passed on", i, given, len(w.got)-before)
					}
				}
				var from io.Reader = s
				switch r.IntN(4) {
				case 0: // gives itself away
					from = c37pushed{s}
					c.Count("pushing_sources", 1)
				case 1:
					from = io.MultiReader(s)
				}
				err := x.Stream("text/plain", from)
				sent = append(sent, all...)
				switch {
				case w.fails > failed:
					c.Count("stream_failed", 1)
					if w.quiet && err == nil || !w.quiet && !errors.Is(err, w.err) {
						fail("step %d: Stream said %v when the connection failed", i, err)
					}
					sent = append([]byte(nil), w.got...)
				case s.err != nil:
					if !errors.Is(err, s.err) {
						fail("step %d: Stream said %v, its source %v", i, err, s.err)
					}
				case err != nil:
					fail("step %d: Stream said %v", i, err)
				}
				check(fmt.Sprintf("step %d stream", i), true)
			case "json", "xml":
				if x == nil {
					continue
				}
				v := r.From("abcdef", pick(r, []int{1, 300, 9000}))
				var err error
				var want []byte
				if op == "json" {
					want, _ = json.Marshal(v)
					err = x.JSON(200, v)
				} else {
					want = []byte("<string>" + v + "</string>")
					err = x.XML(200, v)
				}
				if w.fails > failed {
					c.Count(op+"_failed", 1)
					if err == nil && !w.quiet {
						fail("step %d: %s reported no error when the connection failed", i, op)
					}
				} else if err != nil {
					fail("step %d: %s said %v", i, op, err)
				} else if !bytes.Contains(w.got[min(len(sent), len(w.got)):], want) {
					fail("step %d: %s is back before its bytes are with the connection", i, op)
				}
				sent = append([]byte(nil), w.got...)
				check(fmt.Sprintf("step %d %s", i, op), true)
			}
		}
	})
	method := r.Str("POST", "PUT", "PATCH", "DELETE", "GET", "HEAD")
	q := Req(method, a.path)
	q.Body, q.ContentLength = src, int64(len(body))
	if len(body) == 0 && r.Pct(50) {
		q.Body, q.ContentLength = http.NoBody, 0
	}
	ct := r.Str("text/plain", "application/octet-stream", "", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "application/xml", "application/json")
	if ahead = a.log && strings.Contains(ct, "json"); ahead {
		c.Count("logged_bodies", 1)
	}
	if ct != "" {
		q.Header.Set("Content-Type", ct)
	}
	q = q.WithContext(base)
	if cancelAt == 0 {
		cancel()
		c.Count("cancelled_before", 1)
	}
	a.e.ServeHTTP(w, q)
	c.Eval()
	c.Count("requests", 1)
	if fault || len(prog) > 2 {
		c.Seen(prog, w.limit, a.desc, cancelAt, ct)
	}
	if took == 0 {
		c.Count("unread_bodies", 1)
		if src.took > 0 && !ahead {
			fail("afterwards: %d bytes of a body no handler read were taken", src.took)
		}
	}
	if ran != 1 {
		fail("the handler ran %d times", ran)
	}
	if bad != "" {
		c.Fail("held back", "%s\n%s %s %q body %d bytes, %s, program %v, writer limit %d, cancelled at %d", bad, method, a.path, ct, len(body), a.desc, prog, w.limit, cancelAt)
	}
	c.Sample(func() any {
		return map[string]any{"program": prog, "limit": w.limit, "place": a.desc, "body": len(body)}
	})
}

const c37patience = 40 * time.Second

// c37upload: the client sends a part only when the handler has had all before it.
func c37upload(c *C) {
	r := c.R
	parts := r.Rng(2, 6)
	sizes := make([]int, parts)
	for i := range sizes {
		sizes[i] = pick(r, []int{1, 10, 1000, 70000})
	}
	had := make(chan int, parts+1)
	var herr atomic.Value
	closer := r.Pct(50)
	a := c37build(c, func(x *water.Context, w http.ResponseWriter, q *http.Request) {
		rd := io.Reader(q.Body)
		if x != nil && closer {
			rd = x.ReadCloser()
		}
		for i, n := range sizes {
			b := make([]byte, n)
			if _, err := io.ReadFull(rd, b); err != nil {
				herr.Store(fmt.Sprintf("part %d: %v", i, err))
				break
			}
			had <- i
		}
		io.WriteString(w, "thanks")
	})
	s := Listen(a.e)
	defer s.Close()
	conn := s.Dial()
	defer conn.Close()
	total := 0
	for _, n := range sizes {
		total += n
	}
	chunked := r.Pct(50)
	head := fmt.Sprintf("POST %s HTTP/1.1\r\nHost: h\r\nConnection: close\r\nContent-Type: %s\r\n", a.path, r.Str("text/plain", "application/octet-stream", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x"))
	if chunked {
		head += "Transfer-Encoding: chunked\r\n\r\n"
	} else {
		head += fmt.Sprintf("Content-Length: %d\r\n\r\n", total)
	}
	io.WriteString(conn, head)
	c.Eval()
	c.Count("upload_dialogues", 1)
	c.Seen("upload", sizes, chunked, a.desc)
	for i, n := range sizes {
		b := bytes.Repeat([]byte{'a' + byte(i)}, n)
		if chunked {
			b = []byte(fmt.Sprintf("%x\r\n%s\r\n", n, b))
		}
		conn.Write(b)
		select {
		case <-had:
		case <-time.After(c37patience):
			c.Fail("upload held back", "the handler did not get part %d of %v while the client waits to send the next: %v; %s chunked=%v", i, sizes, herr.Load(), a.desc, chunked)
			return
		}
	}
	if chunked {
		io.WriteString(conn, "0\r\n\r\n")
	}
	res := &Resp{}
	res.read(bufio.NewReader(conn), "POST")
	if res.Err != nil || string(res.Body) != "thanks" {
		c.Fail("upload answer", "after the dialogue: %v; %s chunked=%v", res, a.desc, chunked)
	}
}

// c37form: the client ends its body only once the handler has the form that came with it.
func c37form(c *C) {
	r := c.R
	had := make(chan string, 1)
	how := r.IntN(5)
	size := pick(r, []int{1, 1000, 70000})
	a := c37build(c, func(x *water.Context, w http.ResponseWriter, q *http.Request) {
		n, err := 0, error(nil)
		v := struct {
			F *multipart.FileHeader `form:"f"`
		}{}
		switch {
		case x == nil || how == 0:
			if err = q.ParseMultipartForm(1 << 20); err == nil {
				v.F = q.MultipartForm.File["f"][0]
			}
		case how == 1:
			_, v.F, err = x.FormFile("f")
		case how == 2:
			err = x.Bind(&v)
		case how == 3:
			x.Query("f")
			v.F = q.MultipartForm.File["f"][0]
		default:
			x.ParseFormOrMultipartForm()
			err = x.BindWith(&v, binding.FormMultipart)
		}
		if v.F != nil {
			n = int(v.F.Size)
		}
		had <- fmt.Sprint(n, err)
		io.WriteString(w, "thanks")
	})
	s := Listen(a.e)
	defer s.Close()
	conn := s.Dial()
	defer conn.Close()
	fmt.Fprintf(conn, "POST %s HTTP/1.1\r\nHost: h\r\nConnection: close\r\nContent-Type: multipart/form-data; boundary=b\r\nTransfer-Encoding: chunked\r\n\r\n", a.path)
	body := "--b\r\nContent-Disposition: form-data; name=\"f\"; filename=\"x\"\r\n\r\n" + strings.Repeat("a", size) + "\r\n--b--\r\n"
	fmt.Fprintf(conn, "%x\r\n%s\r\n", len(body), body)
	c.Eval()
	c.Count("form_dialogues", 1)
	c.Seen("form", how, size, a.desc)
	select {
	case got := <-had:
		if got != fmt.Sprint(size, nil) {
			c.Fail("form dialogue", "the handler got %s of a file of %d bytes (how %d); %s", got, size, how, a.desc)
		}
	case <-time.After(c37patience):
		c.Fail("form held back", "the handler does not get the form, which is there whole, while the client waits to end its body (how %d, file %d bytes); %s", how, size, a.desc)
		return
	}
	io.WriteString(conn, "0\r\n\r\n")
	res := &Resp{}
	res.read(bufio.NewReader(conn), "POST")
	if res.Err != nil || string(res.Body) != "thanks" {
		c.Fail("form answer", "after the dialogue: %v (how %d); %s", res, how, a.desc)
	}
}

// c37download: the handler goes on only when the client has most of what was written.
func c37download(c *C) {
	r := c.R
	const part = 96 << 10
	parts := r.Rng(2, 4)
	stream, push := r.Pct(50), r.Pct(30)
	next := make(chan struct{})
	giveUp := make(chan struct{})
	var once sync.Once
	stop := func() { once.Do(func() { close(giveUp) }) }
	a := c37build(c, func(x *water.Context, w http.ResponseWriter, q *http.Request) {
		pause := func() bool {
			select {
			case <-next:
				return true
			case <-giveUp:
				return false
			}
		}
		if x != nil && stream {
			s := &c37source{}
			for i := 0; i < parts; i++ {
				for k := 0; k < 4; k++ {
					s.parts = append(s.parts, bytes.Repeat([]byte{'a' + byte(i)}, part/4))
				}
			}
			s.look = func(given int) {
				if given > 0 && given%part == 0 {
					pause()
				}
			}
			if push {
				x.Stream("text/plain", c37pushed{s})
			} else {
				x.Stream("text/plain", struct{ io.Reader }{s})
			}
			return
		}
		for i := 0; i < parts; i++ {
			w.Write(bytes.Repeat([]byte{'a' + byte(i)}, part))
			if !pause() {
				return
			}
		}
	})
	s := Listen(a.e)
	defer s.Close()
	defer stop()
	conn := s.Dial()
	defer conn.Close()
	conn.Write(Line("GET", a.path, nil, nil))
	c.Eval()
	c.Count("download_dialogues", 1)
	c.Seen("download", parts, stream, a.desc)
	conn.SetReadDeadline(time.Now().Add(c37patience))
	resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: "GET"})
	if err != nil {
		c.Fail("download held back", "no response head while the handler waits for the client: %v; %s stream=%v", err, a.desc, stream)
		return
	}
	got := 0
	b := make([]byte, 8192)
	for i := 0; i < parts; i++ {
		for got < (i+1)*part-32<<10 {
			conn.SetReadDeadline(time.Now().Add(c37patience))
			n, err := resp.Body.Read(b)
			for _, x := range b[:n] {
				if x != 'a'+byte(got/part) {
					c.Fail("download", "byte %d is %q; %s stream=%v", got, x, a.desc, stream)
					return
				}
				got++
			}
			if err != nil {
				c.Fail("download held back", "only %d bytes came while the handler, having written %d, waits for the client: %v; %s stream=%v", got, (i+1)*part, err, a.desc, stream)
				return
			}
		}
		select {
		case next <- struct{}{}:
		case <-time.After(c37patience):
			c.Fail("download held back", "the handler is not waiting after part %d; %s stream=%v", i, a.desc, stream)
			return
		}
	}
	rest, err := io.ReadAll(resp.Body)
	if err != nil || got+len(rest) < parts*part {
		c.Fail("download", "%d bytes of %d and %v; %s stream=%v", got+len(rest), parts*part, err, a.desc, stream)
	}
}

// c37gone: the client leaves, or the server's base context ends, while the handler waits for that.
func c37gone(c *C) {
	r := c.R
	in, out := make(chan struct{}), make(chan error, 1)
	a := c37build(c, func(x *water.Context, w http.ResponseWriter, q *http.Request) {
		io.Copy(io.Discard, q.Body)
		close(in)
		select {
		case <-q.Context().Done():
			out <- nil
		case <-time.After(c37patience):
			out <- errors.New("the handler was not told")
		}
	})
	h := http.Handler(a.e)
	how := r.IntN(3)
	var cancel context.CancelFunc
	switch how {
	case 1: // a deadline set in front of the engine
		h = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			ctx, done := context.WithTimeout(q.Context(), 20*time.Millisecond)
			defer done()
			a.e.ServeHTTP(w, q.WithContext(ctx))
		})
	case 2:
		var ctx context.Context
		ctx, cancel = context.WithCancel(context.Background())
		h = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { a.e.ServeHTTP(w, q.WithContext(ctx)) })
		defer cancel()
	}
	c.Eval()
	c.Count("client_gone", 1)
	c.Seen("gone", how, a.desc)
	if how == 2 && r.Pct(50) {
		go h.ServeHTTP(httptest.NewRecorder(), Req("GET", a.path))
		await(in)
		cancel()
	} else {
		s := Listen(h)
		defer s.Close()
		conn := s.Dial()
		if r.Pct(50) {
			conn.Write(Line(r.Str("POST", "PUT"), a.path, [][2]string{{"Content-Type", r.Str("application/json", "application/json", "text/plain", "application/x-www-form-urlencoded")}}, []byte(`{"a":1}`)))
		} else {
			conn.Write(Line(r.Str("GET", "POST"), a.path, nil, nil))
		}
		await(in)
		if how == 2 {
			cancel()
		} else if how == 0 {
			conn.Close()
		}
		defer conn.Close()
	}
	if err := <-out; err != nil {
		c.Fail("not cancelled", "%v (how %d); %s", err, how, a.desc)
	}
}
