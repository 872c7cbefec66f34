//go:build extended

package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C30", Quick: 30000, Thor: 600000,
		Rule:   "built with the extended option. A third of the cases run the routing, chain, response and rendering checks of C01, C02, C03, C05, C06, C08 and C09 in this build. The others run a generated handler (status, body writes, flushes, takeover of the connection, panics, in any order, in adapted net/http handlers too, between middlewares with logger and recovery) on a real connection: at every flush the handler stays blocked until the client has decoded all that was written so far; after a takeover client and handler talk raw bytes and every byte the client ever gets is compared; Written(), Status() and the handlers run are compared with a model. Some scripts run over HTTP/2 (each flush awaited by the client), below http.TimeoutHandler and on writers that can only flush or nothing of it. Non-trivial: a flush or a takeover; distinct by script.",
		Before: func(e *Env) { c08files(e); consoleLog(); water.SetRender(c09render{}) },
		Need:   []string{"length_announced", "flushes", "flush_waited", "flush_first", "takeovers", "takeover_after_flush", "takeover_failed", "raw_talk", "panic_after_takeover", "late_writes", "adapted_scripts", "base_routing", "base_chain", "base_response", "base_render", "unanswered", "other_h2", "other_h2_flushed", "other_timeout", "other_bare", "other_flusher", "other_hijack_refused"},
		Case:   c30})
}

func (h *headCounter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.ResponseWriter.(http.Hijacker).Hijack()
}
func (h *headCounter) CloseNotify() <-chan bool {
	return h.ResponseWriter.(http.CloseNotifier).CloseNotify()
}

type flushHijacker interface {
	http.ResponseWriter
	http.Flusher
	http.Hijacker
}

type c30op struct {
	k    string // length, status, header, write, flush, hijack, panic
	code int
	data []byte
}

// c30peer is the client's end: what has arrived so far, and the response decoded from it.
type c30peer struct {
	sync.Mutex
	cond *sync.Cond
	raw  []byte
	eof  bool
}

func (p *c30peer) pump(conn net.Conn) {
	buf := make([]byte, 1<<15)
	for {
		n, err := conn.Read(buf)
		p.Lock()
		p.raw = append(p.raw, buf[:n]...)
		p.eof = p.eof || err != nil
		p.cond.Broadcast()
		p.Unlock()
		if err != nil {
			return
		}
	}
}

// c30partial decodes as much of a response as has arrived.
func c30partial(raw []byte, method string) (status int, h http.Header, body []byte, ok bool) {
	br := bufio.NewReader(bytes.NewReader(raw))
	resp, err := http.ReadResponse(br, &http.Request{Method: method})
	if err != nil {
		return
	}
	body, _ = io.ReadAll(resp.Body)
	return resp.StatusCode, resp.Header, body, true
}

func (p *c30peer) wait(f func() bool) bool {
	limit := time.Now().Add(40 * time.Second)
	t := time.AfterFunc(41*time.Second, func() { p.cond.Broadcast() })
	defer t.Stop()
	p.Lock()
	defer p.Unlock()
	for !f() {
		if time.Now().After(limit) {
			return false
		}
		p.cond.Wait()
	}
	return true
}

func c30(c *C) {
	if c.N%3 == 0 {
		switch c.IntN(8) {
		case 0, 1:
			c.Count("base_routing", 1)
			routingCase(c, c.Pct(50))
		case 2:
			c.Count("base_routing", 1)
			c03(c)
		case 3:
			c.Count("base_chain", 1)
			c05(c)
		case 4:
			c.Count("base_chain", 1)
			c06(c)
		case 5, 6:
			c.Count("base_response", 1)
			c08(c)
		case 7:
			c.Count("base_render", 1)
			c09(c)
		}
		return
	}
	r := c.R
	if r.Pct(15) {
		c30failing(c)
		return
	}
	if r.Pct(15) {
		c30other(c)
		return
	}
	// the script
	var ops []c30op
	var names []string
	ends := false
	for i := r.Rng(1, 8); i > 0 && !ends; i-- {
		o := c30op{}
		switch x := r.IntN(20); {
		case x < 2:
			o.k, o.code = "status", pick(r, []int{200, 201, 202, 206, 400, 404, 418, 500, 503})
		case x < 3:
			o.k, o.data = "header", []byte(r.Word())
		case x < 10:
			o.k, o.data = "write", []byte(r.From("abc<>\n\x00é", pick(r, []int{0, 1, 5, 100, 2047, 2048, 2049, 4096, 5000, 40000})))
		case x < 17:
			o.k = "flush"
		case x < 19:
			o.k = "hijack"
			ends = true
		default:
			o.k = "panic"
			ends = true
		}
		ops = append(ops, o)
		names = append(names, fmt.Sprint(o.k, o.code, len(o.data)))
	}
	if !ends && r.Pct(30) {
		ops, names = c30length(c, ops, names)
	}
	hijacked := ends && ops[len(ops)-1].k == "hijack"
	if hijacked { // right after a flush or before anything was written
		dirty, first := false, true
		for _, o := range ops[:len(ops)-1] {
			switch o.k {
			case "write", "status":
				dirty, first = true, false
			case "flush":
				dirty, first = false, false
			}
		}
		if dirty {
			ops = append(ops[:len(ops)-1], c30op{k: "flush"}, c30op{k: "hijack"})
			names = append(names[:len(names)-1], "flush", "hijack")
		}
		if !first {
			c.Count("takeover_after_flush", 1)
		}
	}
	adapted := r.Pct(30)
	method := r.Str("GET", "GET", "POST", "HEAD")
	recov := r.Pct(60)
	panics := ends && !hijacked && true
	if hijacked && recov && r.Pct(40) {
		panics = true
	}
	late := hijacked && r.Pct(50)
	if panics && !recov {
		recov = true
	}
	talk := [][2]string{}
	if hijacked {
		for i := r.IntN(3); i > 0; i-- {
			talk = append(talk, [2]string{r.From("0123456789", r.Rng(1, 3000)), r.From("xyz\r\n", r.Rng(1, 3000))})
		}
	}
	// the model of the response
	ref := &refW{h: http.Header{}}
	answered := false

	peer := &c30peer{}
	peer.cond = sync.NewCond(&peer.Mutex)
	var bad []string
	complain := func(format string, a ...any) { bad = append(bad, fmt.Sprintf(format, a...)) }
	var rawAtTakeover, spoken []byte // what the client had before the takeover, and what was said after it
	fin := make(chan bool)
	var conn net.Conn
	taken := false
	handler := func(x *water.Context, w http.ResponseWriter, q *http.Request) {
		look := func(at string) {
			if x == nil {
				return
			}
			if x.Written() != answered || !taken && x.Status() != ref.status {
				complain("after %s Written()=%v Status()=%d, expected %v, %d", at, x.Written(), x.Status(), answered, ref.status)
			}
		}
		fw := w.(flushHijacker)
		for i, o := range ops {
			switch o.k {
			case "status":
				w.WriteHeader(o.code)
				ref.WriteHeader(o.code)
				answered = true
			case "length":
				w.Header().Set("Content-Length", fmt.Sprint(o.code))
				ref.Header().Set("Content-Length", fmt.Sprint(o.code))
			case "header":
				w.Header().Set("X-Extra", string(o.data))
				ref.Header().Set("X-Extra", string(o.data))
			case "write":
				n, err := w.Write(o.data)
				if err != nil || n != len(o.data) {
					complain("op %d: a write of %d bytes gave %d, %v", i, len(o.data), n, err)
				}
				ref.Write(o.data)
				answered = true
			case "flush":
				if ref.status == 0 {
					c.Count("flush_first", 1)
					ref.WriteHeader(200)
				}
				answered = true
				fw.Flush()
				c.Count("flushes", 1)
				want := ref.body.Bytes()
				if method == "HEAD" {
					want = nil
				}
				var st int
				var h http.Header
				var body []byte
				ok := peer.wait(func() bool {
					var ok bool
					st, h, body, ok = c30partial(peer.raw, method)
					return ok && len(body) >= len(want) || peer.eof
				})
				switch {
				case !ok:
					complain("op %d: 40 s after the flush the client has %d of %d bytes of the body, status %d", i, len(body), len(want), st)
				case !bytes.Equal(body, want) || st != ref.status || h.Get("X-Extra") != ref.snap.Get("X-Extra"):
					complain("op %d: after the flush the client has status %d, %v, body[%d] %.200q, written was %d, %v, [%d] %.200q", i, st, h, len(body), body, ref.status, ref.snap, len(want), want)
				}
				c.Count("flush_waited", 1)
			case "hijack":
				peer.Lock()
				rawAtTakeover = append([]byte{}, peer.raw...)
				peer.Unlock()
				hc, rw, err := fw.Hijack()
				if err != nil {
					complain("op %d: the takeover failed: %v", i, err)
					return
				}
				taken, answered = true, true
				c.Count("takeovers", 1)
				look("takeover")
				var exp []byte
				say := func(s string) {
					if len(s)%2 == 0 {
						io.WriteString(hc, s)
					} else {
						rw.WriteString(s)
						rw.Flush()
					}
					exp = append(exp, s...)
				}
				say("+OK raw")
				for _, t := range talk {
					c.Count("raw_talk", 1)
					if _, err := io.WriteString(conn, t[0]); err != nil {
						complain("raw talk: the client cannot write: %v", err)
						break
					}
					got := make([]byte, len(t[0]))
					hc.SetReadDeadline(time.Now().Add(40 * time.Second))
					if _, err := io.ReadFull(rw, got); err != nil || string(got) != t[0] {
						complain("raw talk: the handler read %.100q, %v; sent was %.100q", got, err, t[0])
						break
					}
					say(t[1])
				}
				spoken = exp
				if late { // too late for a response
					c.Count("late_writes", 1)
					w.WriteHeader(500)
					if x != nil {
						w.Write([]byte("late"))
						x.String(200, "later")
					}
				}
				if panics {
					c.Count("panic_after_takeover", 1)
					panic("after the takeover")
				}
			case "panic":
				panic("on purpose")
			}
			look(o.k)
		}
	}
	root := water.NewRouter()
	outer := 0
	var seenAfter []string
	if r.Pct(40) {
		root.Use(water.Logger())
	}
	if recov {
		root.Use(water.Recovery())
	}
	nmw := r.IntN(3)
	for i := 0; i < nmw; i++ {
		root.Use(func(x *water.Context) {
			outer++
			x.Next()
			seenAfter = append(seenAfter, fmt.Sprint(x.Written(), x.Status()))
		})
	}
	nextRan := 0
	var hs []interface{}
	if adapted {
		c.Count("adapted_scripts", 1)
		hs = append(hs, func(w http.ResponseWriter, q *http.Request) { handler(nil, w, q) })
	} else {
		hs = append(hs, func(x *water.Context) { handler(x, x, x.Request) })
	}
	hs = append(hs, func(x *water.Context) {
		nextRan++
		x.String(299, "next")
		ref.WriteHeader(299)
		ref.body.WriteString("next")
		ref.snap.Set("Content-Type", "text/plain; charset=utf-8")
	})
	addRoute(root, method, "/x", hs)
	e := root.Handler()
	var crash any
	var once sync.Once
	srv := Listen(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		defer once.Do(func() { close(fin) })
		defer func() {
			if p := recover(); p != nil {
				crash = p
				panic(http.ErrAbortHandler)
			}
		}()
		e.ServeHTTP(w, q)
	}))
	defer srv.Close()
	conn = srv.Dial()
	defer conn.Close()
	go peer.pump(conn)
	fmt.Fprintf(conn, "%s /x HTTP/1.1\r\nHost: h.test\r\n\r\n", method)
	<-fin
	c.Eval()
	script := fmt.Sprintf("%s [%s] adapted=%v recovery=%v panics=%v late=%v talk=%d", method, strings.Join(names, " "), adapted, recov, panics, late, len(talk))
	for _, o := range ops {
		if o.k == "flush" || o.k == "hijack" {
			c.Seen(script)
		}
	}
	fail := func(sig, format string, a ...any) {
		c.Fail(sig, "%s\n%s", fmt.Sprintf(format, a...), script)
	}
	if len(bad) > 0 {
		fail("handler", "%s", strings.Join(bad, "\n"))
		return
	}
	if crash != nil {
		fail("crash", "a panic left the engine: %v", crash)
		return
	}
	if want := map[bool]int{true: 0, false: 1}[answered || panics]; nextRan != want {
		fail("chain", "the next handler ran %d times, answered=%v", nextRan, answered)
		return
	}
	if taken {
		// the connection is the handler's: end it and take what came
		conn.(*net.UnixConn).CloseWrite()
		time.Sleep(2 * time.Millisecond)
		peer.wait(func() bool { return len(peer.raw) >= len(rawAtTakeover)+len(spoken) || peer.eof })
		time.Sleep(2 * time.Millisecond)
		peer.Lock()
		got := append([]byte{}, peer.raw...)
		peer.Unlock()
		// the line end of the last chunk may have come after the client had decoded all of the flush
		rest, ok := bytes.CutPrefix(got, rawAtTakeover)
		for _, end := range []string{"\r\n", "\n"} {
			if len(rest) > len(spoken) {
				rest = bytes.TrimPrefix(rest, []byte(end))
			}
		}
		if !ok || !bytes.Equal(rest, spoken) {
			fail("raw", "on the taken-over connection the client got %d bytes %.300q ... %.200q, expected %d bytes %.300q ... %.200q", len(rest), rest, rest[max(0, len(rest)-200):], len(spoken), spoken, spoken[max(0, len(spoken)-200):])
		}
		return
	}
	// an ordinary end: the whole response, and the connection goes on
	for _, s := range seenAfter {
		if !panics && s != fmt.Sprint(ref.status != 0, ref.status) {
			fail("mw-view", "a middleware saw %s, expected %v %d", s, ref.status != 0, ref.status)
			return
		}
	}
	if !answered && !panics {
		c.Count("unanswered", 1)
	}
	fmt.Fprintf(conn, "%s /none HTTP/1.1\r\nHost: h.test\r\nConnection: close\r\n\r\n", "GET")
	peer.wait(func() bool { return peer.eof })
	br := bufio.NewReader(bytes.NewReader(peer.raw))
	resp, err := http.ReadResponse(br, &http.Request{Method: method})
	if err != nil {
		fail("wire", "no response: %v in %.300q", err, peer.raw)
		return
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		fail("wire", "the body is cut: %v in %.300q", err, peer.raw)
		return
	}
	want, code := ref.body.Bytes(), ref.status
	if panics && ref.status == 0 {
		code, want = 500, body
	} else if panics && bytes.HasPrefix(body, want) {
		want = body // C10 judges what recovery does then
	}
	if method == "HEAD" {
		want = nil
	}
	if resp.StatusCode != code || !bytes.Equal(body, want) {
		fail("response", "the client got %d body[%d] %.200q, written was %d [%d] %.200q", resp.StatusCode, len(body), body, code, len(want), want)
		return
	}
	r2, err := http.ReadResponse(br, &http.Request{Method: "GET"})
	if err != nil || r2.StatusCode != 404 {
		fail("wire", "the next response on the connection: %v, %v in %.800q", r2, err, peer.raw)
		return
	}
	c.Sample(func() any { return map[string]any{"script": script, "status": resp.StatusCode, "body": len(body)} })
}

// c30length has the handler announce the length of what it will write.
func c30length(c *C, ops []c30op, names []string) ([]c30op, []string) {
	total, answers := 0, false
	for _, o := range ops {
		switch o.k {
		case "write":
			total += len(o.data)
			answers = true
		case "status", "flush":
			answers = true
		}
	}
	if !answers {
		return ops, names
	}
	c.Count("length_announced", 1)
	return append([]c30op{{k: "length", code: total}}, ops...), append([]string{fmt.Sprint("length", total)}, names...)
}

// c30failing: the connection cannot be taken over, the response is then made as usual.
func c30failing(c *C) {
	r := c.R
	code := pick(r, []int{200, 201, 404})
	var hErr error
	var after bool
	var st int
	next := 0
	root := water.NewRouter()
	answer := r.Pct(60)
	root.GET("/x", func(x *water.Context) {
		_, _, hErr = x.Hijack()
		after, st = x.Written(), x.Status()
		if answer {
			x.String(code, "instead")
		}
	}, func(x *water.Context) { next++ })
	rec := Serve(root.Handler(), Req("GET", "/x"))
	c.Eval()
	c.Count("takeover_failed", 1)
	c.Seen("failing", code, answer)
	if hErr == nil || after || st != 0 {
		c.Fail("failed-takeover", "a failed takeover: error %v, Written()=%v Status()=%d", hErr, after, st)
		return
	}
	if answer && (rec.Status() != code || rec.Body.String() != "instead" || next != 0) || !answer && next != 1 {
		c.Fail("failed-takeover", "after a failed takeover (answering: %v) the client got %d %q, the next handler ran %d times", answer, rec.Status(), rec.Body.String(), next)
	}
	if answer && len(rec.Codes) != 1 {
		c.Fail("failed-takeover", "heads %v", rec.Codes)
	}
}

// bareW is a writer that can do nothing but respond, flushW one that can flush.
type bareW struct{ r *Rec }

func (w bareW) Header() http.Header         { return w.r.Header() }
func (w bareW) WriteHeader(code int)        { w.r.WriteHeader(code) }
func (w bareW) Write(b []byte) (int, error) { return w.r.Write(b) }

type flushW struct{ bareW }

func (w flushW) Flush() { w.r.Flush() }

// c30other: the same on responses whose writer cannot be taken over: HTTP/2 streams, http.TimeoutHandler's
// and writers of other servers.
func c30other(c *C) {
	r := c.R
	kind := r.Str("h2", "h2", "timeout", "bare", "flusher")
	c.Count("other_"+kind, 1)
	c.Eval()
	var ops []c30op
	var names []string
	for i := r.Rng(0, 7); i > 0; i-- {
		o := c30op{}
		switch x := r.IntN(16); {
		case x < 2:
			o.k, o.code = "status", pick(r, []int{200, 201, 202, 400, 404, 418, 500, 503})
		case x < 3:
			o.k, o.data = "header", []byte(r.Word())
		case x < 10:
			o.k, o.data = "write", []byte(r.From("abc<>\n\x00é", pick(r, []int{0, 1, 5, 100, 2047, 2048, 5000, 40000})))
		case x < 14:
			o.k = "flush"
		default:
			o.k = "hijack"
		}
		ops = append(ops, o)
		names = append(names, fmt.Sprint(o.k, o.code, len(o.data)))
	}
	if r.Pct(30) {
		ops, names = c30length(c, ops, names)
	}
	script := fmt.Sprintf("%s [%s]", kind, strings.Join(names, " "))
	c.Seen(script)
	ref := &refW{h: http.Header{}}
	answered := false
	next := 0
	var bad []string
	got := make(chan int, 100000) // bytes of the body the client has in all
	root := water.NewRouter()
	if r.Pct(50) {
		root.Use(water.Logger(), water.Recovery())
	}
	handler := func(x *water.Context, w http.ResponseWriter) {
		fw := w.(flushHijacker)
		for i, o := range ops {
			switch o.k {
			case "status":
				w.WriteHeader(o.code)
				ref.WriteHeader(o.code)
				answered = true
			case "length":
				w.Header().Set("Content-Length", fmt.Sprint(o.code))
				ref.Header().Set("Content-Length", fmt.Sprint(o.code))
			case "header":
				w.Header().Set("X-Extra", string(o.data))
				ref.Header().Set("X-Extra", string(o.data))
			case "write":
				if n, err := w.Write(o.data); err != nil || n != len(o.data) {
					bad = append(bad, fmt.Sprintf("op %d: a write of %d bytes gave %d, %v", i, len(o.data), n, err))
				}
				ref.Write(o.data)
				answered = true
			case "flush":
				if ref.status == 0 {
					ref.WriteHeader(200)
				}
				answered = true
				fw.Flush()
				if kind != "h2" {
					break
				}
				limit := time.After(40 * time.Second)
				for n := -1; n < ref.body.Len(); {
					select {
					case n = <-got:
					case <-limit:
						bad = append(bad, fmt.Sprintf("op %d: 40 s after the flush the client has %d of %d bytes", i, n, ref.body.Len()))
						return
					}
				}
				got <- ref.body.Len() // nothing new need come for the next one
				c.Count("other_h2_flushed", 1)
			case "hijack":
				if _, _, err := fw.Hijack(); err == nil {
					bad = append(bad, fmt.Sprintf("op %d: a takeover that cannot be", i))
				}
				c.Count("other_hijack_refused", 1)
			}
			if x != nil && (x.Written() != answered || x.Status() != ref.status) {
				bad = append(bad, fmt.Sprintf("after %s Written()=%v Status()=%d, expected %v, %d", o.k, x.Written(), x.Status(), answered, ref.status))
			}
		}
	}
	var hs []interface{}
	if r.Pct(30) {
		hs = append(hs, func(w http.ResponseWriter, q *http.Request) { handler(nil, w) })
	} else {
		hs = append(hs, func(x *water.Context) { handler(x, x) })
	}
	hs = append(hs, func(x *water.Context) {
		next++
		x.String(299, "next")
		ref.WriteHeader(299)
		ref.body.WriteString("next")
		ref.snap.Set("Content-Type", "text/plain; charset=utf-8")
	})
	root.POST("/x", hs...)
	e := root.Handler()
	status, xh, body := 0, "", []byte(nil)
	var errs error
	switch kind {
	case "bare", "flusher":
		rec := NewRec()
		var w http.ResponseWriter = bareW{rec}
		if kind == "flusher" {
			w = flushW{bareW{rec}}
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					errs = fmt.Errorf("panic: %v", p)
				}
			}()
			e.ServeHTTP(w, Req("POST", "/x"))
		}()
		status, xh, body = rec.Status(), rec.Head.Get("X-Extra"), rec.Body.Bytes()
	case "timeout":
		s := Listen(http.TimeoutHandler(e, time.Hour, "too late"))
		p := s.Raw("POST", Line("POST", "/x", nil, nil))
		s.Close()
		status, xh, body, errs = p.Status, p.Head.Get("X-Extra"), p.Body, p.Err
	case "h2":
		s := ListenH2(e)
		t := &http.Transport{Protocols: new(http.Protocols), DialContext: func(context.Context, string, string) (net.Conn, error) { return s.Dial(), nil }}
		t.Protocols.SetUnencryptedHTTP2(true)
		func() {
			defer s.Close()
			defer t.CloseIdleConnections()
			p, err := (&http.Client{Transport: t, Timeout: 100 * time.Second}).Post("http://h.test/x", "", nil)
			if errs = err; err != nil {
				return
			}
			if p.ProtoMajor != 2 {
				panic("harness: not HTTP/2")
			}
			status, xh = p.StatusCode, p.Header.Get("X-Extra")
			buf := make([]byte, 1<<15)
			got <- 0
			for err == nil {
				var n int
				n, err = p.Body.Read(buf)
				body = append(body, buf[:n]...)
				select {
				case got <- len(body):
				default:
				}
			}
			if err != io.EOF {
				errs = err
			}
		}()
	}
	if errs != nil {
		c.Fail("other", "no response: %v\n%s", errs, script)
		return
	}
	if len(bad) > 0 {
		c.Fail("other", "%s\n%s", strings.Join(bad, "\n"), script)
		return
	}
	if want := map[bool]int{true: 0, false: 1}[answered]; next != want {
		c.Fail("other", "the next handler ran %d times, answered=%v\n%s", next, answered, script)
		return
	}
	if status != ref.status || !bytes.Equal(body, ref.body.Bytes()) || kind != "timeout" && xh != ref.snap.Get("X-Extra") { // that one keeps the headers back
		c.Fail("other", "the client got %d %q [%d] %.200q, written was %d %q [%d] %.200q\n%s", status, xh, len(body), body, ref.status, ref.snap.Get("X-Extra"), ref.body.Len(), ref.body.Bytes(), script)
	}
}
