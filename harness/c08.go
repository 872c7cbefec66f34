package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C08", Quick: 20000, Thor: 400000,
		Rule:   "a case is an engine on a loopback connection whose handlers run generated scripts over every response-producing operation (plain status and body writes, helpers, bare statuses, redirects, files, downloads, net/http's own functions, adapted net/http handlers, static directories); a reference writer running the same script predicts status, body and type; after every operation Written() and Status() are compared, outer middlewares compare again, a writer underneath counts the heads, and a second request on the same connection checks the framing. Non-trivial: at least two operations that choose a status; distinct by script shape and method.",
		Need:   []string{"requests", "second_status", "implicit_200", "sniffed", "file_ops", "redirects", "adapted", "static", "heads_counted", "unanswered", "keepalive_followups", "impossible_status", "informational", "switching", "megabytes", "flushes_tried"},
		Before: c08files, Case: c08})
}

var c08sizes = []int{0, 5, 600, 5000, 70000}

func c08files(e *Env) {
	d := filepath.Join(e.Dir, "files")
	must(os.MkdirAll(filepath.Join(d, "sub"), 0o755))
	r := newR(1, "files", 0)
	for i, n := range c08sizes {
		b := []byte(r.From("abcdefgh \n", n))
		mustWrite(filepath.Join(d, fmt.Sprintf("f%d.txt", i)), b)
		mustWrite(filepath.Join(d, "sub", fmt.Sprintf("g%d.bin", i)), b)
	}
}

// refW is the reference writer: the first status wins, everything written is the body.
type refW struct {
	h       http.Header
	status  int
	snap    http.Header
	body    bytes.Buffer
	chosen  int  // how many times a status was asked for
	sniff   bool // the body came before any status and no type was set
	first   []byte
	interim []int // informational statuses
	limited bool  // a Content-Length was announced: nothing may be written after
}

func (w *refW) Header() http.Header { return w.h }
func (w *refW) WriteHeader(code int) {
	w.chosen++
	if w.status != 0 || code < 100 || code > 999 {
		return
	}
	if code < 200 {
		w.interim = append(w.interim, code)
		return
	}
	w.status = code
	w.snap = w.h.Clone()
	w.limited = w.snap.Get("Content-Length") != ""
}
func (w *refW) Write(b []byte) (int, error) {
	if w.status == 0 {
		_, typed := w.h["Content-Type"]
		w.sniff = !typed
		w.WriteHeader(200)
	}
	if w.sniff && w.first == nil && len(b) > 0 {
		w.first = append([]byte{}, b...)
	}
	return w.body.Write(b)
}

// c08op is one operation, able to run on the context and on the reference.
type c08op struct {
	name string
	run  func(x *water.Context, w http.ResponseWriter, q *http.Request) // x nil: reference run or adapted handler
	std  bool                                                           // usable by an adapted net/http handler
	ends bool                                                           // announces a length: only status operations may follow
}

func c08ops(c *C, files string) []c08op {
	r := c.R
	n := r.Rng(1, 6)
	if r.Pct(4) {
		n = 0
	}
	var ops []c08op
	codes := []int{200, 201, 202, 204, 206, 226, 299, 300, 304, 400, 401, 403, 404, 409, 418, 429, 500, 502, 503, 599, 999, 600}
	ended, wrote := false, false
	std := func(name string, f func(w http.ResponseWriter, q *http.Request)) c08op {
		return c08op{name: name, std: true, run: func(x *water.Context, w http.ResponseWriter, q *http.Request) { f(w, q) }}
	}
	// helper runs the context's helper, or what the property says it amounts to.
	helper := func(name, ctype string, code int, body string, f func(x *water.Context)) c08op {
		return c08op{name: name, run: func(x *water.Context, w http.ResponseWriter, q *http.Request) {
			if x != nil {
				f(x)
				return
			}
			if ctype != "" {
				w.Header().Set("Content-Type", ctype)
			}
			w.WriteHeader(code)
			if body != "" {
				io.WriteString(w, body)
			}
		}}
	}
	// what a write says it did, when the response may have a body at all
	report := func(w http.ResponseWriter, txt string) func(n int, err error) {
		return func(n int, err error) {
			if _, ref := w.(*refW); !ref && (err == nil && n != len(txt) || n > len(txt) || n < 0) {
				c.Fail("count", "a write of %d bytes returned %d, %v", len(txt), n, err)
			}
		}
	}
	for len(ops) < n {
		code := pick(r, codes)
		txt := r.From("abc<>&\x00é ", r.Rng(0, 30))
		if r.Pct(5) {
			txt = r.From("xyz", r.Rng(1000, 9000))
		}
		if r.OneIn(700) {
			txt = strings.Repeat(r.From("uvw", 1000), r.Rng(70, 6000))
			c.Count("megabytes", 1)
		}
		if r.Pct(10) {
			txt = "<html><body>" + txt
		}
		k := r.IntN(27)
		// whether a redirect adds its little page depends on a type being set already, which a detected one may or may not be
		if ended && k > 5 || wrote && (k == 21 || k == 22) {
			continue
		}
		wrote = wrote || k > 5
		var o c08op
		switch k {
		case 0, 1:
			if r.Pct(8) { // refused with a panic, or too late: chooses nothing either way
				code = pick(r, []int{0, -1, 7, 99, 1000, 1 << 20})
				c.Count("impossible_status", 1)
			} else if r.Pct(12) { // the response is still to come
				code = pick(r, []int{100, 102, 103, 103, 199})
				c.Count("informational", 1)
			}
			o = std(fmt.Sprint("WH", code), func(w http.ResponseWriter, q *http.Request) {
				try(func() { w.WriteHeader(code) })
			})
		case 2, 3:
			bare := pick(r, []int{304, 400, 401, 403, 404, 500, 418})
			o = helper(fmt.Sprint("bare", bare), "", bare, "", func(x *water.Context) {
				switch bare {
				case 304:
					x.NotModified()
				case 400:
					x.BadRequest()
				case 401:
					x.Unauthorized()
				case 403:
					x.Forbidden()
				case 404:
					x.NotFound()
				case 500:
					x.InternalServerError()
				default:
					x.Abort(bare)
				}
			})
		case 4:
			v := r.Word()
			o = std("hdr", func(w http.ResponseWriter, q *http.Request) { w.Header().Set("X-Extra", v) })
		case 5:
			o = c08op{name: "nocache", run: func(x *water.Context, w http.ResponseWriter, q *http.Request) {
				if x != nil {
					x.NoCache()
				}
			}}
		case 6, 7, 8:
			o = std("write", func(w http.ResponseWriter, q *http.Request) { report(w, txt)(w.Write([]byte(txt))) })
		case 9:
			o = std("iowrite", func(w http.ResponseWriter, q *http.Request) { report(w, txt)(io.WriteString(w, txt)) })
		case 10:
			o = std("fprintf", func(w http.ResponseWriter, q *http.Request) { fmt.Fprintf(w, "%s-%d", txt, code) })
		case 11:
			plain := r.Pct(50) // a reader that does not know how to write itself
			o = std("copy", func(w http.ResponseWriter, q *http.Request) {
				src := io.Reader(strings.NewReader(txt))
				if plain {
					src = struct{ io.Reader }{src}
				}
				n, err := io.Copy(w, src)
				report(w, txt)(int(n), err)
			})
		case 12:
			ct := r.Str("text/x-own", "application/pdf", "image/png")
			o = std("ctype", func(w http.ResponseWriter, q *http.Request) { w.Header().Set("Content-Type", ct) })
		case 13:
			o = helper("String", "text/plain; charset=utf-8", code, txt, func(x *water.Context) { x.String(code, txt) })
		case 14:
			o = helper("Data", "x/y", code, txt, func(x *water.Context) { x.Data(code, "x/y", []byte(txt)) })
		case 15:
			o = helper("HTMLRaw", "text/html; charset=utf-8", code, txt, func(x *water.Context) { x.HTMLRaw(code, txt) })
		case 16:
			s := r.Word()
			o = c08op{name: "JSON", run: func(x *water.Context, w http.ResponseWriter, q *http.Request) {
				if x != nil {
					x.JSON(code, s)
					return
				}
				w.Header().Set("Content-Type", "application/json; charset=utf-8")
				w.WriteHeader(code)
				json.NewEncoder(w).Encode(s)
			}}
		case 17:
			s := r.Word()
			o = c08op{name: "XML", run: func(x *water.Context, w http.ResponseWriter, q *http.Request) {
				if x != nil {
					x.XML(code, s)
					return
				}
				w.Header().Set("Content-Type", "application/xml; charset=utf-8")
				w.WriteHeader(code)
				xml.NewEncoder(w).Encode(s)
			}}
		case 18:
			o = c08op{name: "Stream", run: func(x *water.Context, w http.ResponseWriter, q *http.Request) {
				if x != nil {
					x.Stream("a/b", strings.NewReader(txt))
					return
				}
				w.Header().Set("Content-Type", "a/b")
				io.Copy(w, strings.NewReader(txt))
			}}
		case 19:
			o = std("http.Error", func(w http.ResponseWriter, q *http.Request) { http.Error(w, txt, code) })
		case 20:
			o = std("http.NotFound", func(w http.ResponseWriter, q *http.Request) { http.NotFound(w, q) })
		case 21, 22:
			to := r.Str("/x/y?z=1", "http://other.test/a b", "rel/path", "/ü")
			c.Count("redirects", 1)
			switch r.IntN(3) {
			case 0:
				o = std("http.Redirect", func(w http.ResponseWriter, q *http.Request) { http.Redirect(w, q, to, 307) })
			case 1:
				o = c08op{name: "Found", run: func(x *water.Context, w http.ResponseWriter, q *http.Request) {
					if x != nil {
						x.Found(to)
					} else {
						http.Redirect(w, q, to, 302)
					}
				}}
			case 2:
				o = c08op{name: "Moved", run: func(x *water.Context, w http.ResponseWriter, q *http.Request) {
					if x != nil {
						x.MovedPermanently(to)
					} else {
						http.Redirect(w, q, to, 301)
					}
				}}
			}
		case 23, 24:
			f := filepath.Join(files, fmt.Sprintf("f%d.txt", r.IntN(len(c08sizes))))
			if r.Pct(15) {
				f = filepath.Join(files, "absent")
			}
			c.Count("file_ops", 1)
			m := r.IntN(4)
			o = c08op{name: fmt.Sprint("file", m, strings.HasSuffix(f, "absent")), ends: true, run: func(x *water.Context, w http.ResponseWriter, q *http.Request) {
				switch {
				case x == nil && m < 2:
					http.ServeFile(w, q, f)
				case x == nil:
					b, err := os.ReadFile(f)
					if m == 2 && err != nil {
						return
					}
					w.Header().Set("Content-Disposition", "x")
					w.Header().Set("Content-Type", "application/octet-stream")
					http.ServeContent(w, q, "n", time.Time{}, bytes.NewReader(b))
				case m == 0:
					x.File(f)
				case m == 1:
					x.ServeFile(f)
				case m == 2:
					x.Download(f)
				default:
					b, _ := os.ReadFile(f)
					x.Header().Set("Content-Type", "application/octet-stream")
					x.Attachment("n", time.Time{}, bytes.NewReader(b))
				}
			}}
		case 25:
			f := filepath.Join(files, fmt.Sprintf("f%d.txt", r.IntN(len(c08sizes))))
			c.Count("file_ops", 1)
			o = std("http.ServeFile", func(w http.ResponseWriter, q *http.Request) { http.ServeFile(w, q, f) })
			o.ends = true
		case 26: // what the writer can do besides, if anything: sending the head counts as answering
			sent := false
			o = std("flush", func(w http.ResponseWriter, q *http.Request) {
				if ref, ok := w.(*refW); ok {
					if sent && ref.status == 0 {
						ref.WriteHeader(200)
					}
					return
				}
				sent = http.NewResponseController(w).Flush() == nil
				c.Count("flushes_tried", 1)
			})
		}
		ended = ended || o.ends
		ops = append(ops, o)
	}
	return ops
}

type headCounter struct {
	http.ResponseWriter
	codes, interim []int
}

func (h *headCounter) WriteHeader(code int) {
	h.ResponseWriter.WriteHeader(code)
	if code >= 100 && code < 200 {
		h.interim = append(h.interim, code)
		return
	}
	h.codes = append(h.codes, code)
}
func (h *headCounter) Write(b []byte) (int, error) {
	return h.ResponseWriter.Write(b)
}

// what net/http's own writers can do besides
func (h *headCounter) Flush() {
	if len(h.codes) == 0 {
		h.codes = append(h.codes, 200)
	}
	h.ResponseWriter.(http.Flusher).Flush()
}
func (h *headCounter) ReadFrom(src io.Reader) (int64, error) { return io.Copy(h.ResponseWriter, src) }
func (h *headCounter) WriteString(s string) (int, error)     { return io.WriteString(h.ResponseWriter, s) }

func c08(c *C) {
	r := c.R
	files := filepath.Join(c.Dir, "files")
	type script struct {
		ops  []c08op
		ref  *refW
		bad  []string
		mw   []string
		seen int
	}
	n := r.Rng(2, 5)
	scripts := make([]*script, n)
	root := water.NewRouter()
	recovery := r.Pct(40)
	if recovery {
		root.Use(water.Recovery())
	}
	type look struct {
		written bool
		status  int
	}
	lookKey := func(q *http.Request) *[]look {
		v := Val(q, "look")
		if v == nil {
			return nil
		}
		return v.(*[]look)
	}
	for i := r.IntN(3); i >= 0; i-- {
		root.Use(func(x *water.Context) {
			x.Next()
			l := lookKey(x.Request)
			*l = append(*l, look{x.Written(), x.Status()})
		})
	}
	step := func(s *script, x *water.Context, name string, ref *refW) {
		if x.Written() != (ref.status != 0) || x.Status() != ref.status {
			s.bad = append(s.bad, fmt.Sprintf("after %s: Written()=%v Status()=%d, reference says status %d", name, x.Written(), x.Status(), ref.status))
		}
		s.seen++
	}
	for i := range scripts {
		s := &script{ops: c08ops(c, files)}
		scripts[i] = s
		adapted := r.Pct(30)
		if adapted {
			var keep []c08op
			for _, o := range s.ops {
				if o.std {
					keep = append(keep, o)
				}
			}
			s.ops = keep
		}
		names := ""
		for _, o := range s.ops {
			names += " " + o.name
		}
		var h interface{}
		if adapted {
			c.Count("adapted", 1)
			f := func(w http.ResponseWriter, q *http.Request) {
				s.ref = &refW{h: http.Header{}}
				for _, o := range s.ops {
					o.run(nil, w, q)
					o.run(nil, s.ref, q)
				}
			}
			if r.Pct(50) {
				h = http.HandlerFunc(f)
			} else {
				h = f
			}
		} else {
			h = func(x *water.Context) {
				s.ref = &refW{h: http.Header{}}
				for _, o := range s.ops {
					o.run(x, x, x.Request)
					o.run(nil, s.ref, x.Request)
					step(s, x, o.name, s.ref)
				}
			}
		}
		for _, m := range []string{"GET", "POST", "HEAD"} {
			addRoute(root, m, fmt.Sprintf("/s%d", i), []interface{}{h})
		}
	}
	root.Static("/st", files)
	root.GET("/ping", func(x *water.Context) { x.String(200, "pong") })
	eng := root.Handler(water.WithStaticRouter(r.Pct(50)))
	var hc *headCounter
	var looks []look
	done := make(chan struct{}, 4)
	srv := Listen(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		h := &headCounter{ResponseWriter: w}
		looks = nil
		hc = h
		defer func() { done <- struct{}{} }()
		eng.ServeHTTP(h, With(q, "look", &looks))
	}))
	defer srv.Close()

	exchange := func(method, target string) (*Resp, bool) {
		conn := srv.Dial()
		defer conn.Close()
		fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: h.test\r\n\r\n", method, target)
		br := bufio.NewReader(conn)
		res := &Resp{}
		resp, err := http.ReadResponse(br, &http.Request{Method: method})
		for err == nil && resp.StatusCode < 200 {
			res.Interm = append(res.Interm, resp.StatusCode)
			resp, err = http.ReadResponse(br, &http.Request{Method: method})
		}
		if err != nil {
			res.Err = err
			await(done)
			return res, false
		}
		res.Status, res.Head = resp.StatusCode, resp.Header
		res.Body, res.Err = io.ReadAll(resp.Body)
		await(done)
		h0 := hc
		l0 := looks
		follow := false
		if !resp.Close && res.Err == nil {
			fmt.Fprintf(conn, "GET /ping HTTP/1.1\r\nHost: h.test\r\nConnection: close\r\n\r\n")
			r2, err := http.ReadResponse(br, &http.Request{Method: "GET"})
			if err != nil {
				res.Err = fmt.Errorf("the next response on the connection: %w", err)
			} else {
				b, _ := io.ReadAll(r2.Body)
				if string(b) != "pong" || r2.StatusCode != 200 {
					res.Err = fmt.Errorf("the next response on the connection was %d %q", r2.StatusCode, b)
				}
			}
			await(done)
			follow = true
		}
		hc, looks = h0, l0
		return res, follow
	}

	for i, s := range scripts {
		method := r.Str("GET", "GET", "GET", "POST", "HEAD")
		s.bad, s.ref = nil, nil
		res, follow := exchange(method, fmt.Sprintf("/s%d", i))
		c.Eval()
		c.Count("requests", 1)
		if follow {
			c.Count("keepalive_followups", 1)
		}
		names := ""
		for _, o := range s.ops {
			names += " " + o.name
		}
		where := fmt.Sprintf("%s script [%s], recovery=%v", method, names, recovery)
		ref := s.ref
		if ref == nil {
			c.Fail("not-run", "%s: the handler did not run: %v", where, res)
			return
		}
		if len(s.bad) > 0 {
			c.Fail("reported", "%s: %s", where, strings.Join(s.bad, "; "))
			return
		}
		if res.Err != nil {
			// a script that wrote a body after announcing a length or under a status without one may cut the connection
			c.Fail("wire", "%s: %v", where, res)
			return
		}
		want := ref.status
		if want == 0 {
			c.Count("unanswered", 1)
			want = 200
		}
		if res.Status != want {
			c.Fail("status", "%s: the client got %v, the first status chosen was %d", where, res, want)
			return
		}
		if fmt.Sprint(res.Interm) != fmt.Sprint(ref.interim) || fmt.Sprint(hc.interim) != fmt.Sprint(ref.interim) {
			c.Fail("interim", "%s: the connection was given the informational heads %v, the client got %v, expected %v", where, hc.interim, res.Interm, ref.interim)
			return
		}
		c.Count("heads_counted", 1)
		if len(hc.codes) > 1 || len(hc.codes) == 1 && hc.codes[0] != want {
			c.Fail("heads", "%s: the connection was given the heads %v, expected %d once", where, hc.codes, want)
			return
		}
		for k, l := range looks {
			// innermost first; Recovery is outside of all of them
			if l.written != (ref.status != 0) || l.status != ref.status {
				c.Fail("mw-view", "%s: middleware %d saw Written()=%v Status()=%d, the client got %d", where, k, l.written, l.status, res.Status)
				return
			}
		}
		nobody := method == "HEAD" || want == 204 || want == 304
		body := ref.body.Bytes()
		if nobody {
			body = nil
		}
		if !bytes.Equal(bytes.ReplaceAll(res.Body, []byte("\n"), nil), bytes.ReplaceAll(body, []byte("\n"), nil)) {
			c.Fail("body", "%s: got body[%d] %.300q, written was [%d] %.300q", where, len(res.Body), res.Body, len(body), body)
			return
		}
		if ref.status != 0 {
			if ct := ref.snap.Get("Content-Type"); ct != "" && want != 304 && res.Head.Get("Content-Type") != ct {
				c.Fail("ctype", "%s: Content-Type %q, set was %q", where, res.Head.Get("Content-Type"), ct)
				return
			}
			if loc := ref.snap.Get("Location"); loc != res.Head.Get("Location") {
				c.Fail("location", "%s: Location %q, expected %q", where, res.Head.Get("Location"), loc)
				return
			}
		}
		if ref.sniff && len(ref.first) > 0 && method != "HEAD" {
			got := res.Head.Get("Content-Type")
			if got != http.DetectContentType(ref.first) && got != http.DetectContentType(ref.body.Bytes()) {
				c.Fail("sniff", "%s: Content-Type %q for a body starting %.60q", where, got, ref.first)
				return
			}
			c.Count("sniffed", 1)
		}
		if ref.chosen > 1 {
			c.Count("second_status", 1)
			c.Seen(names, method)
		}
		if ref.sniff {
			c.Count("implicit_200", 1)
		}
		c.Sample(func() any { return map[string]any{"script": where, "wire": res.String(), "heads": hc.codes} })
	}
	// switching protocols is an answer, not an informational status
	if r.Pct(15) {
		c.Count("switching", 1)
		ran, late := 0, r.Pct(50)
		var saw []look
		rt := water.NewRouter()
		if r.Pct(50) {
			rt.Use(water.Recovery())
		}
		rt.Use(func(x *water.Context) {
			x.Next()
			saw = append(saw, look{x.Written(), x.Status()})
			if late {
				x.WriteHeader(200)
			}
		})
		rt.GET("/up", func(x *water.Context) {
			x.Header().Set("Upgrade", "proto")
			if r.Pct(50) {
				x.Abort(101)
			} else {
				x.WriteHeader(101)
			}
		}, func(x *water.Context) { ran++; x.String(200, "not switched") })
		rec := NewRec()
		if p, bad := try(func() { rt.Handler().ServeHTTP(rec, Req("GET", "/up")) }); bad {
			c.Fail("switching", "answering 101 panicked: %v", p)
			return
		}
		if len(rec.Codes) != 1 || rec.Codes[0] != 101 || ran != 0 || rec.Body.Len() > 0 || len(saw) != 1 || saw[0] != (look{true, 101}) {
			c.Fail("switching", "the handler answered 101: heads sent %v, later handlers ran %d times, body %q, the middleware saw %+v", rec.Codes, ran, rec.Body, saw)
			return
		}
	}
	// static directories answer like everything else
	for _, p := range []string{"/st/f1.txt", "/st/f3.txt", "/st/absent", "/st/sub", "/st/sub/", "/st/sub/g0.bin"} {
		if !r.Pct(50) {
			continue
		}
		method := r.Str("GET", "HEAD")
		res, _ := exchange(method, p)
		c.Eval()
		c.Count("static", 1)
		if res.Err != nil {
			c.Fail("wire", "%s %s: %v", method, p, res)
			return
		}
		for _, l := range looks {
			if !l.written || l.status != res.Status {
				c.Fail("mw-view", "%s %s: middleware saw Written()=%v Status()=%d, the client got %d", method, p, l.written, l.status, res.Status)
				return
			}
		}
		if len(looks) == 0 || len(hc.codes) > 1 {
			c.Fail("heads", "%s %s: heads %v, %d middlewares looked", method, p, hc.codes, len(looks))
			return
		}
	}
}
