package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C31", Quick: 700, Thor: 8000,
		Rule: "a case is an engine whose handlers read the body through one of the raw accessors (whole as bytes or text, or streamed) and a batch of concurrent requests with bodies of many sizes and framings, some of them failing (the client goes away, the reader errors, a limit set by an earlier handler is hit); what the accessor returned is compared with what was sent. Non-trivial: a non-empty body or a failing read; distinct by accessor, size, framing and fault.",
		Need: []string{"requests", "bytes", "string", "stream", "chunked", "over_1m", "read_errors", "cut_by_client", "limited", "empty", "substituted", "behind_logger", "closes_seen", "error_reported", "tens_of_megabytes"},
		Case: c31})
}

type c31body struct {
	r      io.Reader
	err    error // after all
	step   int
	eager  bool // the error comes with the last bytes
	closed atomic.Int64
}

func (b *c31body) Read(p []byte) (int, error) {
	if b.closed.Load() > 0 {
		return 0, errors.New("read after close")
	}
	if len(p) > b.step {
		p = p[:b.step]
	}
	n, err := b.r.Read(p)
	if err == io.EOF || err == nil && b.eager && n < len(p) {
		return n, b.err
	}
	return n, err
}

func (b *c31body) Close() error { b.closed.Add(1); return nil }

var errC31 = errors.New("wire broken")

type c31res struct {
	data  []byte
	isNil bool
	err   error
	ran   bool
	body  io.ReadCloser
}

func c31(c *C) {
	r := c.R
	kind := r.Str("bytes", "string", "stream")
	where := r.IntN(3) // route handler, middleware before it, before-handler
	logger := r.Pct(25)
	subst := r.Pct(15)
	limit := -1
	if r.Pct(15) {
		limit = pick(r, []int{0, 1, 100, 4096, 1 << 20})
	}
	size := pick(r, []int{1, 7, 512, 4096, 100000})
	read := func(x *water.Context, o *c31res) {
		o.ran, o.body = true, x.Request.Body
		switch kind {
		case "bytes":
			o.data, o.err = x.BodyBytes()
		case "string":
			var s string
			s, o.err = x.BodyString()
			o.data = []byte(s)
		case "stream":
			rc := x.ReadCloser()
			var b bytes.Buffer
			_, o.err = io.CopyBuffer(struct{ io.Writer }{&b}, struct{ io.Reader }{rc}, make([]byte, size))
			o.data = b.Bytes()
			if err := rc.Close(); err != nil && o.err == nil {
				o.err = err
			}
		}
	}
	h := func(x *water.Context) { read(x, Val(x.Request, "o").(*c31res)) }
	rt := water.NewRouter()
	if logger {
		rt.Use(water.Logger())
		c.Count("behind_logger", 1)
	}
	pre := func(x *water.Context) {
		if subst { // as a decompressing middleware would
			b, err := io.ReadAll(x.Request.Body)
			if err == nil {
				x.Request.Body = io.NopCloser(bytes.NewReader(append([]byte("new "), b...)))
			} else {
				x.Request.Body = io.NopCloser(io.MultiReader(bytes.NewReader(append([]byte("new "), b...)), errReader{err}))
			}
		}
		if limit >= 0 {
			x.Request.Body = http.MaxBytesReader(x, x.Request.Body, int64(limit))
		}
	}
	switch where {
	case 0:
		rt.Use(pre)
		rt.ANY("/b", h, func(x *water.Context) { x.String(200, "done") })
	case 1:
		rt.Use(pre, h)
		rt.ANY("/b", func(x *water.Context) { x.String(200, "done") })
	case 2:
		rt.Before(pre, h)
		rt.ANY("/b", func(x *water.Context) { x.String(200, "done") })
	}
	e := rt.Handler()
	var outs sync.Map
	srv := Listen(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		o, _ := outs.Load(q.Header.Get("X-Id"))
		e.ServeHTTP(w, With(q, "o", o.(*c31res)))
	}))
	defer srv.Close()
	k := r.Rng(1, 6)
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		n := pick(r, []int{0, 1, 2, 100, 511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65537, 200000})
		if r.Pct(6) {
			n = 1<<20 + pick(r, []int{-1, 0, 1, 4096, 3 << 20})
		}
		if r.OneIn(700) {
			n = r.Rng(33<<20, 40<<20)
		}
		if n > 32<<20 {
			c.Count("tens_of_megabytes", 1)
		}
		body := r.Bytes(n)
		if r.Pct(20) && n > 3 {
			copy(body, "\xef\xbb\xbf")
		}
		if r.Pct(20) && n > 3 {
			copy(body[n-2:], "\r\n")
		}
		if r.Pct(10) {
			body = []byte(r.Str(" ", "\n", "\x00", "null", "{}"))
			n = len(body)
		}
		method := r.Str("POST", "PUT", "PATCH", "DELETE", "POST")
		ct := r.Str("application/json", "text/plain", "application/octet-stream", "", "image/png", "application/x-www-form-urlencoded")
		fault := r.IntN(10) // 0: reader error, 1: the client goes away, 2: reader error with the last bytes
		cut := n
		if fault <= 2 && n > 0 {
			cut = pick(r, []int{0, 1, n / 2, n - 1})
		} else {
			fault = 9
		}
		mode := r.IntN(3) // in process, length, chunked
		if fault == 0 || fault == 2 {
			mode = 0
		}
		if fault == 1 && mode == 0 {
			mode = 1
		}
		if mode == 1 && fault == 1 {
			cut = min(cut, n-1)
		}
		step := pick(r, []int{1 << 20, 1, 7, 4096})
		if n > 70000 {
			step = 1 << 20
		}
		want, failing := body[:cut], fault != 9
		if logger && failing && strings.HasPrefix(ct, "application/json") && mode != 0 {
			// still the same body behind the logger
		}
		if subst {
			want = append([]byte("new "), want...)
		}
		if limit >= 0 && len(want) > limit {
			want, failing = want[:limit], true
		}
		c.Seen(kind, where, n, mode, fault, cut, limit, subst, logger, ct)
		c.Count("requests", 1)
		c.Count(kind, 1)
		if len(body) == 0 {
			c.Count("empty", 1)
		}
		if n > 1<<20 {
			c.Count("over_1m", 1)
		}
		if subst {
			c.Count("substituted", 1)
		}
		if limit >= 0 {
			c.Count("limited", 1)
		}
		if mode == 2 {
			c.Count("chunked", 1)
		}
		switch fault {
		case 0, 2:
			c.Count("read_errors", 1)
		case 1:
			c.Count("cut_by_client", 1)
		}
		o := &c31res{}
		id := fmt.Sprint(i)
		outs.Store(id, o)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Eval()
			var cb *c31body
			var resp string
			switch mode {
			case 0:
				q := Req(method, "/b")
				cb = &c31body{r: bytes.NewReader(body[:cut]), err: io.EOF, step: step, eager: fault == 2}
				if fault != 9 {
					cb.err = errC31
				}
				q.Body = cb
				if ct != "" {
					q.Header.Set("Content-Type", ct)
				}
				rec := Serve(e, With(q, "o", o))
				resp = fmt.Sprint(rec.Status(), " ", rec.Body.String())
			default:
				hdr := [][2]string{{"X-Id", id}}
				if ct != "" {
					hdr = append(hdr, [2]string{"Content-Type", ct})
				}
				var raw []byte
				if mode == 1 {
					raw = Line(method, "/b", hdr, body)
					raw = raw[:len(raw)-(n-cut)]
				} else {
					var b bytes.Buffer
					b.Write(Line(method, "/b", append(hdr, [2]string{"Transfer-Encoding", "chunked"}), nil))
					if cut > 0 {
						fmt.Fprintf(&b, "%x\r\n%s", cut, body[:cut])
						if fault != 1 {
							b.WriteString("\r\n")
						}
					}
					if fault != 1 {
						b.WriteString("0\r\n\r\n")
					}
					raw = b.Bytes()
				}
				conn := srv.Dial()
				go func() {
					conn.Write(raw)
					if fault == 1 {
						conn.(interface{ CloseWrite() error }).CloseWrite()
					}
				}()
				all, _ := io.ReadAll(conn)
				conn.Close()
				if p, err := readRaw(all, method); err == nil {
					resp = fmt.Sprint(p.Status, " ", string(p.Body))
				} else {
					resp = err.Error()
				}
			}
			show := func() string {
				return fmt.Sprintf("accessor %s in handler %d (logger %v, substituted %v, limit %d): %s body %d bytes, type %q, mode %d, fault %d at %d; returned %d bytes, error %v; answered %.80s",
					kind, where, logger, subst, limit, method, n, ct, mode, fault, cut, len(o.data), o.err, resp)
			}
			if !o.ran {
				if fault == 1 { // the server may notice first
					return
				}
				c.Fail("not run", "the handler did not run\n%s", show())
				return
			}
			switch {
			case failing:
				if o.err == nil {
					c.Fail("silent", "the body could not be read whole, but no error was reported\n%s", show())
					return
				}
				c.Count("error_reported", 1)
				if kind == "stream" && !bytes.Equal(o.data, want) && fault != 1 {
					c.Fail("prefix", "the stream gave other bytes than what arrived before the failure\n%s", show())
					return
				}
				if kind != "stream" && len(o.data) != 0 && !bytes.HasPrefix(want, o.data) {
					c.Fail("prefix", "bytes nobody sent were returned with the error\n%s", show())
					return
				}
			default:
				if o.err != nil {
					c.Fail("error", "the whole body arrived, but reading it failed\n%s", show())
					return
				}
				if !bytes.Equal(o.data, want) {
					c.Fail("bytes", "the accessor returned %.60q..., expected %.60q...\n%s", o.data, want, show())
					return
				}
				if resp != "200 done" {
					c.Fail("answer", "the request was not answered by its last handler\n%s", show())
					return
				}
				if cb != nil && limit < 0 && !subst {
					if cb.closed.Load() == 0 {
						c.Fail("open", "the body was read whole and not closed\n%s", show())
						return
					}
					c.Count("closes_seen", 1)
				}
			}
		}()
	}
	wg.Wait()
	c.Sample(func() any {
		return map[string]any{"accessor": kind, "handler": where, "logger": logger, "limit": limit, "requests": k}
	})
}

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }
