package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

func init() {
	register(&Prop{ID: "C36", Quick: 220, Thor: 5000, Serial: true,
		Rule: "a case is an engine with every kind of handler (static and parameter routes, binding, uploads, raw bodies, files, downloads, streams, panics, waiting for cancellation, unmatched paths) and a batch of some hundred requests, concurrent, in process and over connections some of which the client drops or whose writes fail, uploads saved to places that do not exist included; every request carries objects whose release is observed (the request, its body and writer, stored and bound values) and kilobytes of text of its own. Afterwards, with the engine still in use, the garbage collector must free every observed object, the heap must not have grown with the text served, and goroutines, open files and temporary files must be back to what they were; then the engine itself is dropped and must be freed. Non-trivial: batches that mix at least five kinds; distinct by engine setup and kinds.",
		Need: []string{"requests", "tracked", "freed", "bytes_served", "heap_compared", "static", "param", "regexp", "glob", "unmatched", "method", "json", "form", "upload", "upload_on_disk", "raw", "panic", "file", "dir", "download", "attach", "stream", "env", "cancelled", "dropped", "goexit", "wire", "engines_freed", "recovery", "logger", "notfound_chain", "clone", "bind2", "refused", "few_kinds", "openfile", "cookie", "headers", "redirect", "xml", "queries", "data", "hijack", "hijacked", "upgrade", "unsaved", "unreadable", "broken_connections"},
		Case: c36})
}

// c36leak counts objects handed out and given back by the collector.
type c36leak struct {
	mu    sync.Mutex
	alive map[string]int
	born  atomic.Int64
}

func (l *c36leak) done(kind string) {
	l.mu.Lock()
	l.alive[kind]--
	l.mu.Unlock()
}

func (l *c36leak) left() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := ""
	for k, n := range l.alive {
		if n > 0 {
			s += fmt.Sprintf(" %s:%d", k, n)
		}
	}
	return s
}

func c36track[T any](l *c36leak, kind string, p *T) *T {
	l.mu.Lock()
	l.alive[kind]++
	l.mu.Unlock()
	l.born.Add(1)
	runtime.AddCleanup(p, l.done, kind)
	return p
}

type c36value struct {
	S string
	B [64]byte
}

type c36bound struct {
	S  string                `form:"s" json:"s"`
	L  []string              `form:"l" json:"l"`
	M  map[string]string     `json:"m"`
	F  *multipart.FileHeader `form:"f"`
	In *c36value             `json:"in"`
	V  string                `form:"v" json:"v" binding:"max=3"`
	N  int                   `form:"n" json:"n" header:"Trace-ID"`
	T  time.Time             `form:"t" json:"-" time_format:"2006-01-02"`
	D  []float64             `form:"d" json:"d"`
	W  time.Duration         `form:"w" json:"-"`
	B  *bool                 `form:"b" json:"-"`
}

type c36body struct {
	io.Reader
	pad [32]byte
}

func (b *c36body) Close() error { return nil }

func c36heap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ { // pools let go of what they hold at the second
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func c36fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

func c36open() (l string) {
	d, _ := os.ReadDir("/proc/self/fd")
	for _, f := range d {
		t, _ := os.Readlink("/proc/self/fd/" + f.Name())
		l += " " + t
	}
	return
}

func c36tmps(dir string) (out []string) {
	d, _ := os.ReadDir(dir)
	for _, f := range d {
		if strings.HasPrefix(f.Name(), "multipart-") {
			out = append(out, f.Name())
		}
	}
	return
}

// c36writer is a connection that breaks after some bytes.
type c36writer struct {
	*Rec
	left int
}

func (w *c36writer) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n, _ := w.Rec.Write(b[:w.left])
		w.left = 0
		return n, errC37
	}
	w.left -= len(b)
	return w.Rec.Write(b)
}

type c36app struct {
	e        *water.Engine
	leak     *c36leak
	dir      string
	recovery bool
	panics   bool
	desc     string
	waiting  chan struct{}
}

var c36kinds = []string{"static", "param", "regexp", "glob", "unmatched", "method", "json", "form", "upload", "raw", "panic", "file", "dir", "download", "attach", "stream", "env", "cancelled", "goexit", "clone", "bind2", "openfile", "cookie", "headers", "redirect", "xml", "queries", "data", "hijack", "upgrade"}

func c36build(c *C, leak *c36leak, dir string) *c36app {
	r := c.R
	a := &c36app{leak: leak, dir: dir, waiting: make(chan struct{}, 1000)}
	rt := c36track(leak, "router", water.NewRouter())
	if r.Pct(50) {
		a.desc += " logger"
		rt.Use(water.Logger())
		c.Count("logger", 1)
	}
	if r.Pct(60) {
		a.desc, a.recovery = a.desc+" recovery", true
		rt.Use(water.Recovery())
		c.Count("recovery", 1)
	}
	if r.Pct(40) {
		a.desc += " cors"
		rt.Before(water.CORS(water.CORSConfig{AllowOrigins: []string{"http://a.test"}}))
	}
	if r.Pct(50) {
		a.desc += " next"
		rt.Use(func(x *water.Context) {
			x.Set("mw", c36track(leak, "stored by middleware", &c36value{S: x.Request.URL.Path}))
			x.Next()
		})
	}
	end := func(x *water.Context) { x.String(200, "ok "+x.Params["a"]+x.Params["n"]+x.Params["*0"]) }
	end0 := func(x *water.Context) { x.String(200, "ok") }
	rt.GET("/static/x", end)
	rt.GET("/p/:a", end)
	rt.GET("/p/:a/q/<b>", end)
	rt.GET("/l/:a_name_that_says_all_there_is_to_say_of_it", end0)
	rt.GET("/r/<n ~ [0-9]+>", end)
	rt.GET("/r/<n ~ [0-9]+>/t/<m>", end)
	rt.GET("/w/*", end)
	bound := func() *c36bound {
		return c36track(leak, "bound value", &c36bound{In: c36track(leak, "bound inner value", &c36value{})})
	}
	rt.POST("/json", func(x *water.Context) {
		v := bound()
		err := x.Bind(v)
		if err != nil && strings.Contains(err.Error(), "max") {
			c.Count("refused", 1)
		}
		x.JSON(200, water.H{"err": fmt.Sprint(err), "v": len(v.S)})
	})
	rt.POST("/form", func(x *water.Context) {
		v := bound()
		if x.Bind(v) != nil {
			c.Count("unreadable", 1)
			x.BindWith(v, binding.Header)
		}
		x.Query("q")
		x.QueryMap("m")
		x.QueryArray("l")
		x.String(200, v.S[:min(3, len(v.S))])
	})
	rt.POST("/bind2", func(x *water.Context) {
		v := bound()
		binding.Form.Bind2(x.Request, v)
		x.String(200, "b")
	})
	rt.POST("/upload", func(x *water.Context) {
		f, fh, err := x.FormFile("f")
		if err != nil {
			x.BadRequest()
			return
		}
		io.CopyN(io.Discard, f, 100)
		f.Close()
		c36track(leak, "file header", fh)
		dst := filepath.Join(dir, fmt.Sprintf("up-%d", c21n.Add(1)))
		switch len(x.Query("s")) % 4 {
		case 0:
			dst = filepath.Join(dir, "none", "up") // cannot be made
			c.Count("unsaved", 1)
		case 1:
			dst = filepath.Join(dir, "sub")
			c.Count("unsaved", 1)
		}
		err = x.SaveUploadedFile(fh, dst)
		if strings.Contains(dst, "up-") {
			os.Remove(dst)
		}
		x.String(200, fmt.Sprint(err))
	})
	rt.POST("/raw", func(x *water.Context) {
		b, err := x.BodyBytes()
		x.String(200, fmt.Sprint(len(b), err))
	})
	rt.GET("/panic/:a", func(x *water.Context) {
		if len(x.Param("a"))%2 == 0 {
			x.WriteHeader(200)
		}
		panic(c36track(leak, "panic value", &c36value{S: x.Param("a")}))
	})
	rt.GET("/file", func(x *water.Context) { x.ServeFile(filepath.Join(dir, "f.txt")) })
	rt.GET("/download", func(x *water.Context) {
		if x.Download(filepath.Join(dir, x.Query("n"))) != nil {
			x.NotFound()
		}
	})
	rt.GET("/attach", func(x *water.Context) {
		s := c36track(leak, "attached reader", strings.NewReader(x.Query("n")))
		mod := time.Time{}
		if n := x.Query("n"); n != "" && n[0]%2 == 0 {
			mod = time.Unix(1e9+int64(n[0]), 0)
		}
		x.Attachment(x.Query("n"), mod, s)
	})
	rt.GET("/stream", func(x *water.Context) {
		x.Stream("text/plain", c36track(leak, "stream", &c36body{Reader: strings.NewReader(strings.Repeat(x.Query("n"), 1+len(x.Request.Header.Get("X-Text"))%7*20))}))
	})
	rt.GET("/env", func(x *water.Context) {
		x.Set("k", c36track(leak, "stored value", &c36value{S: x.Query("n")}))
		x.Environ.Set(x.Query("n"), 1)
		x.SetHeader("X-K", x.Get("k").(*c36value).S[:3])
	}, func(x *water.Context) {
		x.GetMaybe("k")
		end(x)
	})
	rt.GET("/cancelled", func(x *water.Context) {
		a.waiting <- struct{}{}
		<-x.Request.Context().Done()
		x.String(200, "late")
	})
	rt.GET("/clone/:a", func(x *water.Context) {
		x.Request = x.Request.WithContext(context.WithValue(x.Request.Context(), ctxKey{"v"}, c36track(leak, "context value", &c36value{})))
		end(x)
	})
	rt.GET("/cookie", func(x *water.Context) {
		v := x.Cookie("c")
		x.CookieEscape("c")
		x.CookieInt("c")
		x.CookieFloat64("c")
		x.CookieBool("c")
		x.SetCookie(v[:min(20, len(v))], v, 100, "/"+v, "h.test", true, true, http.SameSiteLaxMode)
		x.SetCookie("s", v)
		x.SetCookie("not valid", v)
		end(x)
	})
	rt.GET("/headers", func(x *water.Context) {
		n := len(x.Proxy()) + len(x.RealIp()) + len(x.Protocol()) + len(x.UserAgent()) + len(x.ContentType()) + len(x.FullPath()) + len(x.HandlerName())
		x.IsAjax()
		x.IsWebsocket()
		x.NoCache()
		x.SetHeader(x.GetHeader("X-Name"), x.GetHeader("X-Text"))
		x.String(200, fmt.Sprint(n))
	})
	rt.GET("/redirect", func(x *water.Context) {
		if len(x.Query("n"))%2 == 0 {
			x.Found("/p/" + x.Query("n"))
		} else {
			x.MovedPermanently("?" + x.Query("n"))
		}
	})
	rt.POST("/xml", func(x *water.Context) {
		v := bound()
		err := x.Bind(v)
		x.XML(200, c36track(leak, "encoded value", &c36value{S: v.S + fmt.Sprint(err)}))
	})
	rt.POST("/queries", func(x *water.Context) {
		k := x.Request.Header.Get("X-Name")
		x.QueryInt(k)
		x.QueryInt64(k)
		x.QueryUint(k)
		x.QueryUint64(k)
		x.QueryFloat64(k)
		x.QueryBool(k)
		x.DefaultQuery(k, k)
		x.DefaultQueryInt(k, "1")
		x.DefaultQueryArray(k, []string{k})
		x.DefaultQueryMap(k, map[string]string{k: k})
		x.QueryMap(k)
		x.QueryArray(k)
		end(x)
	})
	rt.GET("/data", func(x *water.Context) {
		switch n := x.Query("n"); len(n) % 3 {
		case 0:
			x.Data(200, "text/"+n[:20], []byte(n))
		case 1:
			x.HTMLRaw(404, n)
		default:
			x.NotModified()
		}
	})
	rt.GET("/hijack", func(x *water.Context) {
		h, ok := x.ResponseWriter.(http.Hijacker)
		if !ok {
			end(x)
			return
		}
		if conn, _, err := h.Hijack(); err == nil {
			c.Count("hijacked", 1)
			fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
			conn.Close()
		}
	})
	rt.GET("/upgrade", func(x *water.Context) { // what is flushed is out
		for i := 0; i < 3; i++ {
			io.WriteString(x, x.Query("n")[:10])
			if f, ok := x.ResponseWriter.(http.Flusher); ok {
				f.Flush()
			}
		}
	})
	rt.GET("/goexit", func(x *water.Context) {
		x.WriteHeader(200)
		runtime.Goexit()
	})
	mustWrite(filepath.Join(dir, "f.txt"), r.Bytes(5000))
	os.MkdirAll(filepath.Join(dir, "sub"), 0o700)
	mustWrite(filepath.Join(dir, "sub", "home.htm"), []byte("home"))
	for _, ext := range []string{".gz", ".br", ".zst", ".meta", ".html"} {
		mustWrite(filepath.Join(dir, "sub", "home.htm"+ext), []byte("beside"))
		mustWrite(filepath.Join(dir, "f.txt"+ext), []byte("beside"))
	}
	o := &water.StaticOptions{Prefix: "/st", FileSystem: http.Dir(dir), ETag: water.ETagType(r.IntN(3))}
	if r.Pct(50) {
		o.IndexFile = "home.htm"
	}
	rt.StaticAdvance(o)
	var opts []water.Option
	if r.Pct(50) {
		a.desc += " static-router"
		opts = append(opts, water.WithStaticRouter(true))
	}
	if r.Pct(50) {
		a.desc += " not-found-handlers"
		c.Count("notfound_chain", 1)
		opts = append(opts, water.WithNoFoundHandlers(func(x *water.Context) {
			x.Set("nf", c36track(leak, "stored by not-found handler", &c36value{}))
			x.NotFound()
		}))
	}
	opts = append(opts, water.WithMaxMultipartMemory(2000))
	a.e = c36track(leak, "engine", rt.Handler(opts...))
	return a
}

// request makes one request of a kind; text is its own.
func (a *c36app) request(r R, kind string) (method, target, ct string, body []byte) {
	text := r.From("abcdefghijklmnopqrstuvwxyz0123456789", 2500)
	method = "GET"
	q := "?n=" + text + "&" + r.Word() + "=" + text[:100]
	switch kind {
	case "static":
		target = "/static/x" + q
	case "param":
		target = r.Str("/p/", "/p/", "/l/") + text
		if target[1] == 'p' {
			target += r.Str("", "/q/"+text[:50])
		}
	case "regexp":
		target = "/r/" + r.From("0123456789", 2500) + r.Str("", "/t/"+text[:50])
	case "glob":
		target = "/w/" + text + "/" + text[:99]
	case "unmatched":
		target = "/" + text
	case "method":
		method, target = r.Str("DELETE", "PUT", "PATCH", "OPTIONS", "HEAD"), "/p/"+text
	case "json":
		method, target, ct = "POST", "/json", "application/json"
		body = []byte(`{"s":"` + text + `","l":["` + text[:300] + `"],"m":{"` + text[:200] + `":"v"},"in":{"S":"` + text[:100] + `"}` + r.Str("", `,"v":"refused"`) + `}` + r.Str("", "x"))
	case "form", "bind2":
		method, target, ct = "POST", "/"+kind+"?q="+text[:200]+"&m["+text[:50]+"]=1", "application/x-www-form-urlencoded"
		body = []byte("s=" + text + "&l=a&l=" + text[:200] + r.Str("", "&v=refused"))
		if r.Pct(70) { // not to be read as what they should be
			body = []byte(r.Str("n", "t", "d", "w", "b") + "=" + text + "&s=x")
		}
	case "upload":
		method, target = "POST", "/upload"
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		p, _ := w.CreateFormFile("f", text[:100])
		p.Write([]byte(strings.Repeat(text, r.Rng(1, 8))))
		for k := r.IntN(8) - 4; k > 0; k-- { // more of them
			p, _ := w.CreateFormFile(r.Str("f", "f", "g"), text[:50])
			p.Write([]byte(strings.Repeat(text, r.Rng(1, 8))))
		}
		w.WriteField("s", text[:r.Rng(1, len(text))])
		w.Close()
		ct, body = w.FormDataContentType(), b.Bytes()
		if r.Pct(10) {
			body = body[:len(body)-10]
		}
	case "raw":
		method, target, ct, body = "POST", "/raw", "text/plain", []byte(text)
		if r.OneIn(25) {
			body = bytes.Repeat(body, r.Rng(420, 1000))
		}
	case "xml":
		method, target, ct = "POST", "/xml", "application/xml"
		body = []byte("<a><S>" + text + "</S><L>" + text[:100] + "</L>" + r.Str("", "<N>"+text[:100]+"</N>") + "</a>")
	case "queries":
		method, target, ct = "POST", "/queries"+q+"&m["+text[:90]+"]=1", "application/x-www-form-urlencoded"
		body = []byte(text[:50] + "=" + text[:1000])
	case "panic":
		target = "/panic/" + text[r.IntN(2):]
	case "file":
		target = "/file" + q
	case "dir":
		target = r.Str("/st/sub/", "/st/sub", "/st/", "/st/"+text[:200], "/st/f.txt") + q
	case "openfile":
		target = "/st/" + r.Str("f.txt", "sub/home.htm", "sub/") + q
	case "download":
		target = "/download?n=" + r.Str("f.txt", "sub", "none") + "&x=" + text
	default:
		target = "/" + kind + q
		if kind == "clone" {
			target = "/clone/" + text
		}
	}
	return
}

// c36headers are a request's own headers.
func c36headers(r R, kind string) (l [][2]string) {
	text := r.From("abcdefghijklmnopqrstuvwxyz0123456789", 1500)
	switch kind {
	case "cookie":
		l = append(l, [2]string{"Cookie", "c=" + text + "; d=" + text[:100]})
	case "headers", "queries":
		l = append(l, [2]string{"X-Name", text[:50]}, [2]string{"X-Forwarded-For", strings.ReplaceAll(text, "9", ", ")}, [2]string{"User-Agent", text}, [2]string{"X-Forwarded-Proto", r.Str("https", "http", text)}, [2]string{"Connection", "upgrade"}, [2]string{"Upgrade", text[:100]}, [2]string{"X-Requested-With", text[:300]})
		if r.Pct(50) {
			l = append(l, [2]string{"X-Real-Ip", text})
		}
	}
	if r.Pct(30) {
		l = append(l, [2]string{"Origin", "http://" + text[:200] + ".test"}, [2]string{"Access-Control-Request-Method", "PUT"}, [2]string{"Access-Control-Request-Headers", text[:300]})
	}
	if r.Pct(30) {
		l = append(l, [2]string{"If-None-Match", `"` + text[:300] + `"`}, [2]string{"Accept-Encoding", text[:100] + ", gzip"}, [2]string{"Range", "bytes=" + text[:99]})
	}
	return
}

func (a *c36app) inProcess(c *C, r R, kind string) int {
	method, target, ct, body := a.request(r, kind)
	u, err := url.ParseRequestURI(target)
	if err != nil {
		panic("harness: " + err.Error())
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	q := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "h", RequestURI: target, RemoteAddr: "192.0.2.7:1"}
	q.Body = http.NoBody
	if body != nil {
		q.Body = c36track(a.leak, "body", &c36body{Reader: bytes.NewReader(body)})
		q.ContentLength = int64(len(body))
	}
	if ct != "" {
		q.Header.Set("Content-Type", ct)
	}
	q.Header.Set("X-Text", target[:r.Rng(1, min(len(target), 500))])
	for _, h := range c36headers(r, kind) {
		q.Header.Add(h[0], h[1])
	}
	q.Header.Set("Trace-ID", target[:min(len(target), 200)])
	q = q.WithContext(ctx)
	c36track(a.leak, "request", q)
	rec := c36track(a.leak, "response writer", NewRec())
	var w http.ResponseWriter = rec
	if r.Pct(25) {
		c.Count("broken_connections", 1)
		w = &c36writer{rec, pick(r, []int{0, 10, 3000, 50000})}
	}
	if kind == "cancelled" {
		go func() {
			<-a.waiting
			cancel()
		}()
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { recover() }()
		a.e.ServeHTTP(w, q)
	}()
	<-done
	if q.MultipartForm != nil { // as net/http does
		for _, l := range q.MultipartForm.File {
			for _, fh := range l {
				if onDisk(fh) {
					c.Count("upload_on_disk", 1)
				}
			}
		}
		q.MultipartForm.RemoveAll()
	}
	return len(target) + min(len(body), 3000) // of a big one nothing at all may stay
}

func (a *c36app) onWire(c *C, r R, s *Server, kind string) {
	method, target, ct, body := a.request(r, kind)
	conn := s.Dial()
	defer conn.Close()
	var hd [][2]string
	if ct != "" {
		hd = append(hd, [2]string{"Content-Type", ct})
	}
	raw := Line(method, target, append(hd, c36headers(r, kind)...), body)
	drop := r.Pct(20)
	if drop {
		c.Count("dropped", 1)
		if body != nil && r.Pct(50) {
			raw = raw[:len(raw)-len(body)/2]
		}
	}
	conn.Write(raw)
	if kind == "cancelled" {
		select {
		case <-a.waiting:
		case <-time.After(10 * time.Second):
		}
		return
	}
	if !drop {
		io.Copy(io.Discard, conn)
	}
}

func c36(c *C) {
	r := c.R
	dir := filepath.Join(c.Dir, fmt.Sprintf("c36-%d", c.N))
	os.MkdirAll(dir, 0o700)
	defer os.RemoveAll(dir)
	leak := &c36leak{alive: map[string]int{}}
	gos, fds := runtime.NumGoroutine(), c36fds()
	a := c36build(c, leak, dir)
	kinds := append([]string(nil), c36kinds...)
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	few := r.Rng(3, len(kinds))
	if r.Pct(35) {
		few = r.Rng(1, 2)
		c.Count("few_kinds", 1)
	}
	kinds = kinds[:few]
	desc := fmt.Sprintf("engine%s, kinds %v", a.desc, kinds)
	c.Eval()
	if len(kinds) >= 5 {
		c.Seen(a.desc, kinds)
	}
	c.Sample(func() any { return desc })

	batch := func(n, workers int, one func(r R, kind string)) {
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wr := R{newR(r.Uint64(), "c36", w).Rand}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := w; i < n; i += workers {
					k := kinds[i%len(kinds)]
					c.Count(k, 1)
					c.Count("requests", 1)
					one(wr, k)
				}
			}()
		}
		wg.Wait()
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // the collector closes lost files
	var served atomic.Int64
	local := func(r R, kind string) { served.Add(int64(a.inProcess(c, r, kind))) }
	batch(2*len(kinds), 1, local) // types met for the first time are remembered for good
	workers := r.Rng(1, 8)
	h0 := c36heap()
	served.Store(0)
	batch(max(150, 2*len(kinds)), workers, local)
	if n := c36fds(); n > fds {
		c.Fail("files left open", "files left open, after all requests were over: %d, before %d:%s; %s", n, fds, c36open(), desc)
	}
	h1 := c36heap()
	for i := 0; i < 5 && h1-h0 > served.Load()/8; i++ {
		time.Sleep(50 * time.Millisecond)
		h1 = c36heap()
	}
	c.Count("bytes_served", int(served.Load()))
	c.Count("heap_compared", 1)
	if h1-h0 > served.Load()/8 {
		c.Fail("heap growth", "the heap grew by %d bytes while requests with %d bytes of their own were served and finished; %s", h1-h0, served.Load(), desc)
	}
	if r.Pct(50) {
		s := Listen(a.e)
		n := r.Rng(20, 60)
		c.Count("wire", n)
		batch(n, r.Rng(1, 8), func(r R, kind string) { a.onWire(c, r, s, kind) })
		deadline := time.Now().Add(20 * time.Second) // let what is dropped come to its end
		ctx, cancel := context.WithDeadline(context.Background(), deadline)
		s.S.Shutdown(ctx)
		cancel()
		s.Close()
	}
	settle := func(what string, f func() string) {
		var left string
		for i := 0; i < 60; i++ {
			if left = f(); left == "" {
				return
			}
			time.Sleep(time.Duration(1+i*4) * time.Millisecond)
		}
		c.Fail(what, "%s, after all requests were over: %s; %s", what, left, desc)
	}
	settle("goroutines left", func() string {
		if n := runtime.NumGoroutine(); n > gos {
			buf := make([]byte, 1<<20)
			return fmt.Sprintf("%d, before %d\n%s", n, gos, buf[:runtime.Stack(buf, true)])
		}
		return ""
	})
	settle("files left open", func() string {
		if n := c36fds(); n > fds {
			return fmt.Sprintf("%d, before %d:%s", n, fds, c36open())
		}
		return ""
	})
	settle("temporary files left", func() string { return strings.Join(c36tmps(c.Dir), " ") })
	settle("objects kept", func() string {
		runtime.GC()
		l := ""
		leak.mu.Lock()
		for k, n := range leak.alive {
			if n > 0 && k != "engine" && k != "router" {
				l += fmt.Sprintf(" %s:%d", k, n)
			}
		}
		leak.mu.Unlock()
		return l
	})
	runtime.KeepAlive(a)
	a = nil
	settle("engine kept", func() string {
		runtime.GC()
		return leak.left()
	})
	c.Count("engines_freed", 1)
	c.Count("tracked", int(leak.born.Load()))
	leak.mu.Lock()
	n := int(leak.born.Load())
	for _, k := range leak.alive {
		n -= k
	}
	leak.mu.Unlock()
	c.Count("freed", n)
}
