package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

func init() {
	register(&Prop{ID: "C38", Quick: 260, Thor: 6000,
		Rule: "a case is two engines, each with every feature switched on in its own way (routes of all kinds, CORS, logger, recovery, static files, downloads, binding of several types with defaults and validation, uploads, cookies, helpers, stored values, not-found chains), and some sixty requests of all kinds, good, broken, panicking and cut short. Each request is first answered by an engine made for it alone; then both engines answer all of them several times in random order, one after the other or from up to sixteen goroutines whose handlers yield midway. Every answer, and every value bound or read in a handler, also later when all requests are over, must be what it was alone. Built with the race detector. Non-trivial: every shared run; distinct by configuration and requests.",
		Need: []string{"alone", "shared", "sequential_runs", "concurrent_runs", "kept_values", "panicked", "unmatched", "bound", "bound2", "refused", "uploads", "static", "cors", "preflight", "cookies", "params", "encoded", "downloads", "cut_bodies", "env", "redirects", "queries", "long_words", "crowds", "cold_starts", "first_meetings", "two_directories", "own_process"},
		Before: func(e *Env) {
			water.Status = water.Stable // no call stacks in answers
			c38first(&C{Env: e, R: newR(e.Seed, "c38first", 0)}, 0)
		},
		Case: c38})
}

// c38first: handlers and types met for the first time, by several goroutines at once that share nothing else
// (what the rest of the harness does would order their steps for the race detector).
func c38first(c *C, n int) {
	r := c.R
	hs := []func(x *water.Context) string{
		func(x *water.Context) string { return x.HandlerName() },
		func(x *water.Context) string { return "1" + x.HandlerName() },
		func(x *water.Context) string { return "2" + x.HandlerName() },
	}
	hf := []interface{}{
		func(x *water.Context) { x.String(200, x.HandlerName()) }, func(x *water.Context) { x.String(201, x.HandlerName()) }, func(x *water.Context) { x.String(202, x.HandlerName()) },
		func(x *water.Context) { x.String(203, x.HandlerName()) }, func(x *water.Context) { x.String(210, x.HandlerName()) }, func(x *water.Context) { x.String(211, x.HandlerName()) },
		func(x *water.Context) { x.String(212, hs[0](x)) }, func(x *water.Context) { x.String(213, hs[1](x)) }, func(x *water.Context) { x.String(214, hs[2](x)) },
	}
	var types []reflect.Type
	for i := 0; i < 4; i++ {
		var fs []reflect.StructField
		fs = append(fs, reflect.StructField{Name: "T", Type: reflect.TypeOf(time.Time{}),
			Tag: reflect.StructTag(fmt.Sprintf(`form:"t" time_format:"2006-01-02" time_location:%q`, []string{"Europe/Berlin", "Asia/Tokyo", "America/New_York", "Etc/GMT+5"}[i]))})
		for j := 0; j < 3; j++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%dx%dx%d", n, i, j), Type: reflect.TypeOf([]any{"", 0, []string{}}[j]),
				Tag: reflect.StructTag(fmt.Sprintf(`form:"f%d" json:"f%d" xml:"f%d" binding:"max=%d"`, j, j, j, 5+i))})
		}
		types = append(types, reflect.StructOf(fs))
	}
	const workers = 8
	rt := water.NewRouter()
	for i, h := range hf {
		rt.GET(fmt.Sprintf("/h%d/<a>", i), h)
	}
	rt.POST("/b/<a>", func(x *water.Context) {
		v := reflect.New(types[x.Params["a"][0]-'0']).Interface()
		err := x.Bind(v)
		x.String(200, fmt.Sprint(reflect.ValueOf(v).Elem().Interface(), err))
	})
	rt.POST("/b2/<a>", func(x *water.Context) {
		v := reflect.New(types[x.Params["a"][0]-'0']).Interface()
		err := binding.Form.Bind2(x.Request, v)
		x.String(200, fmt.Sprint(reflect.ValueOf(v).Elem().Interface(), err))
	})
	e := rt.Handler()
	type ask struct {
		method, path, ct, body string
	}
	var asks []ask
	for i := range hf {
		asks = append(asks, ask{"GET", fmt.Sprintf("/h%d/x", i), "", ""})
	}
	for i := range types {
		asks = append(asks, ask{"POST", fmt.Sprintf("/b/%d", i), "application/x-www-form-urlencoded", "f0=abc&f1=3&f2=a&f2=b&t=2020-02-03"},
			ask{"POST", fmt.Sprintf("/b2/%d", i), "application/x-www-form-urlencoded", "f0=abc&f1=3&f2=a&f2=b&t=2020-02-03"},
			ask{"POST", fmt.Sprintf("/b/%d", i), "application/x-www-form-urlencoded", "f0=too%20long%20a%20text&f1=3"},
			ask{"POST", fmt.Sprintf("/b/%d", i), "application/json", `{"f0":"x","f1":2,"f2":["q"]}`})
	}
	out := make([][]string, workers)
	orders := make([][]int, workers)
	for w := range orders {
		orders[w] = r.Perm(len(asks))
		out[w] = make([]string, len(asks))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, i := range orders[w] {
				a := asks[i]
				q := Req(a.method, a.path)
				if a.ct != "" {
					q.Header.Set("Content-Type", a.ct)
					q.Body = io.NopCloser(strings.NewReader(a.body))
					q.ContentLength = int64(len(a.body))
				}
				rec := NewRec()
				if p, panicked := try(func() { e.ServeHTTP(rec, q) }); panicked {
					out[w][i] = fmt.Sprint("panic: ", p)
					continue
				}
				out[w][i] = fmt.Sprint(rec.Codes, rec.Body.String())
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Eval()
	c.Count("first_meetings", len(asks))
	for w := range out {
		for i := range asks {
			if out[w][i] != out[0][i] || strings.HasPrefix(out[w][i], "panic") {
				c.Fail("first", "asked at once for %v: %q and %q", asks[i], out[w][i], out[0][i])
				return
			}
		}
	}
	names := map[string]bool{}
	for i := range hf {
		names[out[0][i]] = true
	}
	if len(names) != len(hf) {
		c.Fail("first", "%d handlers have the names %v", len(hf), names)
	}
}

// c38kept is a value a handler got and what it looked like then.
type c38kept struct {
	v    any
	want string
	at   string
}

type c38cfg struct {
	bits uint64
	dir  string
	up   string // for saved uploads: they must not show in listings
}

func (g c38cfg) on(i int) bool { return g.bits>>i&1 == 1 }
func (g c38cfg) of(i, n int) int {
	return int(g.bits >> i % 61 % uint64(n))
}

type c38sub struct {
	A string   `form:"a,default=sub" json:"a"`
	B []string `form:"b" json:"b"`
}

type c38big struct {
	S  string                `form:"s,default=dflt" json:"s" xml:"s"`
	N  int                   `form:"n,default=42" json:"n" xml:"n" binding:"min=-5"`
	F  float64               `form:"f" json:"f" xml:"f"`
	L  []string              `form:"l" json:"l" xml:"l"`
	I  []int                 `form:"i,default=7" json:"i" xml:"i"`
	M  map[string]string     `form:"m" json:"m" xml:"-"`
	P  *int                  `form:"p" json:"p" xml:"p"`
	T  time.Time             `form:"t" json:"t" xml:"-" time_format:"2006-01-02" time_utc:"1"`
	X  c38sub                `form:"x" json:"x" xml:"x"`
	Y  *c38sub               `form:"y" json:"y" xml:"y"`
	E  string                `form:"e" json:"e" xml:"e" binding:"omitempty,email"`
	Fh *multipart.FileHeader `form:"file" json:"-" xml:"-"`
}

// three types of one name
func c38typeA() any {
	type form struct {
		S string    `form:"s,default=A" json:"s" xml:"s"`
		V string    `form:"v" json:"v" xml:"v" binding:"omitempty,max=3"`
		T time.Time `form:"t" json:"t" xml:"-" time_format:"2006-01-02" time_location:"Europe/Berlin"`
	}
	return &form{}
}
func c38typeB() any {
	type form struct {
		S string    `form:"v,default=B" json:"v" xml:"v"`
		V string    `form:"s" json:"s" xml:"s"`
		T time.Time `form:"t" json:"t" xml:"-" time_format:"02.01.2006" time_location:"Asia/Tokyo"`
	}
	return &form{}
}
func c38typeC() any {
	type form struct {
		S []string  `form:"s" json:"s" xml:"s"`
		N int       `form:"n" json:"n" xml:"n" binding:"required"`
		T time.Time `form:"t" json:"t" xml:"-" time_format:"unix"`
	}
	return &form{S: []string{"preset"}}
}

func c38show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unshown " + err.Error()
	}
	if x, ok := v.(*c38big); ok && x.Fh != nil {
		b = append(b, fmt.Sprint(x.Fh.Filename, x.Fh.Size)...)
	}
	return string(b)
}

type c38app struct {
	cfg   c38cfg
	e     *water.Engine
	yield bool
	hold  func() bool // waits until very many requests are in handlers
	mu    sync.Mutex
	kept  []c38kept
	n     atomic.Int64
}

func (a *c38app) pause() {
	if !a.yield {
		return
	}
	n := a.n.Add(1)
	for i := n % 4; i >= 0; i-- {
		runtime.Gosched()
	}
	if n%11 == 0 {
		time.Sleep(time.Duration(n%7) * 20 * time.Microsecond)
	}
}

func (a *c38app) keep(at string, v any) {
	k := c38kept{v, c38show(v), at}
	a.mu.Lock()
	a.kept = append(a.kept, k)
	a.mu.Unlock()
}

func c38build(g c38cfg) *c38app {
	a := &c38app{cfg: g}
	rt := water.NewRouter()
	if g.on(0) {
		rt.Before(func(x *water.Context) {
			x.Set("before", x.Request.URL.Path)
			a.pause()
		})
	}
	if g.on(1) {
		rt.Use(water.Logger())
	}
	rt.Use(water.Recovery())
	if g.on(2) {
		rt.Use(func(x *water.Context) {
			x.SetHeader("X-Mw", fmt.Sprint(g.bits%1000))
			x.Next()
			a.pause()
		})
	}
	dump := func(x *water.Context) {
		var l []string
		for k, v := range x.Params {
			l = append(l, k+"="+v)
		}
		sort.Strings(l)
		full, name, ip, pr := x.FullPath(), x.HandlerName(), x.RealIp(), x.Proxy()
		a.pause()
		b, _ := x.GetMaybe("before")
		x.String(203, fmt.Sprintf("%q %q %q %q %q %q %v %v %v %v", l, x.Params["a"], full, name, ip, pr, x.Written(), x.Status(), b, len(x.Environ)))
	}
	for _, p := range []string{"/s/one", "/s/two", "/s/<a>", "/s/<a>/two", "/s/<a>/<b>", "/r/<a ~ [0-9]+>", "/r/<a,b ~ ([a-z]+)-([a-z]+)>", "/r/<a>", "/w/*", "/w/<a>/*", "/v/*a", "/:a"} {
		rt.GET(p, dump)
		rt.PUT(p, func(x *water.Context) { x.Set("p", x.Params) }, func(x *water.Context) {
			a.pause()
			if x.Params != nil { // they are this request's own
				for k := range x.Params {
					x.Params[k] += "!"
				}
				x.Params["k"] = "own"
				delete(x.Params, "a")
			}
			a.pause()
			a.keep("params", x.Params)
			x.JSON(200, x.Get("p"))
		})
	}
	rt.GET("/hold/<a>", func(x *water.Context) {
		x.Set("a", x.Params["a"])
		if h := a.hold; h != nil && !h() {
			x.String(500, "the others did not come")
			return
		}
		l := len(x.Environ)
		x.String(200, fmt.Sprint(x.Params, x.Get("a"), x.FullPath(), l, x.Query("q"), x.GetHeader("X-Q")))
	})
	rt.POST("/bind", func(x *water.Context) {
		var v any
		switch x.GetHeader("X-Type") {
		case "A":
			v = c38typeA()
		case "B":
			v = c38typeB()
		case "C":
			v = c38typeC()
		default:
			v = &c38big{}
		}
		err := x.Bind(v)
		if x.GetHeader("X-Two") != "" {
			w := c38typeA()
			err = errors.Join(err, x.BindWith(w, binding.Query))
			defer a.keep("second", w)
		}
		a.pause()
		a.keep("bound", v)
		x.String(200, c38show(v)+fmt.Sprint(err))
	})
	rt.POST("/bind2/<s>", func(x *water.Context) {
		var v any = &c38big{}
		switch x.GetHeader("X-Type") {
		case "A":
			v = c38typeA()
		case "B":
			v = c38typeB()
		case "C":
			v = c38typeC()
		}
		var err error
		switch x.GetHeader("X-Source") {
		case "header":
			err = binding.Header.Bind2(x.Request, v)
		case "query":
			err = binding.Query.Bind2(x.Request, v)
		case "uri":
			m := map[string][]string{}
			for k, p := range x.Params {
				m[k] = []string{p}
			}
			err = binding.Uri.Bind2(m, v)
		default:
			err = binding.Form.Bind2(x.Request, v)
		}
		a.pause()
		a.keep("bound2", v)
		x.String(200, c38show(v)+fmt.Sprint(err))
	})
	rt.POST("/query", func(x *water.Context) {
		q, m, l := x.Query("s"), x.QueryMap("m"), x.QueryArray("l")
		a.pause()
		a.keep("query map", m)
		a.keep("query list", l)
		x.String(200, fmt.Sprintf("%q %q %q %d %v %q", q, m, l, x.QueryInt("n"), x.QueryBool("b"), x.DefaultQuery("z", "dz")))
	})
	rt.POST("/upload", func(x *water.Context) {
		f, fh, err := x.FormFile("file")
		if err != nil {
			x.String(400, "no file")
			return
		}
		a.pause()
		b, err := io.ReadAll(f)
		f.Close()
		dst := filepath.Join(g.up, fmt.Sprintf("up-%d", c21n.Add(1)))
		err2 := x.SaveUploadedFile(fh, dst)
		s, _ := os.ReadFile(dst)
		os.Remove(dst)
		x.String(200, fmt.Sprint(fh.Filename, len(b), bytes.Equal(b, s), err, err2, x.Query("s")))
		x.Write(b)
	})
	rt.POST("/raw", func(x *water.Context) {
		b, err := x.BodyBytes()
		a.pause()
		a.keep("raw", b)
		x.Data(200, "x/y", b)
		fmt.Fprint(x, err)
	})
	rt.GET("/cookie", func(x *water.Context) {
		x.SetCookie("c"+x.Query("n"), x.Query("s"), 60, "/p"+x.Query("n"))
		a.pause()
		x.SetCookie("d", x.Query("n"))
		x.String(200, x.Cookie("k")+"|"+x.CookieEscape("k")+fmt.Sprint(x.CookieInt("k")))
	})
	rt.GET("/env", func(x *water.Context) {
		x.Set("k", x.Query("s"))
		x.Environ.Set("n"+x.Query("n"), 1)
		a.pause()
	}, func(x *water.Context) {
		var l []string
		for k := range x.Environ {
			l = append(l, k)
		}
		sort.Strings(l)
		a.keep("store", x.Environ)
		x.String(200, fmt.Sprint(l, x.Get("k")))
	})
	rt.GET("/enc", func(x *water.Context) {
		s := x.Query("s")
		v := map[string]any{"s": strings.Repeat(s+"é<", 50), "n": x.QueryInt("n"), "l": []string{s, s}}
		var err error
		switch x.Query("k") {
		case "json":
			err = x.JSON(200+len(s)%5, v)
		case "xml":
			err = x.XML(200+len(s)%5, c38sub{A: s, B: []string{s, "é"}})
		case "html":
			x.HTMLRaw(200, s)
		case "stream":
			err = x.Stream("t/"+x.Query("n"), io.MultiReader(strings.NewReader(s), strings.NewReader(strings.Repeat(s, 3000))))
		case "badxml": // after a long good start
			err = x.XML(201, c09bad{A: strings.Repeat(s, 5000)})
		case "bad":
			err = x.JSON(201, map[string]any{"s": func() {}})
		case "nocache":
			x.NoCache()
			x.Abort(418)
		default:
			fmt.Fprint(x, s, " ")
			a.pause()
			x.Write([]byte(s))
		}
		if err != nil {
			fmt.Fprint(x, err)
		}
	})
	rt.GET("/panic/<a>", func(x *water.Context) {
		a.pause()
		x.Set("left", 1)
		x.SetHeader("X-Left", x.Param("a"))
		if len(x.Param("a"))%3 == 0 {
			x.WriteHeader(202)
		}
		x.Param("missing" + x.Param("a"))
	})
	rt.GET("/redirect", func(x *water.Context) { x.Found("/to/" + url.PathEscape(x.Query("s"))) })
	rt.GET("/file", func(x *water.Context) { a.pause(); x.File(filepath.Join(g.dir, "f.txt")) })
	rt.GET("/download", func(x *water.Context) {
		if err := x.Download(filepath.Join(g.dir, x.Query("f")), g.on(3)); err != nil {
			x.NotFound()
		}
	})
	rt.GET("/attach", func(x *water.Context) { x.Attachment(x.Query("s"), time.Unix(1e9, 0), strings.NewReader(x.Query("s"))) })
	cc := water.CORSConfig{AllowCredentials: g.on(4)}
	cc.AllowOrigins = [][]string{nil, {"http://a.test"}, {"http://b.test", "http://a.test"}, {"http://c.test", "*"}}[g.of(5, 4)]
	if g.on(7) {
		cc.AllowHeaders, cc.ExposeHeaders, cc.MaxAge = []string{"X-A", "X-B"}, []string{"X-E"}, 77
	}
	cg := rt.Group("/cors")
	cg.Use(water.CORS(cc), func(x *water.Context) {
		if x.GetHeader("Access-Control-Request-Headers") == "" {
			x.Header().Add("Vary", "Accept")
			x.Header().Add("Vary", x.Param("a"))
		}
		a.pause()
	})
	cg.GET("/<a>", dump)
	cg.OPTIONS("/<a>", dump)
	so := &water.StaticOptions{Prefix: "/st", FileSystem: http.Dir(g.dir), ETag: water.ETagType(g.of(8, 3))}
	if g.on(11) {
		so.IndexFile = "home.htm"
	}
	if g.on(12) {
		so.Expires = func() string { return "Thu, 01 Jan 2032 00:00:00 GMT" }
	}
	rt.StaticAdvance(so)
	rt.StaticFile("/single.txt", filepath.Join(g.dir, "f.txt"))
	opts := []water.Option{water.WithMaxMultipartMemory(int64([]int{0, 100, 1 << 20}[g.of(13, 3)]))}
	if g.on(15) {
		opts = append(opts, water.WithStaticRouter(true))
	}
	if g.on(16) {
		opts = append(opts, water.WithNoFoundHandlers(water.Recovery(), func(x *water.Context) {
			x.Set("nf", x.Request.URL.Path)
			a.pause()
			if strings.Contains(x.Request.URL.Path, "pp") {
				panic("nf")
			}
		}, func(x *water.Context) { x.String(404, fmt.Sprint(x.Get("nf"), x.FullPath(), x.Params)) }))
	}
	a.e = rt.Handler(opts...)
	return a
}

type c38req struct {
	kind, method, target, ct string
	hdr                      [][2]string
	body                     []byte
	cut                      bool
	old                      bool
	long                     bool
}

func c38gen(r R) *c38req {
	q := &c38req{method: "GET", kind: pick(r, []string{"route", "route", "route", "params", "bind", "bind", "bind", "bind2", "bind2", "query", "upload", "raw", "cookie", "env", "enc", "enc", "panic", "redirect", "file", "download", "attach", "cors", "preflight", "static", "static", "unmatched", "method", "old"})}
	w := func() string {
		if r.Pct(1) {
			q.long = true
			return strings.Repeat(r.Word(), r.Rng(5, 60))
		}
		return r.Word()
	}
	qs := "?s=" + w() + "&n=" + fmt.Sprint(r.IntN(9)) + "&v=" + w() + r.Str("", "&l=a&l="+w(), "&m[a]="+w()+"&m["+w()+"]=2", "&b=true&z=")
	path := func() string {
		return r.Str("/s/one", "/s/two", "/s/"+w(), "/s/"+w()+"/two", "/s/"+w()+"/"+w(), "/r/123", "/r/"+w()+"-"+w(), "/r/"+w(), "/w/"+w(), "/w/"+w()+"/"+w()+"/"+w(), "/v/"+w()+"/x", "/"+w(), "/s/one/", "/w/a/"+strings.Repeat("long/", 12)+w(), "/s/"+w()+"/two/"+w())
	}
	form := func() string {
		s := "q=1"
		for _, o := range []string{"&s=" + w(), "&n=" + r.Str("7", "-9", "x", "100"), "&v=" + w()} {
			if r.Pct(65) {
				s += o
			}
		}
		for _, o := range []string{"&t=03.02.2020", "&t=12345", "&l=1&l=" + w(), "&i=4&i=5", "&p=3", "&t=2020-02-03", "&t=zz", "&e=a@b.test", "&e=zz", "&f=1.5", "&a=" + w(), "&m[" + w() + "]=1", "&x[a]=" + w(), "&y.a=1", "&b=" + w(), "&z= pad "} {
			if r.Pct(20) {
				s += o
			}
		}
		return s
	}
	body := func() {
		q.method = "POST"
		switch r.IntN(5) {
		case 0, 1:
			q.ct, q.body = "application/x-www-form-urlencoded", []byte(form())
		case 2:
			q.ct = r.Str("application/json", "application/json; charset=utf-8")
			q.body = []byte(`{"s":"` + w() + `"` + r.Str("", `,"n":5`, `,"n":-7`, `,"n":"x"`) + r.Str("", `,"l":["a","`+w()+`"]`) + r.Str("", `,"m":{"`+w()+`":"1"}`) + r.Str("", `,"y":{"a":"`+w()+`"}`, `,"y":null`) + r.Str("", `,"v":"`+w()+`"`) + r.Str("}", "}", "}", ""))
		case 3:
			q.ct, q.body = "application/xml", []byte("<d><s>"+w()+"</s><n>"+r.Str("3", "x")+"</n><l>a</l><l>"+w()+"</l><v>"+w()+"</v></d>")
		default:
			var b bytes.Buffer
			m := multipart.NewWriter(&b)
			m.SetBoundary("bound" + w())
			v, _ := url.ParseQuery(form())
			var ks []string
			for k := range v {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				for _, s := range v[k] {
					m.WriteField(k, s)
				}
			}
			if r.Pct(70) {
				p, _ := m.CreateFormFile("file", w()+".txt")
				p.Write(r.Bytes(r.IntN(600)))
			}
			m.Close()
			q.ct, q.body = m.FormDataContentType(), b.Bytes()
		}
		q.cut = r.Pct(8)
	}
	h := func(k, v string) { q.hdr = append(q.hdr, [2]string{k, v}) }
	switch q.kind {
	case "route":
		q.target = path() + r.Str("", qs)
		if r.Pct(30) {
			h("X-Forwarded-For", "10.0.0."+fmt.Sprint(r.IntN(99))+", 10.1.1.1")
		}
	case "params":
		q.method, q.target = "PUT", path()
	case "bind":
		q.target = "/bind" + qs
		body()
		if t := r.Str("", "", "A", "B", "C"); t != "" {
			h("X-Type", t)
		}
		if r.Pct(20) {
			h("X-Two", "1")
		}
	case "bind2":
		q.target = "/bind2/" + w() + qs
		body()
		if s := r.Str("", "header", "query", "uri"); s != "" {
			h("X-Source", s)
		}
		if r.Pct(30) {
			h("X-Type", "B")
		}
		h("S", w())
		h("N", r.Str("4", "x"))
		h("L", w())
		h("L", "two")
	case "query":
		q.target = "/query" + qs
		body()
	case "upload":
		for q.target = "/upload" + qs; !strings.HasPrefix(q.ct, "multi"); {
			body()
		}
	case "raw":
		q.target, q.method, q.ct, q.body = "/raw", "POST", r.Str("text/plain", "application/json"), r.Bytes(r.IntN(3000))
		q.cut = r.Pct(10)
	case "cookie":
		q.target = "/cookie" + qs
		h("Cookie", "k="+r.Str("5", w())+"; other=x")
	case "enc":
		q.target = "/enc" + qs + "&k=" + r.Str("json", "json", "xml", "html", "stream", "bad", "badxml", "nocache", "")
	case "panic":
		q.target = "/panic/" + w()
	case "download":
		q.target = "/download?f=" + r.Str("f.txt", "sub/home.htm", "sub", "none")
	case "cors", "preflight":
		q.target = "/cors/" + w()
		if q.kind == "preflight" {
			q.method = "OPTIONS"
			h("Access-Control-Request-Headers", "X-"+w())
		}
		if r.Pct(85) {
			h("Origin", r.Str("http://a.test", "http://b.test", "http://c.test", "http://"+w()+".test"))
		}
	case "static":
		q.target = r.Str("/st/f.txt", "/st/sub/home.htm", "/st/sub/", "/st/sub", "/st/", "/st/none", "/single.txt", "/st/g.bin", "/st/data", "/st/data")
		if r.Pct(30) {
			h("Range", "bytes=1-3")
		}
		if r.Pct(20) {
			h("If-None-Match", `"x"`)
		}
		if r.Pct(20) {
			q.method = "HEAD"
		}
	case "unmatched":
		q.target = "/" + w() + r.Str("", "pp") + "/" + w() + "/" + w()
	case "method":
		q.method, q.target = r.Str("DELETE", "PATCH", "HEAD", "BREW", "OPTIONS", "get"), path()
	case "old":
		q.target, q.old = path(), true
	default: // env, redirect, file, attach
		q.target = "/" + q.kind + qs
	}
	return q
}

func (q *c38req) String() string {
	return fmt.Sprintf("%s %s %s %v body %.300q cut %v", q.method, q.target, q.ct, q.hdr, q.body, q.cut)
}

type c38reader struct {
	b   []byte
	cut bool
	a   *c38app
}

func (b *c38reader) Read(p []byte) (int, error) {
	if len(b.b) == 0 {
		if b.cut {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(p, b.b[:(len(b.b)+1)/2])
	b.b = b.b[n:]
	b.a.pause()
	return n, nil
}
func (b *c38reader) Close() error { return nil }

// serve gives everything observable of the answer.
func (a *c38app) serve(s *c38req) (out string) {
	u, err := url.ParseRequestURI(s.target)
	if err != nil {
		panic("harness: " + err.Error())
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	q := &http.Request{Method: s.method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "h.test", RequestURI: s.target, RemoteAddr: "192.0.2.9:1", Body: http.NoBody}
	if s.old {
		q.Proto, q.ProtoMinor = "HTTP/1.0", 0
	}
	if s.body != nil {
		b := s.body
		q.ContentLength = int64(len(b))
		if s.cut {
			b = b[:len(b)*2/3]
		}
		q.Body = &c38reader{append([]byte(nil), b...), s.cut, a}
	}
	if s.ct != "" {
		q.Header.Set("Content-Type", s.ct)
	}
	for _, e := range s.hdr {
		q.Header.Add(e[0], e[1])
	}
	q = q.WithContext(ctx)
	w := NewRec()
	p, panicked := try(func() { a.e.ServeHTTP(w, q) })
	if q.MultipartForm != nil {
		q.MultipartForm.RemoveAll()
	}
	if panicked {
		out = fmt.Sprintf("PANIC %v ", p)
	}
	if w.Head == nil {
		w.Head = w.H
	}
	return out + fmt.Sprintf("%v %v %q", w.Codes, w.Head, w.Body.String())
}

// c38fresh is a request for a process of its own, which has served nothing before.
type c38fresh struct {
	Bits                     uint64
	Dir, Up                  string
	Kind, Method, Target, CT string
	Hdr                      [][2]string
	Body                     []byte
	Cut, Old                 bool
}

func c38freshMain(file string) {
	water.Status = water.Stable
	b, err := os.ReadFile(file)
	must(err)
	var l []c38fresh
	must(json.Unmarshal(b, &l))
	var got []string
	for _, f := range l {
		a := c38build(c38cfg{f.Bits, f.Dir, f.Up})
		got = append(got, fmt.Sprintf("%q", a.serve(&c38req{kind: f.Kind, method: f.Method, target: f.Target, ct: f.CT, hdr: f.Hdr, body: f.Body, cut: f.Cut, old: f.Old})))
	}
	must(os.WriteFile(file+".out", []byte(strings.Join(got, "\n")), 0o600))
}

func c38alone(c *C, l []c38fresh) []string {
	b, err := json.Marshal(l)
	must(err)
	f, err := os.CreateTemp(c.Dir, "fresh")
	must(err)
	f.Close()
	defer os.Remove(f.Name())
	defer os.Remove(f.Name() + ".out")
	mustWrite(f.Name(), b)
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "WV_FRESH="+f.Name())
	if out, err := cmd.CombinedOutput(); err != nil {
		return []string{fmt.Sprintf("the process ended with %v: %.2000s", err, out)}
	}
	b, err = os.ReadFile(f.Name() + ".out")
	must(err)
	return strings.Split(string(b), "\n")
}

func c38(c *C) {
	r := c.R
	dir := filepath.Join(c.Dir, fmt.Sprintf("c38-%d", c.N))
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0o700))
	defer os.RemoveAll(dir)
	mt := time.Unix(1700000000, 0)
	for n, b := range map[string][]byte{"f.txt": []byte("file f of " + r.Word()), "g.bin": r.Bytes(700), "data": []byte("plain words of " + r.Word()), "sub/home.htm": []byte("<p>home")} {
		mustWrite(filepath.Join(dir, n), b)
		must(os.Chtimes(filepath.Join(dir, n), mt, mt))
	}
	must(os.Chtimes(filepath.Join(dir, "sub"), mt, mt))
	must(os.Chtimes(dir, mt, mt))
	up := filepath.Join(c.Dir, fmt.Sprintf("c38-%d-up", c.N))
	must(os.MkdirAll(up, 0o700))
	defer os.RemoveAll(up)
	cfgs := []c38cfg{{r.Uint64() >> 1, dir, up}, {r.Uint64() >> 1, dir, up}}
	if r.Pct(60) { // files of the same names, with other things in them
		dir2 := dir + "-b"
		must(os.MkdirAll(filepath.Join(dir2, "sub"), 0o700))
		defer os.RemoveAll(dir2)
		mt2 := pick(r, []time.Time{mt, time.Unix(1600000000, 0)})
		for n, b := range map[string][]byte{"f.txt": []byte("file f of " + r.Word()), "data": []byte("<!DOCTYPE html><p>" + r.Word()), "sub/home.htm": []byte("<p>house")} {
			mustWrite(filepath.Join(dir2, n), b)
			must(os.Chtimes(filepath.Join(dir2, n), mt2, mt2))
		}
		must(os.Chtimes(filepath.Join(dir2, "sub"), mt, mt))
		must(os.Chtimes(dir2, mt, mt))
		cfgs[1].dir = dir2
		c.Count("two_directories", 1)
	}
	n := r.Rng(20, 60)
	reqs := make([]*c38req, n)
	for i := range reqs {
		reqs[i] = c38gen(r)
		if i > 0 && r.Pct(15) { // the same but for one thing
			o := *reqs[r.IntN(i)]
			if r.Pct(50) {
				o.hdr = append(o.hdr[:len(o.hdr):len(o.hdr)], [2]string{"X-Other", r.Word()})
			} else {
				o.target = strings.Replace(o.target, "s=", "s=other", 1)
			}
			reqs[i] = &o
		}
	}
	want := [2][]string{make([]string, n), make([]string, n)}
	type job struct{ k, i int }
	apps := [2]*c38app{c38build(cfgs[0]), c38build(cfgs[1])}
	shared := func(workers int, verdict func(j int, jobs []job, got string)) {
		var jobs []job
		for rep := 0; rep < 2; rep++ {
			for k := range apps {
				for i := range reqs {
					jobs = append(jobs, job{k, i})
				}
			}
		}
		r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		for _, a := range apps {
			a.yield = workers > 1
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					j := int(next.Add(1)) - 1
					if j >= len(jobs) || c.Failed() {
						return
					}
					got := apps[jobs[j].k].serve(reqs[jobs[j].i])
					c.Eval()
					c.Count("shared", 1)
					verdict(j, jobs, got)
				}
			}()
		}
		wg.Wait()
	}
	judge := func(workers, j int, jobs []job, got string) {
		k, i := jobs[j].k, jobs[j].i
		if got != want[k][i] {
			var before []string
			for b := max(0, j-3); b < j; b++ {
				before = append(before, reqs[jobs[b].i].String())
			}
			c.Fail("differs", "with %d at a time, request %d of the run is answered differently than by an engine made for it alone\n%s\nalone:  %.1500s\nshared: %.1500s\nbefore it: %.900q", workers, j, reqs[i], want[k][i], got, before)
		}
	}
	// a cold start: the first requests these engines, and perhaps this process, get come all at once
	var cold []func()
	if c.N < 16 || r.Pct(30) {
		var mu sync.Mutex
		shared(16, func(j int, jobs []job, got string) {
			mu.Lock()
			cold = append(cold, func() { judge(16, j, jobs, got) })
			mu.Unlock()
		})
		c.Count("cold_starts", 1)
	}
	for k := range cfgs {
		for i, q := range reqs {
			a := c38build(cfgs[k])
			want[k][i] = a.serve(q)
			c38check(c, a, "alone")
			c.Count("alone", 1)
			switch q.kind {
			case "panic":
				c.Count("panicked", 1)
			case "unmatched", "static", "cors", "preflight", "env":
				c.Count(q.kind, 1)
			case "bind":
				c.Count("bound", 1)
				if !strings.HasSuffix(want[k][i], `<nil>"`) {
					c.Count("refused", 1)
				}
			case "bind2":
				c.Count("bound2", 1)
			case "upload", "cookie", "download", "redirect":
				c.Count(q.kind+"s", 1)
			case "query":
				c.Count("queries", 1)
			case "route", "params":
				c.Count("params", 1)
			case "enc":
				c.Count("encoded", 1)
			}
			if q.long {
				c.Count("long_words", 1)
			}
			if q.cut {
				c.Count("cut_bodies", 1)
			}
		}
	}
	c.Seen(cfgs[0].bits, cfgs[1].bits, reqs)
	c.Sample(func() any { return []string{reqs[0].String(), want[0][0]} })
	for _, f := range cold {
		if !c.Failed() {
			f()
		}
	}
	rounds := 3
	for round := 0; round < rounds && !c.Failed(); round++ {
		workers := 1
		if round > 0 {
			workers = pick(r, []int{2, 4, 8, 16})
			c.Count("concurrent_runs", 1)
		} else {
			c.Count("sequential_runs", 1)
		}
		shared(workers, func(j int, jobs []job, got string) { judge(workers, j, jobs, got) })
	}
	for _, a := range apps {
		c38check(c, a, "shared")
	}
	if !c.Failed() { // in a process that has served nothing before, one after the other, in another order
		var l []c38fresh
		var of []job
		for n := pick(r, []int{1, 8, 20}); n > 0; n-- {
			k, i := r.IntN(2), r.IntN(len(reqs))
			q := reqs[i]
			of = append(of, job{k, i})
			l = append(l, c38fresh{cfgs[k].bits, cfgs[k].dir, cfgs[k].up, q.kind, q.method, q.target, q.ct, q.hdr, q.body, q.cut, q.old})
		}
		for n, got := range c38alone(c, l) {
			k, i := of[n].k, of[n].i
			c.Count("own_process", 1)
			if here := fmt.Sprintf("%q", want[k][i]); got != here {
				c.Fail("fresh", "in this process, which has served other requests, a request is answered differently than by another process, where it is number %d\n%s\nthere: %.1500s\nhere:  %.1500s", n+1, reqs[i], got, here)
				break
			}
		}
	}
	if r.Pct(40) && !c.Failed() {
		c38first(c, c.N+1)
	}
	if r.OneIn(8) && !c.Failed() {
		n := r.Tail(100, 500, 2500)
		var arrived atomic.Int64
		all := make(chan struct{})
		bad := make([]string, n)
		a := apps[0]
		alone := make([]string, n)
		mk := func(i int) *c38req {
			w := fmt.Sprintf("w%d", i)
			return &c38req{kind: "hold", method: "GET", target: "/hold/" + w + "?q=q" + w, hdr: [][2]string{{"X-Q", "h" + w}}}
		}
		for i := range alone {
			alone[i] = a.serve(mk(i))
		}
		a.hold = func() bool {
			if arrived.Add(1) == int64(n) {
				close(all)
			}
			return awaited(all)
		}
		var wg sync.WaitGroup
		for i := range bad {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if got := a.serve(mk(i)); got != alone[i] {
					bad[i] = fmt.Sprintf("with %d requests in handlers at once %s is answered differently than alone\nalone:  %.1500s\nshared: %.1500s", n, mk(i), alone[i], got)
				}
			}()
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				c.Fail("crowd", "%s", b)
				return
			}
		}
		c.Count("crowds", 1)
	}
}

// c38check looks again at what handlers kept.
func c38check(c *C, a *c38app, where string) {
	for _, k := range a.kept {
		if s := c38show(k.v); s != k.want {
			c.Fail("kept", "%s: a value a handler kept (%s) has changed since: was %.500s, is %.500s", where, k.at, k.want, s)
			return
		}
	}
	c.Count("kept_values", len(a.kept))
}
