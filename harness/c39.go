package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

func init() {
	register(&Prop{ID: "C39", Quick: 60000, Thor: 1000000,
		Rule:   "a case is up to eight requests on one connection (or one built by hand and given to the engine in process) whose method, target, headers and body come from a grammar of ordinary and hostile pieces (percent escapes, control bytes, dots, very long or empty parts, malformed lists, quotes, look-alike types, broken forms and documents, ranges, cookies), some mutated byte by byte. A monitor around the chain records every panic that is not the documented one for unreadable forms; the client checks that it gets one well-formed answer per request, in order, with none of the headers it tried to smuggle in, and that a plain request afterwards is served. Non-trivial: requests that reached the engine with a hostile piece; distinct by request text.",
		Need:   []string{"wire", "in_process", "reached", "refused_by_net_http", "pipelined", "mutated", "documented_panics", "plain_after", "files", "bound", "not_found", "long", "control_bytes", "chunked", "scant_bodies"},
		Before: c39before, Case: c39})
}

type c39state struct {
	e   []*water.Engine
	s   []*Server
	mu  sync.Mutex
	bad []string
}

var c39st *c39state

type c39form struct {
	S string            `form:"s" json:"s" xml:"s"`
	N int               `form:"n" json:"n" xml:"n"`
	L []string          `form:"l" json:"l" xml:"l"`
	M map[string]string `form:"m" json:"m" xml:"-"`
	P *struct {
		A []int `form:"a" json:"a" xml:"a"`
	} `form:"p" json:"p" xml:"p"`
	T time.Time               `form:"t" json:"t" xml:"-"`
	F *multipart.FileHeader   `form:"f" json:"-" xml:"-"`
	G []*multipart.FileHeader `form:"g" json:"-" xml:"-"`
}

var c39ops = map[string]func(x *water.Context){
	"query": func(x *water.Context) {
		x.String(200, fmt.Sprint(x.Query("s"), x.QueryArray("l"), x.QueryMap("m"), x.DefaultQuery("z", "d"), x.QueryInt("n"), x.QueryInt64("n"), x.QueryUint("n"), x.QueryUint64("n"), x.QueryFloat64("n"), x.QueryBool("n")))
	},
	"default": func(x *water.Context) {
		x.String(200, fmt.Sprint(x.DefaultQueryArray("l", nil), x.DefaultQueryMap("m", nil), x.DefaultQuery("s", ""), x.DefaultQueryInt("n", "x"), x.DefaultQueryInt64("n", ""), x.DefaultQueryUint("n", "-1"), x.DefaultQueryUint64("n", "1"), x.DefaultQueryFloat64("n", "1e999"), x.DefaultQueryBool("n", "yes")))
	},
	"facts": func(x *water.Context) {
		x.String(200, fmt.Sprint(x.RealIp(), x.Proxy(), x.Protocol(), x.ContentType(), x.UserAgent(), x.IsAjax(), x.IsWebsocket(), x.FullPath(), x.HandlerName(), x.GetHeader("X-Any")))
	},
	"cookie": func(x *water.Context) {
		x.SetCookie(x.Cookie("k"), x.CookieEscape("s"), x.CookieInt("n"), x.Cookie("p"), x.Cookie("d"))
		x.SetCookie("c"+x.Cookie("n"), x.GetHeader("X-Any"))
		x.String(200, fmt.Sprint(x.CookieBool("k"), x.CookieInt64("k"), x.CookieUint("k"), x.CookieUint64("k"), x.CookieFloat64("k")))
	},
	"bind": func(x *water.Context) {
		v := &c39form{}
		x.JSON(200, water.H{"err": fmt.Sprint(x.Bind(v)), "v": v.S})
	},
	"bindmap": func(x *water.Context) {
		m := map[string]string{}
		x.JSON(200, water.H{"err": fmt.Sprint(x.Bind(&m)), "v": m})
	},
	"bind2": func(x *water.Context) {
		v := &c39form{}
		x.String(200, fmt.Sprint(binding.Form.Bind2(x.Request, v), binding.Query.Bind2(x.Request, v), binding.Header.Bind2(x.Request, v)))
	},
	"bindmulti": func(x *water.Context) {
		v := &c39form{}
		x.String(200, fmt.Sprint(x.BindWith(v, binding.FormMultipart)))
	},
	"header": func(x *water.Context) {
		v := &c39form{}
		x.String(200, fmt.Sprint(x.BindWith(v, binding.Query), x.BindWith(v, binding.XML), x.BindWith(v, binding.JSON)))
	},
	"upload": func(x *water.Context) {
		f, fh, err := x.FormFile("f")
		if err != nil {
			x.String(400, err.Error())
			return
		}
		f.Close()
		x.Attachment(fh.Filename, time.Time{}, strings.NewReader(fh.Filename))
	},
	"raw": func(x *water.Context) {
		b, err := x.BodyBytes()
		x.Data(200, "x/y", b)
		_ = err
	},
	"redirect": func(x *water.Context) { x.Found(x.GetHeader("X-Any")) },
	"moved":    func(x *water.Context) { x.MovedPermanently(x.Request.URL.RawQuery) },
	"attach": func(x *water.Context) {
		u, _ := url.QueryUnescape(x.Request.URL.RawQuery)
		x.Attachment(u, time.Time{}, strings.NewReader(u))
	},
	"setheader": func(x *water.Context) {
		u, _ := url.QueryUnescape(x.Request.URL.RawQuery)
		x.SetHeader("X-Given", strings.Map(func(r rune) rune {
			if r < 32 && r != '\r' && r != '\n' || r == 127 { // net/http sends these as they are
				return '?'
			}
			return r
		}, u))
		x.XML(200, c38sub{A: x.GetHeader("X-Any")})
	},
	"nothing": func(x *water.Context) {},
}

func c39before(e *Env) {
	dir := filepath.Join(e.Dir, "c39")
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0o700))
	mustWrite(filepath.Join(dir, "f.txt"), []byte("file"))
	mustWrite(filepath.Join(dir, "sub", "home.htm"), []byte("home"))
	st := &c39state{}
	c39st = st
	for k := 0; k < 3; k++ {
		rt := water.NewRouter()
		rt.Before(water.Recovery()) // what it cannot contain reaches net/http
		rt.Before(func(x *water.Context) {
			x.SetHeader("X-Reached", x.GetHeader("X-Tok"))
			defer func() {
				p := recover()
				if p == nil {
					return
				}
				if err, ok := p.(error); ok && (strings.HasPrefix(err.Error(), "parseForm error") || strings.HasPrefix(err.Error(), "parseMultipartForm error")) {
					e.Count("documented_panics", 1)
				} else {
					st.mu.Lock()
					st.bad = append(st.bad, fmt.Sprintf("panic %v serving %s %.300q\n%s", p, x.Request.Method, x.Request.RequestURI, head(string(debug.Stack()), 2500)))
					st.mu.Unlock()
				}
				panic(p)
			}()
			x.Next()
		})
		if k == 1 {
			rt.Before(water.Logger())
		}
		if k == 2 {
			rt.Before(water.CORS(water.CORSConfig{AllowOrigins: []string{"http://a.test"}}))
		}
		pr := func(x *water.Context) {
			s := ""
			for n := range x.Params {
				s += x.Param(n) + "|"
				x.Params.Int(n)
				x.Params.MustFloat64(n)
			}
			x.String(200, s)
		}
		for _, p := range []string{"/", "/p/<a>", "/p/<a>/<b>", "/r/<n ~ ^([0-9]+)$>", "/r/<a,b ~ (.+)-(.+)>", "/w/*", "/v/*x", "/g/*/<y>", "/:lone", "/lit/é", "/lit/a b"} {
			for _, m := range methods[:7] {
				addRoute(rt, m, p, []interface{}{pr})
			}
		}
		for n, f := range c39ops {
			for _, m := range methods[:7] {
				addRoute(rt, m, "/do/"+n, []interface{}{f})
			}
		}
		o := &water.StaticOptions{Prefix: "/st", FileSystem: http.Dir(dir), ETag: water.ETagType(k)}
		if k == 1 {
			o.IndexFile = "home.htm"
		}
		rt.StaticAdvance(o)
		rt.StaticFile("/file", filepath.Join(dir, "f.txt"))
		opts := []water.Option{water.WithStaticRouter(k == 1), water.WithMaxMultipartMemory(1 << 10)}
		if k > 0 {
			opts = append(opts, water.WithNoFoundHandlers(func(x *water.Context) { x.NotFound() }))
		}
		en := rt.Handler(opts...)
		st.e = append(st.e, en)
		st.s = append(st.s, Listen(en))
	}
}

var c39known = map[string]bool{"X-Reached": true, "Content-Type": true, "Content-Length": true, "Date": true, "Vary": true, "Location": true, "Set-Cookie": true, "Content-Disposition": true, "X-Given": true, "Etag": true, "Last-Modified": true, "Accept-Ranges": true, "Content-Range": true, "Transfer-Encoding": true, "Connection": true, "X-Content-Type-Options": true,
	"Access-Control-Allow-Origin": true, "Access-Control-Allow-Methods": true, "Access-Control-Allow-Headers": true}

var c39pieces = []string{"", "a", "é", "%C3%A9", "%", "%zz", "%00", "%0d%0aInjected:%201", "%0AInjected%3A1", "..", ".", "%2e%2e", "%2f", "/", "//", "\\", "%5c", ";", "&", "=", "+", "%2B", "?", "#", "*", "<a>", ":x", "<", ">", "~", "[", "]", "a[b]", "a[b", "]a[", "m[k]", "0", "-1", "99999999999999999999", "1e400", "NaN", "0x1F", "true", "\"", "'", "`", "$(x)", "{{.}}", "%F0%9F%98%80", "%FF%FE", "\xff", "\xc3", "ＡＢ", "‮", "http://evil.test/", "javascript:1", "f.txt", "sub", "home.htm", "index.html", "C:", "con", "a-b", "12", "-", "a,b", ",", ", ,", " ", "%20", "\t"}

func (c *C) c39text(n int) string {
	r := c.R
	s := ""
	for ; n > 0; n-- {
		if r.Pct(75) {
			s += pick(r, c39pieces)
		} else {
			s += r.Word()
		}
	}
	switch {
	case r.Pct(3):
		s = strings.Repeat(s+"x", r.Rng(1, 3000)/(len(s)+1)+1)
		c.Count("long", 1)
	case r.Pct(1):
		s = strings.Repeat(pick(r, []string{"/", "a/", "../", "%2f", ",", "a,", "[", "a[", "&", ";", "%"}), r.Rng(100, 3000))
		c.Count("long", 1)
	}
	return s
}

func (c *C) c39target() string {
	r := c.R
	t := r.Str("/p/", "/p/", "/r/", "/w/", "/v/", "/g/x/", "/", "/st/", "/st/", "/st", "/file", "/lit/", "/do/", "//", "") + ""
	if r.Pct(7) { // what is there, to be asked for in odd ways
		t = r.Str("/st/f.txt", "/st/f.txt", "/st/sub/", "/st/sub/home.htm", "/st/", "/file")
	} else if r.Pct(50) {
		t = "/do/" + pick(r, []string{"query", "query", "default", "facts", "cookie", "bind", "bindmap", "bind2", "bindmulti", "header", "upload", "raw", "redirect", "moved", "attach", "setheader", "nothing"})
	} else {
		t += c.c39text(r.IntN(4))
		for r.Pct(30) {
			t += "/" + c.c39text(r.IntN(2))
		}
	}
	if r.Pct(60) {
		t += "?"
		for n := r.IntN(5); n >= 0; n-- {
			t += pick(r, []string{"s", "n", "l", "m[a]", "m[", "m[]", "m[" + c.c39text(1) + "]", "m]", "z", "", "p.a", "p[a]", "t", "f", c.c39text(1)}) + r.Str("=", "=", "=", "") + c.c39text(r.IntN(3)) + r.Str("&", "&", "&", ";", "")
		}
	}
	if r.Pct(2) {
		t = pick(r, []string{"*", "http://other.test", "http://other.test/p/a", "other.test:80", "/", "?", "#", "http://", "/\x00", "/%", ""})
	}
	return t
}

// c39request makes one request text; ok says that its framing is sound.
func (c *C) c39request(tok string, last bool) (raw []byte, method string, ok bool) {
	r := c.R
	ok = true
	method = pick(r, []string{"GET", "GET", "GET", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"})
	if r.Pct(3) {
		method = pick(r, []string{"get", "TRACE", "CONNECT", "BREW", "G\x00T", "GETS", "*", "PRI", "A!#$%&'*+-.^_`|~9"})
	}
	var b bytes.Buffer
	clean := func(s string) string { // keep the head's own framing
		return strings.NewReplacer("\r", "", "\n", "").Replace(s)
	}
	target := strings.NewReplacer(" ", "%20", "\t", "%09").Replace(clean(c.c39target()))
	proto := "HTTP/1.1"
	if r.Pct(2) {
		proto = pick(r, []string{"HTTP/1.0", "HTTP/2.0", "HTTP/1.2", "HTTP/0.9", "http/1.1", "HTTP/1.1 "})
	}
	fmt.Fprintf(&b, "%s %s %s\r\n", method, target, proto)
	fmt.Fprintf(&b, "Host: %s\r\nX-Tok: %s\r\n", r.Str("h.test", "h.test", "h.test:80", "[::1]:80", ""), tok)
	for n := r.Tail(0, 5, 900); n > 0; n-- {
		h := pick(r, []string{"X-Forwarded-For", "X-Real-Ip", "X-Forwarded-Proto", "Cookie", "Cookie", "Origin", "Range", "If-None-Match", "If-Modified-Since", "If-Range", "Upgrade", "User-Agent", "X-Requested-With", "Trace-ID", "X-Any", "X-Any", "Accept", "Access-Control-Request-Headers", "Access-Control-Request-Method", "S", "N", "L", "Authorization", "Expect"})
		v := c.c39text(r.IntN(3))
		switch h {
		case "Cookie":
			v = "k=" + c.c39text(1) + "; s=" + c.c39text(1) + r.Str("; n=5", ";;", ";", "; p=/x; d=h.test", "")
		case "Range":
			v = r.Str("bytes=0-1", "bytes=", "bytes=-1", "bytes=5-1", "bytes=0-0,1-1,2-2", "bytes=99999999999999999999-", "chars=1", v)
		case "Trace-ID":
			v = r.Str(v, c.c39text(r.Rng(3, 12)), r.From("abcdef0123456789", r.Rng(1, 80)), "4bf92f3577b34da6-a3ce929d0e0e4736-1")
		case "Expect":
			v = r.Str("100-continue", "x")
		case "If-None-Match", "If-Range":
			v = r.Str("*", `"`, `""`, `W/"`, `W/`, `W`, `w/"x"`, `W/""`, `,`, `"x"`, `W/"x",`, v)
		}
		if h == "X-Any" || n > 6 && r.Pct(70) {
			h = "X-Any" + fmt.Sprint(n)
		}
		fmt.Fprintf(&b, "%s: %s\r\n", h, clean(v))
	}
	var body []byte
	ct := ""
	if method != "GET" && method != "HEAD" || r.Pct(10) {
		switch r.IntN(6) {
		case 0:
			ct = "application/x-www-form-urlencoded"
			for n := r.IntN(5); n > 0; n-- {
				body = append(body, pick(r, []string{"s", "n", "l", "m[a]", "m[]", "m[" + c.c39text(1) + "]", "p.a", "t", "f", ""})+"="+c.c39text(r.IntN(3))+"&"...)
			}
		case 1:
			ct = "application/json"
			body = []byte(pick(r, []string{`{"s":"x"}`, `{"n":1e999}`, `{"l":[null,"a"]}`, `{"p":{"a":[1,2]}}`, `{"m":{"":""}}`, "null", "[]", `"`, "{", strings.Repeat("[", 20000), strings.Repeat(`{"p":`, 5000), `{"s":"\ud800"}`, `{"t":"x"}`, "\xef\xbb\xbf{}"}))
		case 2:
			ct = r.Str("application/xml", "text/xml")
			body = []byte(pick(r, []string{"<a><s>x</s></a>", "<a>", "", "<?xml version='1.0' encoding='x'?><a/>", "<!DOCTYPE a [<!ENTITY x 'y'>]><a>&x;</a>", strings.Repeat("<a>", 3000), "<a><n>x</n></a>", "<a><p><a>1</a></p></a>", "]]>"}))
		case 3:
			bd := r.Str("b", "b", "", "a b", strings.Repeat("x", 71))
			ct = "multipart/form-data" + r.Str("; boundary="+bd, "; boundary=\""+bd+"\"", ";boundary=b", "", "; boundary", ";")
			for n := r.IntN(4); n > 0; n-- {
				body = append(body, "--b\r\nContent-Disposition: form-data; name="+r.Str("s", "\"f\"", "\"f\"; filename=\""+clean(c.c39text(1))+"\"", "\"g\"; filename=\"x\"", "\"", "n; filename*=UTF-8''%zz")+"\r\n"+r.Str("", "", "Content-Type: text/plain\r\n", "Content-Transfer-Encoding: quoted-printable\r\n", "x\r\n")+"\r\n"+c.c39text(r.IntN(4))+r.Str("\r\n", "\r\n", "")...)
			}
			body = append(body, r.Str("--b--\r\n", "--b--", "--b", "")...)
		case 4:
			ct, body = c.c39text(2), []byte(c.c39text(3))
		default:
			ct, body = r.Str("application/json", "multipart/form-data; boundary=b", "application/x-www-form-urlencoded", "text/plain"), r.Bytes(r.IntN(50))
		}
		if r.Pct(10) {
			body = append(body, r.Bytes(r.IntN(3000))...)
		}
		if r.Pct(10) {
			body = []byte(r.Str("", "\n", " ", "\r\n\r\n", "\x00", "\n\n", "&", "=", "0", "--", ";"))
			c.Count("scant_bodies", 1)
		}
		fmt.Fprintf(&b, "Content-Type: %s\r\n", clean(ct))
		if last {
			b.WriteString("Connection: close\r\n")
		}
		if r.Pct(20) {
			c.Count("chunked", 1)
			b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
			for rest := body; len(rest) > 0; {
				n := r.Rng(1, len(rest))
				fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
				rest = rest[n:]
			}
			b.WriteString("0\r\n\r\n")
		} else {
			fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
			b.Write(body)
		}
	} else {
		if last {
			b.WriteString("Connection: close\r\n")
		}
		b.WriteString("\r\n")
	}
	raw = b.Bytes()
	if last && r.Pct(12) { // any byte may change
		c.Count("mutated", 1)
		ok = false
		for n := r.Rng(1, 4); n > 0; n-- {
			i := r.IntN(len(raw))
			switch r.IntN(3) {
			case 0:
				raw[i] = byte(r.IntN(256))
			case 1:
				raw = append(raw[:i:i], append([]byte{byte(r.IntN(256))}, raw[i:]...)...)
			default:
				raw = append(raw[:i:i], raw[i+1:]...)
			}
		}
	}
	if bytes.ContainsAny(raw, "\x00\x01\x02\x07\x1f\x7f") {
		c.Count("control_bytes", 1)
	}
	return
}

func (c *C) c39bad(detail string) {
	c39st.mu.Lock()
	l := c39st.bad
	c39st.bad = nil
	c39st.mu.Unlock()
	for _, s := range l {
		c.Fail("panic", "a panic no handler asked for (perhaps of a neighbouring case)\n%s\n%.2500s", s, detail)
	}
}

func c39(c *C) {
	r := c.R
	k := r.IntN(3)
	if r.Pct(25) {
		c39inProcess(c, c39st.e[k])
		return
	}
	c.Count("wire", 1)
	s := c39st.s[k]
	n := 1
	if r.Pct(40) {
		n = r.Rng(2, 8)
		c.Count("pipelined", 1)
	}
	var all []byte
	var ms []string
	var sound []bool
	for i := 0; i < n; i++ {
		raw, m, ok := c.c39request(fmt.Sprintf("%d-%d", c.N, i), i == n-1)
		all, ms, sound = append(all, raw...), append(ms, m), append(sound, ok)
	}
	fail := func(sig, format string, a ...any) {
		c.Fail(sig, "%s\nengine %d, %d requests:\n%.1800q", fmt.Sprintf(format, a...), k, n, all)
	}
	conn := s.Dial()
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	go func() {
		conn.Write(all)
		if !sound[n-1] {
			conn.(*net.UnixConn).CloseWrite()
		}
	}()
	br := bufio.NewReader(conn)
	reached := 0
	for i := 0; i < n; i++ {
		resp, err := http.ReadResponse(br, &http.Request{Method: ms[i]})
		for err == nil && resp.StatusCode == 100 {
			resp, err = http.ReadResponse(br, &http.Request{Method: ms[i]})
		}
		c.Eval()
		if err != nil {
			if to, ok := err.(net.Error); ok && to.Timeout() {
				fail("stuck", "no answer to request %d within a minute", i)
			} else if sound[i] {
				fail("answer", "request %d: no well-formed answer: %v", i, err)
			}
			break
		}
		b, err := io.ReadAll(resp.Body)
		tok := resp.Header.Get("X-Reached")
		if !sound[i] && (resp.StatusCode == 400 || tok == "") {
			break
		}
		if err != nil && (resp.Close || tok == "" && resp.StatusCode >= 400) {
			c.Count("refused_by_net_http", 1) // and the connection reset over what it did not read
			break
		}
		if err != nil {
			fail("answer", "request %d: body cut: %v", i, err)
			break
		}
		if resp.StatusCode == 400 && tok == "" || resp.StatusCode == 505 || resp.StatusCode == 501 || resp.StatusCode == 431 || resp.StatusCode == 417 {
			c.Count("refused_by_net_http", 1)
			if resp.Close || resp.Header.Get("Connection") == "close" {
				break
			}
			continue
		}
		if tok != "" {
			reached++
			if sound[i] && tok != fmt.Sprintf("%d-%d", c.N, i) {
				fail("order", "answer %d belongs to request %q", i, tok)
				break
			}
		}
		if resp.StatusCode < 200 || resp.StatusCode > 599 {
			fail("status", "request %d: status %d", i, resp.StatusCode)
		}
		for h := range resp.Header {
			if !c39known[h] {
				fail("injected", "request %d: the answer has a header %q: %v", i, h, resp.Header)
			}
		}
		if resp.StatusCode == 404 {
			c.Count("not_found", 1)
		}
		if resp.Header.Get("Last-Modified") != "" {
			c.Count("files", 1)
		}
		if bytes.HasPrefix(b, []byte(`{"err":`)) {
			c.Count("bound", 1)
		}
		if resp.Close {
			break
		}
	}
	if rest, _ := io.ReadAll(br); len(rest) > 0 && reached == n && sound[n-1] {
		fail("extra", "more than the answers came back: %.500q", rest)
	}
	c.Count("reached", reached)
	if reached > 0 {
		c.Seen(all)
	}
	c.c39bad(fmt.Sprintf("%q", all))
	if l := s.logs.String(); strings.Contains(l, "panic serving") {
		fail("panic", "net/http had to stop a panic: %.3000s", l)
	}
	c.Sample(func() any { return fmt.Sprintf("%.600q", all) })
	if c.N%10 == 0 {
		a := s.Get("GET", "/p/plain", [2]string{"X-Tok", "t"})
		if a.Err != nil || a.Status != 200 || string(a.Body) != "plain|" {
			fail("after", "a plain request afterwards: %v", a)
		}
		c.Count("plain_after", 1)
	}
}

// c39inProcess gives the engine a request no client could send through net/http, or only in some other way.
func c39inProcess(c *C, e *water.Engine) {
	r := c.R
	c.Count("in_process", 1)
	q := &http.Request{Method: pick(r, []string{"GET", "GET", "POST", "POST", "PUT", "PATCH", "HEAD", "DELETE", "OPTIONS", "", "get", "X"}), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody}
	t := c.c39target()
	path, query, _ := strings.Cut(t, "?")
	if u, err := url.PathUnescape(path); err == nil && r.Pct(70) {
		path = u
	}
	q.URL = &url.URL{Path: path, RawQuery: query, RawPath: r.Str("", "", path, "/other")}
	q.RequestURI = r.Str(t, t, "", "/")
	q.Host = r.Str("h.test", "", ":", "[")
	q.RemoteAddr = r.Str("192.0.2.1:80", "", "@", ":", "[::1]:5", "::1", "192.0.2.1", "pipe")
	if r.Pct(10) {
		q.ProtoMajor, q.ProtoMinor = pick(r, []int{0, 2, 3}), 0
	}
	q.Header["X-Tok"] = []string{"in"}
	for _, h := range []string{"X-Forwarded-For", "X-Real-Ip", "X-Forwarded-Proto", "Cookie", "Origin", "Range", "If-None-Match", "If-Modified-Since", "Upgrade", "Connection", "Trace-Id", "X-Any", "Content-Type", "S", "N"} {
		switch {
		case r.Pct(10):
			q.Header[h] = []string{}
		case r.Pct(10):
			q.Header[h] = nil
		case r.Pct(30):
			q.Header[h] = []string{c.c39text(r.IntN(3)), c.c39text(1)}[:r.Rng(1, 2)]
		}
	}
	var body []byte
	switch r.IntN(5) {
	case 0:
		q.Header["Content-Type"], body = []string{"application/json"}, []byte(c.c39text(3))
	case 1:
		q.Header["Content-Type"], body = []string{"application/x-www-form-urlencoded"}, []byte("s="+c.c39text(2)+"&l="+c.c39text(1))
	case 2:
		q.Header["Content-Type"], body = []string{"multipart/form-data; boundary=b"}, []byte("--b\r\nContent-Disposition: form-data; name=\"f\"; filename=\"x\"\r\n\r\nxx\r\n--b--")
	case 3:
		if path != "/do/raw" {
			q.Body = nil
		}
	}
	if body != nil {
		q.Body, q.ContentLength = io.NopCloser(bytes.NewReader(body)), int64(len(body))
	}
	if r.Pct(10) {
		q.Form, q.PostForm = url.Values{"s": {}, "l": nil, "m[a]": {}, "m[b]": nil, "n": {"1"}}, url.Values{}
	}
	desc := fmt.Sprintf("%s path %q query %q uri %q %v body %.500q proto %d.%d peer %q form %v", q.Method, q.URL.Path, q.URL.RawQuery, q.RequestURI, q.Header, body, q.ProtoMajor, q.ProtoMinor, q.RemoteAddr, q.Form)
	w := NewRec()
	done := make(chan string, 1)
	go func() {
		if p, panicked := try(func() { e.ServeHTTP(w, q) }); panicked {
			done <- fmt.Sprintf("panic %v", p)
		}
		close(done)
	}()
	c.Eval()
	select {
	case p := <-done:
		if p != "" {
			c.Fail("panic", "%s\n%s", p, desc)
		}
	case <-time.After(60 * time.Second):
		c.Fail("stuck", "the engine has not answered within a minute\n%s", desc)
		return
	}
	if len(w.Codes) > 1 {
		c.Fail("status", "several heads %v\n%s", w.Codes, desc)
	}
	if w.H.Get("X-Reached") != "" {
		c.Count("reached", 1)
		c.Seen(desc)
	}
	if q.MultipartForm != nil {
		q.MultipartForm.RemoveAll()
	}
	c.c39bad(desc)
}
