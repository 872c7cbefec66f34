package main

import (
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

func init() {
	register(&Prop{ID: "C18", Quick: 200000, Thor: 4000000,
		Rule: "a case is a request with a method, a content type (bare, with parameters in many spellings, look-alikes, none), a body of one format and a conflicting query, bound automatically in a handler; which source's value reached the target (or an error) is compared with the selection rule, and the selector itself is asked directly. Non-trivial: body format and content type disagree, or parameters present; distinct by method, content type, body format and query.",
		Need: []string{"bindings", "json", "xml", "multipart", "form", "query_only", "refused", "parameters", "lookalikes", "conflicts", "wire", "after_query_access", "named_decoder", "unreadable_queries"},
		Before: func(*Env) {
			srv18 = Listen(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { eng18().ServeHTTP(w, q) }))
		},
		Case: c18})
}

var srv18 *Server
var eng18 = sync.OnceValue(func() *water.Engine {
	rt := water.NewRouter()
	h := func(x *water.Context) {
		if x.GetHeader("X-First") != "" {
			x.Query("v")
		}
		var err error
		var got string
		bind := x.Bind
		switch x.GetHeader("X-With") {
		case "json":
			bind = func(v interface{}) error { return x.BindWith(v, binding.JSON) }
		case "xml":
			bind = func(v interface{}) error { return x.BindWith(v, binding.XML) }
		}
		switch x.GetHeader("X-Target") {
		case "map":
			m := map[string]string{}
			err = bind(&m)
			got = m["v"]
		case "ptr":
			p := &c18t{}
			err = bind(p)
			got = p.V
		default:
			var t c18t
			err = bind(&t)
			got = t.V
		}
		if err != nil {
			x.Header().Set("X-Err", strings.NewReplacer("\n", " ", "\r", " ").Replace(err.Error()))
			x.WriteHeader(422)
			return
		}
		x.Header().Set("X-Got", got)
		x.WriteHeader(200)
	}
	for _, m := range methods[:7] {
		addRoute(rt, m, "/", []interface{}{h})
	}
	return rt.Handler()
})

type c18t struct {
	V string `json:"v" xml:"v" form:"v"`
}

func c18(c *C) {
	r := c.R
	method := pick(r, []string{"GET", "POST", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD"})
	media := pick(r, []string{"application/json", "application/json", "application/xml", "text/xml", "multipart/form-data", "multipart/form-data", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded",
		"text/plain", "", "application/octet-stream", "text/html", "application/jsonp", "text/json", "application/xhtml+xml", "application/json+x", "application/vnd.api+json", "multipart/form-datax", "multipart/mixed", "text/xmlx", "application/xml-dtd", "xapplication/json", "image/svg+xml",
		"application/xhtml", "text/x-json", "application/ld+json", "application/soap+xml", "application/rss+xml", "text/javascript", "application/json-seq", "application/x-json", "application/x-xml", "text/xml-external-parsed-entity", "multipart/related", "multipart/form", "application/x-ndjson", "application/form-data", "text/html+xml", "application/x-yaml", "application/protobuf", "application/json,text/plain", "application/xml,text/html", "multipart/form-data,x", "json", "xml", "application/" + r.Word(), "text/" + r.Word(), r.Word() + "/json", r.Word() + "/xml"})
	if known := []string{"application/json", "application/xml", "text/xml", "multipart/form-data"}; r.Pct(6) {
		media = pick(r, known)
		i, ch := r.IntN(len(media)+1), string(pick(r, []byte("x-+.a*1")))
		switch r.IntN(4) {
		case 0:
			media = media[:i] + ch + media[i:]
		case 1:
			media = media[:i] + media[min(i+1, len(media)):]
		case 2:
			media = r.Str("x-", "x.", "vnd.", "+", "*") + media
		case 3:
			media = strings.Replace(media, "/", r.Str("/x-", "/vnd.", "/+", "/*", "+"), 1)
		}
	}
	bound := pick(r, []string{"xx", "----WebKitFormBoundary7MA4YWxkTrZu0gW", "a'b()+_,-./:=?z"})
	ct := media
	q := `"` + bound + `"`
	if bound[0] != 'a' && r.Pct(50) {
		q = bound
	}
	if strings.HasPrefix(media, "multipart/") {
		ct += pick(r, []string{";boundary=", "; boundary=", " ; boundary=", ";  charset=utf-8; boundary=", "; charset=\"utf-8\";boundary="}) + q
		if r.Pct(30) {
			ct += pick(r, []string{"; charset=utf-8", ";charset=utf-8", "; x=\"application/json\""})
		}
		c.Count("parameters", 1)
	} else if media != "" && r.Pct(65) {
		ct += pick(r, []string{";charset=utf-8", "; charset=utf-8", " ;charset=utf-8", " ; charset=UTF-8", "\t; charset=utf-8", ";\tcharset=utf-8", " \t;charset=utf-8", ";charset=\"utf-8\"", ";  charset=utf-8 ", "; a=b; c=d", "; profile=\"multipart/form-data\"", "; x=\"application/xml\"", ";", "; version=1.0 ; q=0.5"})
		c.Count("parameters", 1)
	}
	badParams := strings.HasSuffix(ct, ";") || strings.Contains(media, ",") // net/http reads no form with it
	body := pick(r, []string{"json", "xml", "multipart", "urlencoded", "none", "empty-multipart"})
	if media != "" && r.Pct(50) { // agree
		switch {
		case media == "application/json":
			body = "json"
		case strings.HasSuffix(media, "/xml"):
			body = "xml"
		case media == "multipart/form-data":
			body = pick(r, []string{"multipart", "multipart", "empty-multipart"})
		case strings.HasSuffix(media, "urlencoded"):
			body = "urlencoded"
		}
	}
	tok := r.Word()
	var b []byte
	switch body {
	case "json":
		b = []byte(fmt.Sprintf(`{"v":"J%s"}`, tok))
	case "xml":
		b = []byte(fmt.Sprintf("<c18t><v>X%s</v></c18t>", tok))
	case "urlencoded":
		b = []byte("v=U" + tok)
	case "multipart":
		b = []byte(fmt.Sprintf("--%s\r\nContent-Disposition: form-data; name=\"v\"\r\n\r\nM%s\r\n--%s--\r\n", bound, tok, bound))
	case "empty-multipart":
		b = []byte(fmt.Sprintf("--%s\r\nContent-Disposition: form-data; name=\"w\"\r\n\r\nM%s\r\n--%s--\r\n", bound, tok, bound))
	}
	rawq := pick(r, []string{"v=Q" + tok, "v=Q" + tok, "w=1", ""})
	query := ""
	if strings.HasPrefix(rawq, "v") {
		query = "Q" + tok
	}
	want, fails, what := query, false, "form"
	mp := method == "POST" || method == "PUT" || method == "PATCH"
	switch {
	case method == "GET":
		what = "query_only"
	case media == "application/json":
		what = "json"
		want, fails = "J"+tok, body != "json"
	case media == "application/xml" || media == "text/xml":
		what = "xml"
		want, fails = "X"+tok, body != "xml"
	case media == "multipart/form-data" && mp:
		what = "multipart"
		want, fails = "M"+tok, body != "multipart"
		if body == "empty-multipart" {
			want, fails = "", false
		}
	case media == "application/x-www-form-urlencoded" && mp && body == "urlencoded":
		want = "U" + tok
	case media == "application/x-www-form-urlencoded" && mp && body != "none":
		// read as a form, whatever it is: net/http decides whether it parses
		vals, err := url.ParseQuery(string(b))
		fails = err != nil
		if v := vals["v"]; len(v) > 0 {
			want = v[0]
		}
	}
	target := pick(r, []string{"", "", "ptr", "map"})
	if target == "map" {
		if what == "json" && body == "json" || what == "form" || what == "query_only" || what == "multipart" {
			// maps: the last value
			if what == "form" && want != query && query != "" {
				want = query
			}
		} else if what == "xml" {
			target = ""
		}
	}
	with := ""
	if r.Pct(10) { // the handler names the decoder itself
		what = r.Str("json", "xml")
		with, fails = what, body != what
		want = map[string]string{"json": "J", "xml": "X"}[what] + tok
		if target == "map" && what == "xml" {
			target = ""
		}
		c.Count("named_decoder", 1)
	}
	unreadable := false
	if r.Pct(8) { // a query nobody can read matters to those who read it
		rawq = r.Str("v=%zz", "%", "v=Q&w=%1", "a;b=1")
		unreadable = true
		c.Count("unreadable_queries", 1)
		if what != "json" && what != "xml" {
			fails = true
		}
	}
	first := r.Pct(25) && with == "" && !unreadable && !(fails && what != "json" && what != "xml") && !badParams
	hdr := [][2]string{}
	if ct != "" {
		hdr = append(hdr, [2]string{"Content-Type", ct})
	}
	if target != "" {
		hdr = append(hdr, [2]string{"X-Target", target})
	}
	if with != "" {
		hdr = append(hdr, [2]string{"X-With", with})
	}
	if first {
		c.Count("after_query_access", 1)
		hdr = append(hdr, [2]string{"X-First", "1"})
	}
	c.Eval()
	c.Count("bindings", 1)
	c.Count(what, 1)
	if media != "" && what == "form" && media != "application/x-www-form-urlencoded" {
		c.Count("lookalikes", 1)
	}
	if body != "none" && query != "" {
		c.Count("conflicts", 1)
	}
	c.Seen(method, ct, body, query != "", target)
	var status int
	var head http.Header
	if c.N%10 == 0 && method != "HEAD" {
		c.Count("wire", 1)
		res := srv18.Raw(method, Line(method, "/?"+rawq, hdr, b))
		if res.Err != nil {
			c.Fail("no-answer", "%v", res)
			return
		}
		status, head = res.Status, res.Head
	} else {
		req := Req(method, "/")
		req.URL.RawQuery = rawq
		for _, h := range hdr {
			req.Header.Set(h[0], strings.TrimSpace(h[1]))
		}
		req.Body = io.NopCloser(strings.NewReader(string(b)))
		req.ContentLength = int64(len(b))
		var rec *Rec
		if p, crashed := try(func() { rec = Serve(eng18(), req) }); crashed {
			c.Fail("crash", "%v for %s %q body %q query %q", p, method, ct, b, rawq)
			return
		}
		status, head = rec.Status(), rec.H
	}
	where := func() string {
		return fmt.Sprintf("%s, Content-Type %q, body %q, query %q, target %q: status %d, bound %q, error %q", method, ct, b, rawq, target, status, head.Get("X-Got"), head.Get("X-Err"))
	}
	c.Sample(func() any { return where() })
	if fails {
		c.Count("refused", 1)
		if status != 422 {
			c.Fail("wrong-decoder", "the body is no %s: %s", what, where())
		}
		return
	}
	if status == 422 && badParams && (what == "multipart" || what == "form") {
		return
	}
	if status != 200 || head.Get("X-Got") != want {
		c.Fail("wrong-decoder", "expected %q by %s: %s", want, what, where())
		return
	}
	// the selector alone
	m2 := pick(r, []string{method, "TRACE", "CONNECT", "X", ""})
	var exp binding.Bindinger = binding.Form
	switch {
	case m2 == "GET":
	case media == "application/json":
		exp = binding.JSON
	case media == "application/xml" || media == "text/xml":
		exp = binding.XML
	case media == "multipart/form-data" && (m2 == "POST" || m2 == "PUT" || m2 == "PATCH"):
		exp = binding.FormMultipart
	}
	if g := binding.NewBindinger(m2, media); g != exp {
		c.Fail("selector", "NewBindinger(%q, %q) is %s, expected %s", m2, media, g.Name(), exp.Name())
	}
}
