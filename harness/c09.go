package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strings"
	"sync/atomic"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C09", Quick: 25000, Thor: 500000,
		Rule:   "a case calls one response helper with generated status, payload (0 B to 3 MB, binary, maps, nested and embedded values, readers of every granularity) and content type in an engine behind a loopback connection, and compares what a client receives. Non-trivial: a non-empty payload; distinct by helper, status, size class and payload kind.",
		Need:   []string{"String", "Data", "HTMLRaw", "JSON", "XML", "Stream", "Moved", "Found", "bare", "NoCache", "HTML", "HTMLSet", "json_kinds", "big_bodies", "maps", "reader_errors", "long_values", "typed_before", "after_failures", "idle_reads"},
		Before: func(e *Env) { c09default(e); water.SetRender(c09render{}) },
		After:  func(e *Env) { e.Count("long_values", int(c09long.Load())) },
		Case:   c09})
}

// c09default looks at what the HTML helpers answer before the application has set a renderer: the status and the content type.
func c09default(e *Env) {
	for _, code := range []int{200, 201, 404, 500} {
		for _, set := range []bool{false, true} {
			root := water.NewRouter()
			root.GET("/t", func(x *water.Context) {
				if set {
					x.HTMLSet(code, "s", "t", 1)
				} else {
					x.HTML(code, "t", nil)
				}
			})
			srv := Listen(root.Handler())
			res := srv.Raw("GET", Line("GET", "/t", nil, []byte{}))
			srv.Close()
			e.Eval()
			e.Count("default_renderer", 1)
			if res.Err != nil || res.Status != code || res.Head.Get("Content-Type") != "text/html; charset=utf-8" || len(res.Body) > 0 {
				(&C{Env: e}).Fail("default-renderer", "HTML(%d) with no renderer set: %v", code, res)
			}
		}
	}
}

// c09render is the application's renderer; it says what it was given.
type c09render struct{}

func (c09render) HTMLSet(ctx *water.Context, code int, set, name string, data interface{}) {
	ctx.Header().Set("Content-Type", "text/html; charset=utf-8")
	ctx.WriteHeader(code)
	fmt.Fprintf(ctx, "%d|%s|%s|%v", code, set, name, data)
}

type c09Inner struct {
	X int64   `json:"x" xml:"x,attr"`
	F float64 `json:"f" xml:"f"`
	S string  `json:"s,omitempty" xml:"s"`
}

type c09Emb struct {
	E string `json:"e" xml:"e"`
}

type c09Val struct {
	XMLName xml.Name   `json:"-" xml:"val"`
	A       int        `json:"a" xml:"a"`
	B       string     `json:"b" xml:"b"`
	C       []string   `json:"c" xml:"c>item"`
	D       *c09Inner  `json:"d" xml:"d"`
	E       []c09Inner `json:"list" xml:"list"`
	F       bool       `json:"F" xml:"F"`
	G       uint8      `json:"g" xml:"g"`
	c09Emb
}

// xmlText has only characters XML can carry.
func c09Text(r R, n int) string {
	return r.From("abc XYZ<>&\"'é日\U0001F600=/:;-_", n)
}

var c09long atomic.Int64

func c09val(r R) *c09Val {
	v := &c09Val{A: int(r.Int64()), B: c09Text(r, r.Rng(0, 20)), F: r.Pct(50), G: uint8(r.Uint32())}
	v.E = []c09Inner{}
	v.C = []string{}
	if r.Pct(2) { // one long text, as long as any value may be
		v.B = strings.Repeat(c09Text(r, r.Rng(1, 900)), r.Tail(2, 200, 4000))
		c09long.Add(1)
	}
	for i := r.Tail(0, 3, 3000); i > 0; i-- {
		v.C = append(v.C, c09Text(r, r.Rng(0, 6)))
	}
	for i := r.Tail(0, 3, 3000); i > 0; i-- {
		v.E = append(v.E, c09Inner{r.Int64(), r.NormFloat64() * 1e10, c09Text(r, r.Rng(0, 8))})
	}
	if r.Pct(50) {
		v.D = &c09Inner{-r.Int64(), r.Float64(), "i"}
	}
	v.c09Emb.E = c09Text(r, 3)
	return v
}

func anyJSON(r R, depth int) interface{} {
	switch k := r.IntN(8); {
	case k == 0:
		return nil
	case k == 1:
		return r.Pct(50)
	case k == 2:
		return r.NormFloat64() * 1e6
	case k == 3:
		return float64(int64(r.Uint64() >> 12))
	case k < 6 || depth > 4:
		if r.OneIn(200) {
			c09long.Add(1)
			return strings.Repeat(c09Text(r, r.Rng(1, 900)), r.Tail(2, 200, 4000))
		}
		return c09Text(r, r.Rng(0, 12)) + r.Str("", "\u2028", "\x01", "\n", "\\")
	case k == 6:
		m := map[string]interface{}{}
		for i := r.IntN(5); i > 0; i-- {
			m[c09Text(r, r.Rng(0, 5))] = anyJSON(r, depth+1)
		}
		return m
	}
	l := []interface{}{}
	for i := r.IntN(5); i > 0; i-- {
		l = append(l, anyJSON(r, depth+1))
	}
	return l
}

func c09copy(v interface{}) interface{} {
	switch v := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, x := range v {
			m[k] = c09copy(x)
		}
		return m
	case []interface{}:
		l := []interface{}{}
		for _, x := range v {
			l = append(l, c09copy(x))
		}
		return l
	}
	return v
}

// chunky reads in odd pieces and may fail at its end.
type chunky struct {
	b   []byte
	n   int
	err error

	idle, turn int
	with       bool
}

func (k *chunky) Read(p []byte) (int, error) {
	if len(k.b) == 0 {
		if k.err != nil {
			return 0, k.err
		}
		return 0, io.EOF
	}
	if k.idle != 0 { // nothing to be had for now
		k.turn++
		if k.turn%k.idle == 0 {
			return 0, nil
		}
	}
	n := min(len(p), len(k.b), k.n)
	copy(p, k.b[:n])
	k.b = k.b[n:]
	if len(k.b) == 0 && k.with { // the end comes with the last bytes
		if k.err != nil {
			return n, k.err
		}
		return n, io.EOF
	}
	return n, nil
}

type c09marsh struct{ s string }

func (m c09marsh) MarshalJSON() ([]byte, error) {
	if m.s == "" {
		return nil, errors.New("nothing to say")
	}
	return []byte(`{"m":"` + m.s + `"}`), nil
}

type c09ptr struct{ s string }

func (m *c09ptr) MarshalJSON() ([]byte, error) { return []byte(`["` + m.s + `"]`), nil }

type c09txt struct{ s string }

func (m c09txt) MarshalText() ([]byte, error) { return []byte("t" + m.s), nil }

// c09number decodes exactly one JSON value, numbers as they are written; nil when it is none.
func c09number(b []byte) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil
	}
	if _, err := d.Token(); err != io.EOF {
		return nil
	}
	return []any{v}
}

// c09kind gives a value of some kind and JSON text which stands for it; "" when it cannot be encoded.
func c09kind(r R) (v any, want string) {
	w := r.Word()
	raw := json.RawMessage(r.Str(`{"a":[1,2,{"b":null}]}`, ` [1 , "x"] `, `"<&>"`, "12345678901234567890", "true", "null", "{\"a\":\"\\u003c\"}"))
	n := r.Int64()
	switch r.IntN(17) {
	case 0:
		v, want = raw, string(raw)
	case 1:
		v, want = json.RawMessage(nil), "null"
	case 2:
		v, want = water.H{"r": raw, "n": json.RawMessage(nil)}, `{"n":null,"r":`+string(raw)+`}`
	case 3:
		v, want = json.RawMessage(r.Str(`{"a":`, "", "nul", "{} x")), ""
	case 4:
		v, want = &raw, string(raw)
	case 5:
		v, want = c09marsh{w}, `{"m":"`+w+`"}`
	case 6:
		v, want = []any{c09marsh{""}}, ""
	case 7:
		v, want = &c09ptr{w}, `["`+w+`"]`
	case 8:
		v, want = map[c09txt]any{{w}: c09txt{"x"}}, `{"t`+w+`":"tx"}`
	case 9:
		v, want = n, fmt.Sprint(n)
	case 10:
		v, want = []uint64{uint64(n), 1<<64 - 1}, fmt.Sprintf("[%d,18446744073709551615]", uint64(n))
	case 11:
		v, want = json.Number("1e400"), "1e400"
	case 12:
		v, want = []byte(w), `"`+base64.StdEncoding.EncodeToString([]byte(w))+`"`
	case 13:
		v, want = (*c09Val)(nil), "null"
	case 14:
		v, want = []string(nil), "null"
	case 15:
		v, want = []any{"", 0, false, map[string]any{}, []int{}}, `["",0,false,{},[]]`
	default:
		v, want = "<script>&"+w+"\u2028", `"<script>&`+w+`\u2028"`
	}
	return
}

var c09big atomic.Int64

func c09(c *C) {
	r := c.R
	codes := []int{200, 201, 202, 203, 206, 226, 300, 400, 401, 403, 404, 405, 409, 410, 418, 422, 429, 451, 500, 501, 503, 599, 299, 777}
	size := pick(r, []int{0, 1, 3, 17, 511, 512, 513, 2047, 2048, 2049, 4096, 5000, 32768, 70000})
	if r.Pct(2) {
		size = r.Rng(1<<20, 3<<20)
		c.Count("big_bodies", 1)
	}
	var payload []byte
	switch r.IntN(4) {
	case 0:
		payload = r.Bytes(size)
	case 1:
		payload = []byte(strings.Repeat("é<>\x00 line\r\n", size/8+1))[:size]
	case 2:
		payload = []byte("<!DOCTYPE html><html>" + r.From("abc", size))
	default:
		payload = []byte(r.From("abcdefghij {}[]\",:", size))
	}
	code := pick(r, codes)
	method := r.Str("GET", "POST", "PUT", "DELETE", "PATCH")
	name := r.Str("String", "String", "Data", "Data", "HTMLRaw", "JSON", "JSON", "JSONmap", "JSONkinds", "XML", "Stream", "Stream", "Moved", "Found", "bare", "NoCache", "HTML", "HTMLSet", "JSONbad")
	var run func(x *water.Context)
	var check func(res *Resp) string
	expect := func(code int, ctype string, body []byte) func(res *Resp) string {
		return func(res *Resp) string {
			if res.Status != code {
				return fmt.Sprintf("status %d", res.Status)
			}
			if got := res.Head["Content-Type"]; len(got) != 1 || got[0] != ctype {
				return fmt.Sprintf("Content-Type %q, expected %q", got, ctype)
			}
			if !bytes.Equal(res.Body, body) {
				return fmt.Sprintf("body of %d bytes %.100q, expected %d bytes %.100q", len(res.Body), res.Body, len(body), body)
			}
			return ""
		}
	}
	arg := fmt.Sprintf("code %d, %d bytes", code, len(payload))
	switch name {
	case "String":
		run = func(x *water.Context) { x.String(code, string(payload)) }
		check = expect(code, "text/plain; charset=utf-8", payload)
	case "HTMLRaw":
		run = func(x *water.Context) { x.HTMLRaw(code, string(payload)) }
		check = expect(code, "text/html; charset=utf-8", payload)
	case "Data":
		ct := r.Str("application/octet-stream", "image/png", "text/csv; charset=gbk", "application/x; a=b", "video/mp4", "text/plain")
		arg += " " + ct
		given := bytes.Clone(payload)
		run = func(x *water.Context) { x.Data(code, ct, given) }
		check = expect(code, ct, payload)
	case "Stream":
		ct := r.Str("application/octet-stream", "text/event-stream", "a/b; c=d")
		src := &chunky{b: payload, n: pick(r, []int{1, 7, 512, 1000, 100000})}
		if len(payload) > 100000 {
			src.n = 10000
		}
		fails := r.Pct(15)
		if fails {
			src.err = pick(r, []error{errors.New("source broke"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrClosed, context.Canceled, http.ErrBodyReadAfterClose})
			c.Count("reader_errors", 1)
		}
		if r.Pct(30) && len(payload) < 5000 {
			src.idle = r.Rng(2, 6)
			c.Count("idle_reads", 1)
		}
		src.with = r.Pct(30)
		var rd io.Reader = src
		if !fails && r.Pct(40) { // a reader that could go back, and is not at its start
			lead := r.From("abc\n", 20)
			if br := bytes.NewReader([]byte(lead + string(payload))); r.Pct(50) {
				br.Seek(int64(len(lead)), io.SeekStart)
				rd = br
			} else {
				f, err := os.CreateTemp(c.Dir, "stream")
				must(err)
				os.Remove(f.Name())
				f.WriteString(lead + string(payload))
				f.Seek(int64(len(lead)), io.SeekStart)
				rd = f
				defer f.Close()
			}
			c.Count("seekable", 1)
		}
		arg += fmt.Sprintf(" %s chunks of %d fails=%v", ct, src.n, fails)
		var got error
		run = func(x *water.Context) {
			got = x.Stream(ct, rd)
		}
		ex := expect(200, ct, payload)
		check = func(res *Resp) string {
			if (got != nil) != fails || fails && !errors.Is(got, src.err) {
				return fmt.Sprintf("Stream returned %v", got)
			}
			return ex(res)
		}
	case "JSON":
		v := c09val(r)
		arg = fmt.Sprintf("code %d %+v", code, *v)
		var err error
		run = func(x *water.Context) { err = x.JSON(code, v) }
		check = func(res *Resp) string {
			var w c09Val
			if e := strictJSON(res.Body, &w); e != nil || err != nil {
				return fmt.Sprintf("JSON returned %v, the body does not decode: %v: %.300q", err, e, res.Body)
			}
			if !reflect.DeepEqual(*v, w) {
				return fmt.Sprintf("decodes to %+v from %.300q", w, res.Body)
			}
			return expect(code, "application/json; charset=utf-8", res.Body)(res)
		}
	case "JSONmap":
		v := anyJSON(r, 0)
		if r.OneIn(40) {
			v = strings.Repeat(c09Text(r, r.Rng(1, 900)), r.Tail(2, 200, 4000))
			c09long.Add(1)
		}
		if r.Pct(60) {
			m := water.H{}
			for i := r.Tail(0, 5, 2000); i > 0; i-- {
				m[c09Text(r, r.Rng(0, 5))] = anyJSON(r, 1)
			}
			if r.Pct(2) {
				m["long"] = strings.Repeat(c09Text(r, r.Rng(1, 900)), r.Tail(2, 200, 4000))
			}
			v = map[string]interface{}(m)
		}
		c.Count("maps", 1)
		arg = fmt.Sprintf("code %d %#v", code, v)
		var err error
		send := v
		if m, ok := v.(map[string]interface{}); ok && r.Pct(50) {
			send = water.H(m)
		}
		v = c09copy(v)
		run = func(x *water.Context) { err = x.JSON(code, send) }
		check = func(res *Resp) string {
			var w interface{}
			if e := strictJSON(res.Body, &w); e != nil || err != nil {
				return fmt.Sprintf("JSON returned %v, the body does not decode: %v: %.300q", err, e, res.Body)
			}
			if !reflect.DeepEqual(v, w) {
				return fmt.Sprintf("decodes to %#v from %.300q", w, res.Body)
			}
			if m, ok := send.(water.H); ok {
				send = map[string]interface{}(m)
			}
			if !reflect.DeepEqual(v, send) {
				return fmt.Sprintf("the value given was changed, to %#v", send)
			}
			return expect(code, "application/json; charset=utf-8", res.Body)(res)
		}
	case "JSONkinds": // whatever kind of value, what a decoder reads is what it stands for
		v, want := c09kind(r)
		c.Count("json_kinds", 1)
		arg = fmt.Sprintf("code %d %T %#v", code, v, v)
		var err error
		run = func(x *water.Context) { err = x.JSON(code, v) }
		check = func(res *Resp) string {
			if want == "" {
				if err == nil {
					return "JSON of a value which cannot be encoded returned no error"
				}
				return ""
			}
			if a, b := c09number(res.Body), c09number([]byte(want)); err != nil || a == nil || !reflect.DeepEqual(a, b) {
				return fmt.Sprintf("JSON returned %v, the body %.300q does not stand for %.300q", err, res.Body, want)
			}
			return expect(code, "application/json; charset=utf-8", res.Body)(res)
		}
	case "JSONbad": // cannot be encoded: the caller is told
		var err error
		run = func(x *water.Context) { err = x.JSON(code, map[string]interface{}{"f": func() {}}) }
		check = func(res *Resp) string {
			if err == nil {
				return "JSON of a function returned no error"
			}
			return ""
		}
	case "XML":
		v := c09val(r)
		if len(v.C) == 0 {
			v.C = nil
		}
		if len(v.E) == 0 {
			v.E = nil
		}
		v.XMLName = xml.Name{Local: "val"}
		arg = fmt.Sprintf("code %d %+v", code, *v)
		var err error
		run = func(x *water.Context) { err = x.XML(code, v) }
		check = func(res *Resp) string {
			var w c09Val
			if e := xml.Unmarshal(res.Body, &w); e != nil || err != nil {
				return fmt.Sprintf("XML returned %v, the body does not decode: %v: %.300q", err, e, res.Body)
			}
			if !reflect.DeepEqual(*v, w) {
				return fmt.Sprintf("decodes to %+v from %.300q", w, res.Body)
			}
			return expect(code, "application/xml; charset=utf-8", res.Body)(res)
		}
	case "Moved", "Found":
		u := &url.URL{Path: "/" + r.From("abc é%?#", r.Rng(0, 6)) + r.Str("", "/", "/x")}
		u.Path = strings.ReplaceAll(u.Path, "//", "/")
		if r.Pct(40) {
			u.RawQuery = url.Values{"q": {c09Text(r, 5)}, "z": {"1"}}.Encode()
		}
		if r.Pct(30) {
			u.Scheme, u.Host = r.Str("http", "https"), r.Str("other.test", "h:8443")
		}
		to := u.String()
		if r.Pct(20) && u.Host == "" {
			to = "rel/" + r.Word() + "?a=b"
		}
		arg = to
		want := 301
		if name == "Found" {
			want = 302
		}
		run = func(x *water.Context) {
			if name == "Found" {
				x.Found(to)
			} else {
				x.MovedPermanently(to)
			}
		}
		check = func(res *Resp) string {
			if res.Status != want {
				return fmt.Sprintf("status %d", res.Status)
			}
			base, _ := url.Parse("http://example.test/t")
			a, e1 := base.Parse(to)
			b, e2 := base.Parse(res.Head.Get("Location"))
			if e1 != nil || e2 != nil || len(res.Head["Location"]) != 1 || cleanU(a) != cleanU(b) {
				return fmt.Sprintf("Location %q (%v), the target was %q (%v)", res.Head["Location"], e2, to, e1)
			}
			return ""
		}
	case "bare":
		want := pick(r, []int{304, 400, 401, 403, 404, 500, 418, 503, 204})
		arg = fmt.Sprint(want)
		run = func(x *water.Context) {
			switch want {
			case 304:
				x.NotModified()
			case 400:
				x.BadRequest()
			case 401:
				x.Unauthorized()
			case 403:
				x.Forbidden()
			case 404:
				x.NotFound()
			case 500:
				x.InternalServerError()
			default:
				x.Abort(want)
			}
		}
		check = func(res *Resp) string {
			if res.Status != want || len(res.Body) > 0 {
				return "not a bare " + fmt.Sprint(want)
			}
			return ""
		}
	case "NoCache":
		run = func(x *water.Context) { x.NoCache(); x.String(code, string(payload)) }
		ex := expect(code, "text/plain; charset=utf-8", payload)
		check = func(res *Resp) string {
			cc := res.Head.Get("Cache-Control")
			if !strings.Contains(cc, "no-cache") || !strings.Contains(cc, "max-age=0") || res.Head.Get("Expires") != "0" {
				return fmt.Sprintf("headers %v", res.Head)
			}
			return ex(res)
		}
	case "HTML", "HTMLSet":
		set, tpl, data := r.Word(), r.Word(), r.IntN(1000)
		if r.Pct(50) { // names are the renderer's business
			sep := r.Str(":", "/", ".", "-", " ", "%", "..")
			set, tpl = set+sep+r.Word(), tpl+sep+r.Word()
		}
		want := fmt.Sprintf("%d|%s|%s|%v", code, set, tpl, data)
		if name == "HTML" {
			want = fmt.Sprintf("%d|%s|%s|%v", code, water.DEFAULT_TPL_SET_NAME, tpl, data)
		}
		run = func(x *water.Context) {
			if name == "HTML" {
				x.HTML(code, tpl, data)
			} else {
				x.HTMLSet(code, set, tpl, data)
			}
		}
		check = expect(code, "text/html; charset=utf-8", []byte(want))
	}
	before := r.Pct(30) // a middleware that left a header behind
	root := water.NewRouter()
	if before {
		ct := ""
		if name != "bare" && name != "Moved" && name != "Found" && r.Pct(60) { // its idea of a content type is not the helper's
			ct = r.Str("text/plain", "application/json", "image/x", "text/html; charset=gbk")
			c.Count("typed_before", 1)
		}
		root.Use(func(x *water.Context) {
			x.SetHeader("X-Before", "kept")
			if ct != "" {
				x.SetHeader("Content-Type", ct)
			}
		})
	}
	addRoute(root, method, "/t", []interface{}{run})
	var failed []error
	poison := r.Pct(15)
	root.GET("/bad", func(x *water.Context) { // answers that fail halfway leave nothing behind
		failed = append(failed, x.XML(200, c09bad{A: strings.Repeat("left over ", 2000)}))
		failed = append(failed, x.JSON(200, []interface{}{strings.Repeat("left over ", 2000), func() {}}))
		failed = append(failed, x.Stream("a/b", &chunky{b: []byte("left over"), n: 3, err: errors.New("source broke")}))
	})
	srv := Listen(root.Handler())
	defer srv.Close()
	if poison {
		srv.Raw("GET", Line("GET", "/bad", nil, []byte{}))
		c.Count("after_failures", 1)
		for i, err := range failed {
			if err == nil {
				c.Fail("silent", "answer %d of those that cannot be given returned no error", i)
				return
			}
		}
	}
	res := srv.Raw(method, Line(method, "/t", nil, []byte{}))
	c.Eval()
	c.Count(strings.TrimSuffix(strings.TrimSuffix(name, "map"), "bad"), 1)
	if res.Err != nil {
		c.Fail("wire", "%s(%s): %v", name, arg, res)
		return
	}
	if f := check(res); f != "" {
		c.Fail("helper-"+name, "%s(%s): %s; got %v", name, arg, f, res)
		return
	}
	if before && name != "JSONbad" && res.Head.Get("X-Before") != "kept" {
		c.Fail("headers", "%s(%s): a header set by a middleware is lost: %v", name, arg, res)
		return
	}
	if len(payload) > 0 {
		c.Seen(name, code, len(payload) > 2048, len(payload) > 70000, method, arg)
	}
	c.Sample(func() any {
		return map[string]any{"helper": name, "args": head(arg, 200), "wire": head(res.String(), 400)}
	})
}

// c09bad fails to encode after a long good start.
type c09bad struct {
	A string
	B c09fails
}

type c09fails struct{}

func (c09fails) MarshalXML(*xml.Encoder, xml.StartElement) error {
	return errors.New("cannot be encoded")
}

func cleanU(u *url.URL) string {
	p := u.Path
	if p == "" {
		p = "/"
	}
	return u.Scheme + "://" + u.Host + p + "?" + u.RawQuery + "#" + u.Fragment
}

// strictJSON decodes one document and nothing after it, as the standard library understands JSON.
func strictJSON(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(v); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("more after the document: %v", err)
	}
	return nil
}

var _ = http.StatusOK
