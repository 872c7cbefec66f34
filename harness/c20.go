package main

import (
	"fmt"
	"io"
	"math"
	"mime/multipart"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"bytes"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C20", Quick: 60000, Thor: 1200000,
		Rule: "a case is a request with a generated query, form body (urlencoded or multipart) and path parameters (repeats, blanks, unicode space, escapes, bracket keys, numbers at and beyond every limit); every accessor is asked in random order, some twice, and each result is compared with an independent parse of the same request and Go's number parsing. Non-trivial: a present name; distinct by accessor and text.",
		Need: []string{"requests", "answers", "absent", "defaults", "saturated", "zero_fallback", "strict_errors", "groups", "arrays", "merged", "multipart", "params", "body_untouched", "long_forms", "parsed_before"},
		Case: c20})
}

var c20space = []string{"", " ", "\t", "\u00a0", "\u3000", "\n", " \r\n", "\u2003", "\u200b", "\ufeff"}

func c20text(r R) string {
	s := ""
	switch r.IntN(6) {
	case 0:
		s = pick(r, c16ints)
	case 1:
		s = pick(r, c16floats)
	case 2:
		s = pick(r, c16badFloats)
	case 3:
		s = pick(r, []string{"true", "false", "1", "0", "t", "F", "TRUE", "yes", "tRUE", "on", "2"})
	case 4:
		s = pick(r, c16badInts)
	default:
		s = pick(r, []string{"", "x", "a b", "a+b", "é中", "&=;", "%41", "-", "null", "[]", "a[b]", "\"q\"", "<b>"})
	}
	if r.Pct(30) {
		s = pick(r, c20space) + s + pick(r, c20space)
	}
	return s
}

// c20esc spells a text in one of the ways a client may.
func c20esc(r R, s string) string {
	switch r.IntN(4) {
	case 0: // everything escaped
		var o strings.Builder
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&o, "%%%02X", s[i])
		}
		return o.String()
	case 1:
		return strings.ReplaceAll(url.QueryEscape(s), "+", "%20")
	}
	return url.QueryEscape(s)
}

type c20kv struct{ k, v string }

func c20(c *C) {
	r := c.R
	names := []string{"a", "b", "A", "id", "é", "a b", "ids", "x.y", "0", "", "ids[a]", "ids[b]", "ids[a b]", "ids[é]", "ids[]", "ids[", "[a]", "ids]x[", "m[k]", "m[k2]", "idsx[a]", "id[s]", "ids[a][b]", "ids[a]x", "ids[a]]", "m[k][k2]", "m[[k]", "m[0]", "ids[0]"}
	gen := func(n int) (l []c20kv) {
		for ; n > 0; n-- {
			l = append(l, c20kv{pick(r, names), c20text(r)})
		}
		return
	}
	enc := func(l []c20kv) string {
		var p []string
		for _, e := range l {
			s := c20esc(r, e.k)
			if e.k == "" || e.v != "" || r.Pct(60) {
				s += "=" + c20esc(r, e.v)
			}
			p = append(p, s)
		}
		if r.Pct(10) {
			p = append(p, "")
		}
		return strings.Join(p, "&")
	}
	q := gen(r.IntN(8))
	body := gen(r.IntN(6))
	if r.OneIn(300) { // a long form
		l := &q
		if r.Pct(50) {
			l = &body
		}
		switch r.IntN(3) {
		case 0:
			nm := pick(r, names)
			for i := r.Rng(20, 900); i > 0; i-- {
				*l = append(*l, c20kv{nm, c20text(r)})
			}
		case 1:
			for i := r.Rng(20, 900); i > 0; i-- {
				*l = append(*l, c20kv{fmt.Sprintf("%s[k%d]", r.Str("m", "ids"), i), c20text(r)})
			}
		default:
			for i := r.Rng(1, 4); i > 0; i-- {
				*l = append(*l, c20kv{r.Str(names...), strings.Repeat(c20text(r), r.Rng(100, 8000))})
			}
		}
		c.Count("long_forms", 1)
	}
	method := pick(r, []string{"GET", "GET", "POST", "POST", "PUT", "PATCH", "DELETE"})
	kind := pick(r, []string{"none", "urlencoded", "urlencoded", "multipart", "json"})
	want := map[string][]string{}
	var raw []byte
	ct := ""
	bodyCounts := method == "POST" || method == "PUT" || method == "PATCH"
	rawq := enc(q)
	switch kind {
	case "urlencoded":
		raw = []byte(enc(body))
		ct = pick(r, []string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8"})
	case "multipart":
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		var keep []c20kv
		for _, e := range body {
			if e.k != "" {
				keep = append(keep, e)
				must(w.WriteField(e.k, e.v))
			}
		}
		body = keep
		w.Close()
		raw, ct = b.Bytes(), w.FormDataContentType()
	case "json":
		raw, ct = []byte(`{"a":"json"}`), "application/json"
	}
	// net/http's order: body values before query values; multipart values after both
	if kind == "urlencoded" && bodyCounts {
		for _, e := range body {
			want[e.k] = append(want[e.k], e.v)
		}
		c.Count("merged", 1)
	}
	for _, e := range q {
		want[e.k] = append(want[e.k], e.v)
	}
	if kind == "multipart" && bodyCounts {
		for _, e := range body {
			want[e.k] = append(want[e.k], e.v)
		}
		c.Count("multipart", 1)
	}
	pv := map[string]string{}
	path := "/p"
	pat := "/p"
	for i := 0; i < 2; i++ {
		n := fmt.Sprint("n", i)
		v := strings.ReplaceAll(c20text(r), "/", "")
		if v == "" {
			v = "7"
		}
		pat += "/<" + n + ">"
		path += "/" + v
		pv[n] = v
	}
	bad := false
	fail := func(sig, format string, a ...any) {
		if !bad {
			bad = true
			c.Fail(sig, "%s\n%s ?%s body(%s) %q, path %q", fmt.Sprintf(format, a...), method, rawq, kind, raw, path)
		}
	}
	first := func(n string) (string, bool) {
		l := want[n]
		if len(l) == 0 {
			return "", false
		}
		return strings.TrimSpace(l[0]), true
	}
	group := func(key string) map[string]string {
		m := map[string]string{}
		for k, l := range want {
			if key != "" && strings.HasPrefix(k, key+"[") && strings.Index(k, "]") == len(k)-1 && len(k) > len(key)+2 {
				m[k[len(key)+1:len(k)-1]] = strings.TrimSpace(l[0])
			}
		}
		return m
	}
	eq := func(acc string, got, exp any) {
		c.Count("answers", 1)
		same := reflect.DeepEqual(got, exp)
		if a, ok := got.(float64); ok {
			if b, ok := exp.(float64); ok {
				same = math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
			}
		}
		if !same {
			fail(strings.Fields(acc)[0], "%s is %#v, expected %#v", acc, got, exp)
		}
	}
	note := func(acc, text string, err error) {
		c.Seen(acc, text)
		if ne, ok := err.(*strconv.NumError); ok {
			if ne.Err == strconv.ErrRange {
				c.Count("saturated", 1)
			} else {
				c.Count("zero_fallback", 1)
			}
		}
	}
	ask := func(x *water.Context) {
		n := pick(r, append([]string{"absent", "ids", "m"}, names...))
		t, has := first(n)
		if !has {
			c.Count("absent", 1)
		}
		def := c20text(r)
		if r.Pct(50) {
			def = pick(r, []string{"7", "true", "-3", "2.5"})
		}
		dt := def
		if has {
			dt = t
		} else {
			c.Count("defaults", 1)
		}
		pb := func(acc, s string) bool { v, err := strconv.ParseBool(s); note(acc, s, err); return v }
		pi := func(acc, s string) int { v, err := strconv.ParseInt(s, 10, 0); note(acc, s, err); return int(v) }
		p64 := func(acc, s string) int64 { v, err := strconv.ParseInt(s, 10, 64); note(acc, s, err); return v }
		pu := func(acc, s string) uint64 { v, err := strconv.ParseUint(s, 10, 64); note(acc, s, err); return v }
		pf := func(acc, s string) float64 { v, err := strconv.ParseFloat(s, 64); note(acc, s, err); return v }
		arr := func() []string {
			var a []string
			for _, v := range want[n] {
				a = append(a, strings.TrimSpace(v))
			}
			return a
		}
		lab := func(s string) string { return fmt.Sprintf("%s %q (default %q)", s, n, def) }
		switch r.IntN(20) {
		case 0, 1:
			eq(lab("Query"), x.Query(n), t)
		case 2:
			eq(lab("QueryBool"), x.QueryBool(n), pb("bool", t))
		case 3:
			eq(lab("QueryInt"), x.QueryInt(n), pi("int", t))
		case 4:
			eq(lab("QueryInt64"), x.QueryInt64(n), p64("int64", t))
		case 5:
			eq(lab("QueryUint"), x.QueryUint(n), uint(pu("uint", t)))
		case 6:
			eq(lab("QueryUint64"), x.QueryUint64(n), pu("uint64", t))
		case 7:
			eq(lab("QueryFloat64"), x.QueryFloat64(n), pf("float64", t))
		case 8, 9:
			c.Count("arrays", 1)
			got := x.QueryArray(n)
			eq(lab("QueryArray"), got, arr())
			for i := range got { // what is returned is the caller's
				got[i] = "mine"
			}
		case 10, 11:
			k := pick(r, []string{"ids", "m", "id", "a", "absent", "ids]x"})
			g := group(k)
			c.Count("groups", len(g))
			got := x.QueryMap(k)
			eq("QueryMap "+k, got, g)
			for k := range got {
				got[k] = "mine"
			}
		case 12:
			k := pick(r, []string{"ids", "m", "id", "absent"})
			g := group(k)
			d := map[string]string{"d": "d"}
			if r.Pct(60) { // with keys the request may have sent as well
				for _, k := range []string{"a", "b", "a b", "k", "k2", "é", "s", ""} {
					if r.Pct(60) {
						d[k] = "default"
					}
				}
			}
			if r.Pct(30) {
				d = nil
			}
			e := g
			if len(g) == 0 {
				e = d
			}
			eq("DefaultQueryMap "+k, x.DefaultQueryMap(k, d), e)
		case 13:
			eq(lab("DefaultQuery"), x.DefaultQuery(n, def), dt)
		case 14:
			eq(lab("DefaultQueryBool"), x.DefaultQueryBool(n, def), pb("dbool", dt))
		case 15:
			eq(lab("DefaultQueryInt"), x.DefaultQueryInt(n, def), pi("dint", dt))
		case 16:
			eq(lab("DefaultQueryInt64"), x.DefaultQueryInt64(n, def), p64("dint64", dt))
		case 17:
			if r.Pct(50) {
				eq(lab("DefaultQueryUint"), x.DefaultQueryUint(n, def), uint(pu("duint", dt)))
			} else {
				eq(lab("DefaultQueryUint64"), x.DefaultQueryUint64(n, def), pu("duint64", dt))
			}
		case 18:
			eq(lab("DefaultQueryFloat64"), x.DefaultQueryFloat64(n, def), pf("dfloat", dt))
		case 19:
			d := []string{" d ", ""}
			if r.Pct(30) {
				d = nil
			}
			e := d
			if has {
				e = arr()
			}
			got := x.DefaultQueryArray(n, d)
			eq(lab("DefaultQueryArray"), got, e)
			if has {
				for i := range got {
					got[i] = "mine"
				}
			}
		}
		// path parameters: the text as it is
		c.Count("params", 1)
		n = pick(r, []string{"n0", "n1"})
		t = pv[n]
		lab = func(s string) string { return fmt.Sprintf("Params.%s %q", s, t) }
		strict := func(acc string, got any, err error, exp any, eerr error) {
			note("p"+acc, t, eerr)
			if eerr != nil {
				c.Count("strict_errors", 1)
			}
			if (err != nil) != (eerr != nil) {
				fail("Params", "%s gave error %v, expected %v", lab(acc), err, eerr)
				return
			}
			if err == nil {
				eq(lab(acc), got, exp)
			}
		}
		b, be := strconv.ParseBool(t)
		i, ie := strconv.ParseInt(t, 10, 64)
		u, ue := strconv.ParseUint(t, 10, 64)
		f, fe := strconv.ParseFloat(t, 64)
		p := x.Params
		switch r.IntN(8) {
		case 0:
			eq(lab("String"), p.String(n), t)
			eq("Param "+n, x.Param(n), t)
		case 1:
			v, err := p.Bool(n)
			strict("Bool", v, err, b, be)
			eq(lab("MustBool"), p.MustBool(n), b)
		case 2:
			v, err := p.Int(n)
			strict("Int", v, err, int(i), ie)
			eq(lab("MustInt"), p.MustInt(n), int(i))
		case 3:
			v, err := p.Int64(n)
			strict("Int64", v, err, i, ie)
			eq(lab("MustInt64"), p.MustInt64(n), i)
		case 4:
			v, err := p.Uint(n)
			strict("Uint", v, err, uint(u), ue)
			eq(lab("MustUint"), p.MustUint(n), uint(u))
		case 5:
			v, err := p.Uint64(n)
			strict("Uint64", v, err, u, ue)
			eq(lab("MustUint64"), p.MustUint64(n), u)
		case 6:
			v, err := p.Float64(n)
			strict("Float64", v, err, f, fe)
			eq(lab("MustFloat64"), p.MustFloat64(n), f)
		case 7:
			if _, panicked := try(func() { p.String("missing") }); !panicked {
				fail("Params", "a missing parameter did not panic")
			}
		}
	}
	rt := water.NewRouter()
	ran := false
	rt.ANY(pat, func(x *water.Context) {
		ran = true
		if r.Pct(20) { // looks at the form itself, too
			if bodyCounts && r.Pct(50) {
				x.Request.FormValue("a")
			} else {
				x.Request.ParseForm()
			}
			c.Count("parsed_before", 1)
		}
		for i := r.Rng(5, 25); i > 0; i-- {
			ask(x)
		}
		if kind == "json" || kind == "urlencoded" && !bodyCounts {
			c.Count("body_untouched", 1)
			b, err := io.ReadAll(x.Request.Body)
			if err != nil || !bytes.Equal(b, raw) {
				fail("body", "the accessors used up the body: %q left, %v", b, err)
			}
		}
	})
	req := Req(method, path)
	req.URL.RawQuery = rawq
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	if raw != nil {
		req.Body = io.NopCloser(bytes.NewReader(raw))
		req.ContentLength = int64(len(raw))
	} else {
		req.Body = http.NoBody
	}
	c.Eval()
	c.Count("requests", 1)
	if p, crashed := try(func() { Serve(rt.Handler(), req) }); crashed {
		c.Fail("crash", "%v for %s ?%s body(%s) %q", p, method, rawq, kind, raw)
		return
	}
	if !ran {
		panic("harness: no route for " + path)
	}
	c.Sample(func() any { return map[string]any{"query": rawq, "body": string(raw), "path": path} })
}
