package main

import (
	"bytes"
	"fmt"
	"html"
	"net/http"
	"net/http/cookiejar"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C22", Quick: 60000, Thor: 1000000,
		Rule: "a case is a handler setting up to five cookies (valid and invalid names, values over all cookie characters, markup and numbers, every prefix of the attribute list with every argument type, interleaved with other headers), read by a raw client, a browser-like echo of the received pairs and a cookie jar; the next request's readers are compared with the values set. Non-trivial: attributes present, values needing quotes, repeated or invalid names; distinct by the attribute list and value class.",
		Need: []string{"set", "echoed", "jar", "invalid_names", "several", "same_name", "quoted", "max_age", "max_age_negative", "path", "domain", "secure", "http_only", "same_site", "typed", "typed_fallback", "escaped_markup", "absent", "wire"},
		Case: c22})
}

type c22set struct {
	name, value string
	others      []interface{}
	valid       bool
	attrs       []string // expected, in any order
}

func c22value(r R) string {
	switch r.IntN(8) {
	case 7:
		return strings.Repeat(r.Str("%41", "a%20b", "%zz", "+", "%", "%e4%b8%ad", "%25", "&#65", "=?"), r.Tail(1, 5, 300))
	case 0:
		return pick(r, c16ints)
	case 1:
		return pick(r, c16floats)
	case 2:
		return pick(r, []string{"true", "false", "1", "0", "T", "yes", "tRUE", "NaN", "-Inf", "0x10", "1e3", "99999999999999999999", "-99999999999999999999", "1e999"})
	case 3:
		return r.Str("<script>alert(1)</script>", "a&b", "'quoted'", "<", "&amp", "a<b>c'd&e")
	case 4:
		return r.Str("", " ", "a b", "a,b", " lead", "trail ", ",", "a=b", "a==")
	}
	s := make([]byte, r.Rng(1, 40))
	if r.Pct(3) {
		s = make([]byte, r.Rng(2000, 20000))
	}
	for i := range s {
		for {
			s[i] = byte(r.Rng(0x20, 0x7e))
			if s[i] != '"' && s[i] != ';' && s[i] != '\\' {
				break
			}
		}
	}
	return string(s)
}

func c22(c *C) {
	r := c.R
	var sets []c22set
	for i := r.Tail(1, 5, 150); i > 0; i-- {
		s := c22set{name: pick(r, []string{"a", "b", "session", "_ga", "a.b", "X-Tok!#$%&'*+^`|~", "A", r.Word()}), value: c22value(r), valid: true}
		if r.Pct(15) {
			s.name, s.valid = pick(r, []string{"", "a b", "a;b", "a=b", "é", "a\n", "a\r\nX-Evil: 1", "a,b", "\"a\"", "a\x00", "a\t"}), false
			c.Count("invalid_names", 1)
		}
		path := "/"
		n := r.IntN(7)
		add := func(v interface{}, attr string) {
			s.others = append(s.others, v)
			if attr != "" {
				s.attrs = append(s.attrs, attr)
				if s.valid {
					c.Count(map[string]string{"Max-": "max_age", "Doma": "domain", "Secu": "secure", "Http": "http_only", "Same": "same_site"}[attr[:4]], 1)
				}
			}
		}
		if n > 0 {
			ages := []interface{}{0, nil, int32(0), int64(0)}
			m := pick(r, []int{1, 60, 86400, 2147483647})
			if r.Pct(60) {
				age := pick(r, []interface{}{m, int32(m), int64(m)})
				if r.Pct(15) {
					m = pick(r, []int{1 << 31, 4294967296, 4294967297, 1 << 40})
					age = pick(r, []interface{}{m, int64(m)})
				}
				add(age, fmt.Sprint("Max-Age=", m))
			} else if r.Pct(30) {
				c.Count("max_age_negative", 1)
				add(pick(r, []interface{}{-1, int32(-5), int64(-1)}), "Max-Age=0")
			} else {
				add(pick(r, ages), "")
			}
		}
		if n > 1 {
			switch r.IntN(4) {
			case 0:
				add("", "")
			case 1:
				add(nil, "")
			default:
				path = r.Str("/", "/a", "/a/b/", "/x y", "/z", "a/b", "/a?b", ".")
				add(path, "")
				c.Count("path", 1)
			}
		}
		if n > 2 {
			switch r.IntN(4) {
			case 0:
				add("", "")
			case 1:
				add(nil, "")
			default:
				d := r.Str("example.test", "sub.example.test", "127.0.0.1", "localhost", "a-b.c1.test")
				add(d, "Domain="+d)
			}
		}
		if n > 3 {
			switch r.IntN(4) {
			case 0:
				add(false, "")
			case 1:
				add(nil, "")
			case 2:
				add(pick(r, []interface{}{1, "yes"}), "Secure")
			default:
				add(true, "Secure")
			}
		}
		if n > 4 {
			switch r.IntN(3) {
			case 0:
				add(false, "")
			case 1:
				add(nil, "")
			default:
				add(true, "HttpOnly")
			}
		}
		if n > 5 {
			switch r.IntN(5) {
			case 0:
				add(nil, "")
			case 1:
				add(http.SameSiteLaxMode, "SameSite=Lax")
			case 2:
				add(http.SameSiteStrictMode, "SameSite=Strict")
			case 3:
				add(http.SameSiteNoneMode, "SameSite=None")
			default:
				add(http.SameSiteDefaultMode, "")
			}
		}
		s.attrs = append(s.attrs, "Path="+path)
		sort.Strings(s.attrs)
		sets = append(sets, s)
	}
	var got []string // readings of the second request
	var typed []any
	names := []string{}
	rt := water.NewRouter()
	rt.GET("/set", func(x *water.Context) {
		if r.Pct(20) {
			x.Header().Add("Set-Cookie", "other=1")
		}
		for _, s := range sets {
			x.SetCookie(s.name, s.value, s.others...)
		}
		x.WriteHeader(200)
	})
	rt.GET("/get", func(x *water.Context) {
		got, typed = nil, nil
		for _, n := range names {
			got = append(got, x.Cookie(n), x.CookieEscape(n))
			typed = append(typed, x.CookieBool(n), x.CookieInt(n), x.CookieInt64(n), x.CookieUint(n), x.CookieUint64(n), x.CookieFloat64(n))
		}
	})
	e := rt.Handler()
	bad := false
	fail := func(sig, format string, a ...any) {
		if !bad {
			bad = true
			c.Fail(sig, "%s\nset %+v", fmt.Sprintf(format, a...), sets)
		}
	}
	wire := c.N%6 == 1
	var srv *Server
	if wire {
		srv = Listen(e)
		defer srv.Close()
	}
	do := func(path string, hdr ...[2]string) *http.Response {
		if wire {
			c.Count("wire", 1)
			res := srv.Get("GET", path, hdr...)
			if res.Err != nil {
				fail("no-answer", "%v", res)
				return nil
			}
			return &http.Response{StatusCode: res.Status, Header: res.Head}
		}
		q := Req("GET", path)
		for _, h := range hdr {
			q.Header.Add(h[0], h[1])
		}
		rec := NewRec()
		if p, crashed := try(func() { e.ServeHTTP(rec, q) }); crashed {
			fail("crash", "%v", p)
			return nil
		}
		return &http.Response{StatusCode: rec.Status(), Header: rec.H}
	}
	c.Eval()
	res := do("/set")
	if res == nil {
		return
	}
	var lines []string
	for _, l := range res.Header["Set-Cookie"] {
		if l != "other=1" {
			lines = append(lines, l)
		}
	}
	var valid []c22set
	for _, s := range sets {
		if s.valid {
			valid = append(valid, s)
			c.Seen(s.others, fmt.Sprintf("%T", s.others), len(s.value), s.attrs)
		}
	}
	if len(res.Header["X-Evil"]) > 0 || len(lines) != len(valid) {
		fail("lines", "received %q", res.Header)
		return
	}
	if len(valid) > 1 {
		c.Count("several", 1)
	}
	echo := []string{}
	seen := map[string]int{}
	for i, s := range valid {
		c.Count("set", 1)
		l := strings.Split(lines[i], ";")
		pair := l[0]
		var attrs []string
		for _, a := range l[1:] {
			attrs = append(attrs, strings.TrimSpace(a))
		}
		sort.Strings(attrs)
		n, v, _ := strings.Cut(pair, "=")
		if len(v) > 1 && v[0] == '"' && v[len(v)-1] == '"' {
			v = v[1 : len(v)-1]
			c.Count("quoted", 1)
		}
		if n != s.name || v != s.value {
			fail("value", "line %d is %q, set name %q value %q", i, lines[i], s.name, s.value)
		}
		if !reflect.DeepEqual(attrs, s.attrs) {
			fail("attributes", "line %d is %q, expected attributes %q", i, lines[i], s.attrs)
		}
		if _, dup := seen[s.name]; dup {
			c.Count("same_name", 1)
		}
		seen[s.name] = i
		echo = append(echo, pair)
	}
	if bad {
		return
	}
	// the next request, as a browser: pairs verbatim, the first of a name counts
	first := map[string]string{}
	var send []string
	order := r.Perm(len(valid))
	for _, i := range order {
		if _, dup := first[valid[i].name]; !dup {
			first[valid[i].name] = valid[i].value
		}
		send = append(send, echo[i])
	}
	for n := range first {
		names = append(names, n)
	}
	sort.Strings(names)
	names = append(names, "missing", "Session", "")
	check := func(how string, want map[string]string) {
		if len(got) != 2*len(names) {
			fail("no-answer", "%s: the reader did not run", how)
			return
		}
		for i, n := range names {
			v := want[n]
			c.Count("echoed", 1)
			if v == "" {
				c.Count("absent", 1)
			}
			if got[2*i] != v {
				fail("read", "%s: cookie %q reads %q, was set to %q", how, n, got[2*i], v)
			}
			esc := got[2*i+1]
			if strings.ContainsAny(esc, "<>'\"") || html.UnescapeString(esc) != v {
				fail("escape", "%s: cookie %q with value %q reads escaped as %q", how, n, v, esc)
			}
			if strings.ContainsAny(v, "<>'&") {
				c.Count("escaped_markup", 1)
			}
			b, be := strconv.ParseBool(v)
			in, ie := strconv.ParseInt(v, 10, 64)
			u, _ := strconv.ParseUint(v, 10, 64)
			f, _ := strconv.ParseFloat(v, 64)
			exp := []any{b, int(in), in, uint(u), u, f}
			t := typed[6*i : 6*i+6]
			if be == nil || ie == nil {
				c.Count("typed", 1)
			} else {
				c.Count("typed_fallback", 1)
			}
			for k := range exp {
				if fmt.Sprintf("%T %v", t[k], t[k]) != fmt.Sprintf("%T %v", exp[k], exp[k]) {
					fail("typed", "%s: cookie %q with value %q reads as %T %v, expected %v", how, n, v, exp[k], t[k], exp[k])
				}
			}
		}
	}
	var hdr [][2]string
	if len(send) > 1 && r.Pct(30) { // two header lines
		k := r.Rng(1, len(send)-1)
		hdr = [][2]string{{"Cookie", strings.Join(send[:k], "; ")}, {"Cookie", strings.Join(send[k:], "; ")}}
	} else {
		hdr = [][2]string{{"Cookie", strings.Join(send, "; ")}}
	}
	got = nil
	if do("/get", hdr...) != nil {
		check("echo", first)
	}
	// and through a standard cookie jar
	jar, err := cookiejar.New(nil)
	must(err)
	u, _ := url.Parse("https://example.test/a/b/c")
	jar.SetCookies(u, (&http.Response{Header: http.Header{"Set-Cookie": lines}}).Cookies())
	want := map[string]string{}
	q := Req("GET", "/get")
	for _, k := range jar.Cookies(u) {
		if _, dup := want[k.Name]; !dup {
			want[k.Name] = k.Value
		}
		q.AddCookie(k)
	}
	for n := range want {
		if i, ok := seen[n]; !ok || bytes.Equal(nil, []byte(valid[i].name)) {
			fail("jar", "the jar holds %q, which was not set", n)
		}
	}
	if len(want) > 0 && !wire {
		c.Count("jar", 1)
		got = nil
		if l := q.Header.Get("Cookie"); l != "" && do("/get", [2]string{"Cookie", l}) != nil {
			check("jar", want)
		}
	}
	c.Sample(func() any { return map[string]any{"lines": lines, "cookie": send} })
}
