package main

import (
	"crypto/tls"
	"fmt"
	"net/http"
	"reflect"
	"strings"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C27", Quick: 300000, Thor: 6000000,
		Rule: "a case is a request with a generated combination of forwarding, protocol, connection, content-type, ajax, upgrade and user-agent headers (absent, empty, lists with odd spacing, IPv4, IPv6, malformed, several lines, mixed case) and a peer address, in process, over plain and TLS connections; every accessor is compared with an independent reading of the headers. Non-trivial: at least two address sources present, or a malformed one; distinct by header combination.",
		Need: []string{"requests", "real_ip_header", "forwarded_first", "peer_v4", "peer_v6", "both_headers", "proxy_lists", "proto_forwarded", "proto_refused", "tls", "content_type_cut", "ajax", "websocket", "wire", "asked_again", "headers_changed"},
		Case: c27})
}

func c27(c *C) {
	r := c.R
	var hd [][2]string
	add := func(k, v string) { hd = append(hd, [2]string{k, v}) }
	ip := func() string {
		return r.Str("203.0.113.9", "10.0.0.1", "2001:db8::1", "[2001:db8::1]:4711", "192.0.2.1:80", "unknown", "_hidden", "::1", "fe80::1%eth0", "999.1.2.3", "localhost", "a b")
	}
	real := ""
	if r.Pct(35) {
		real = ip()
		if r.Pct(10) {
			real = ""
		}
		add(r.Str("X-Real-IP", "X-Real-Ip", "x-real-ip"), real)
	}
	var proxies []string
	xff := false
	if r.Pct(55) {
		xff = true
		n := r.Rng(1, 5)
		if r.Pct(3) {
			n = r.Rng(6, 300)
		}
		line := ""
		for i := 0; i < n; i++ {
			p := ip()
			if i == 0 && n > 1 && r.Pct(5) { // an empty first entry tells nothing
				p = ""
			}
			proxies = append(proxies, p)
			if i > 0 {
				line += r.Str(",", ", ", " , ", ",  ", " ,", ",\t", "\t, ")
			}
			line += p
		}
		if r.Pct(6) {
			line, proxies, xff = "", nil, false
		}
		add(r.Str("X-Forwarded-For", "x-forwarded-for"), line)
	}
	proto := ""
	if r.Pct(50) {
		proto = r.Str("http", "https", "https", "HTTPS", "ftp", "https, http", "wss", "", "h2", "httpsx", " https", "https ")
		add("X-Forwarded-Proto", proto)
		proto = strings.TrimSpace(proto)
	}
	ct := ""
	if r.Pct(60) {
		ct = r.Str("application/json", "text/html", "multipart/form-data", "x") + r.Str("", ";", "; charset=utf-8", " ; charset=utf-8", ";charset=\"a b\"", " charset", ";a=b; c=d", "; boundary=x;y")
		add("Content-Type", ct)
	}
	ajax := ""
	if r.Pct(50) {
		ajax = r.Str("XMLHttpRequest", "XMLHttpRequest", "xmlhttprequest", "XMLHttpRequest2", "fetch", "")
		add("X-Requested-With", ajax)
	}
	conn, up := "", ""
	wire := c.N%10 == 4
	secure := wire && c.N%20 == 4
	if r.Pct(60) {
		conn = r.Str("Upgrade", "upgrade", "keep-alive, Upgrade", "UPGRADE", "close", "keep-alive", "Upgrade, keep-alive", "upgrade,HTTP2-Settings", "x, Upgrade , y")
		if wire {
			conn = r.Str("close, Upgrade", "close, upgrade", "close", "Upgrade, close", "upgrade ,close")
		}
	}
	if r.Pct(60) {
		up = r.Str("websocket", "WebSocket", "WEBSOCKET", "h2c", "websocket2", "")
		add("Upgrade", up)
	}
	ua := ""
	if r.Pct(60) {
		ua = r.Str("Mozilla/5.0 (X11; Linux)", "curl/8", "", "a, b", "é")
		add("User-Agent", ua)
	}
	peer := pick(r, [][2]string{{"192.0.2.7:4711", "192.0.2.7"}, {"127.0.0.1:1", "127.0.0.1"}, {"[2001:db8::7]:65535", "2001:db8::7"}, {"[::1]:80", "::1"}, {"[fe80::1%eth0]:1234", "fe80::1%eth0"}, {"10.0.0.1", "10.0.0.1"}})
	wantIP := real
	switch {
	case real != "":
		c.Count("real_ip_header", 1)
		if xff {
			c.Count("both_headers", 1)
		}
	case xff:
		wantIP = proxies[0]
		c.Count("forwarded_first", 1)
	default:
		wantIP = ""
	}
	var got struct {
		ip, proto, ct, ua string
		proxy             []string
		ajax, ws          bool
		hdr               string
	}
	ran := 0
	again := ""
	rt := water.NewRouter()
	rt.ANY("/", func(x *water.Context) {
		ran++
		got.ip, got.proto, got.ct, got.ua, got.proxy, got.ajax, got.ws = x.RealIp(), x.Protocol(), x.ContentType(), x.UserAgent(), x.Proxy(), x.IsAjax(), x.IsWebsocket()
		got.hdr = x.GetHeader("x-requested-with")
		if r.Pct(30) { // asked again, perhaps after somebody saw to the headers
			c.Count("asked_again", 1)
			ip := got.ip
			if r.Pct(50) {
				c.Count("headers_changed", 1)
				ip = "198.51.100.77"
				if r.Pct(50) {
					x.Request = x.Request.Clone(x.Request.Context())
				}
				x.Request.Header.Set("X-Real-IP", ip)
				x.Request.Header.Set("X-Forwarded-For", "198.51.100.1, 198.51.100.2")
				x.Request.Header.Set("Content-Type", "text/later; x=y")
				x.Request.Header.Set("X-Forwarded-Proto", "https")
				x.Request.Header.Set("User-Agent", "later")
				if g := fmt.Sprint(x.ContentType(), x.Proxy(), x.Protocol(), x.UserAgent()); g != "text/later[198.51.100.1 198.51.100.2]httpslater" {
					again = "after the headers were changed: " + g
				}
			} else if x.ContentType() != got.ct || x.Protocol() != got.proto || x.UserAgent() != got.ua || !reflect.DeepEqual(x.Proxy(), got.proxy) {
				again = fmt.Sprint("asked again: ", x.ContentType(), x.Protocol(), x.UserAgent(), x.Proxy())
			}
			if g := x.RealIp(); g != ip {
				again = fmt.Sprintf("asked again the client address is %q, expected %q", g, ip)
			}
		}
		x.WriteHeader(200)
	})
	e := rt.Handler()
	method := r.Str("GET", "POST", "DELETE")
	c.Eval()
	c.Count("requests", 1)
	if real != "" && xff || xff && len(proxies) > 1 {
		c.Seen(hd, conn, peer)
	}
	desc := func() string {
		return fmt.Sprintf("%s from %s, headers %q, connection %q, TLS %v", method, peer[0], hd, conn, secure)
	}
	tlsOn := false
	if wire {
		c.Count("wire", 1)
		var h http.Handler = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			q.RemoteAddr = peer[0]
			if secure {
				q.TLS = &tls.ConnectionState{}
			}
			e.ServeHTTP(w, q)
		})
		tlsOn = secure
		s := Listen(h)
		defer s.Close()
		var b strings.Builder
		fmt.Fprintf(&b, "%s / HTTP/1.1\r\nHost: example.test\r\n", method)
		if conn == "" {
			conn = "close"
		}
		fmt.Fprintf(&b, "Connection: %s\r\n", conn)
		for _, h := range hd {
			fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
		}
		if res := s.Raw(method, []byte(b.String()+"\r\n")); res.Err != nil {
			c.Fail("no-answer", "%v\n%s", res, desc())
			return
		}
	} else {
		q := Req(method, "/")
		for _, h := range hd {
			q.Header.Add(h[0], strings.TrimSpace(h[1]))
		}
		if conn != "" {
			q.Header.Set("Connection", conn)
		}
		q.RemoteAddr = peer[0]
		if r.Pct(30) {
			q.TLS, tlsOn = &tls.ConnectionState{}, true
		}
		if p, crashed := try(func() { Serve(e, q) }); crashed {
			c.Fail("crash", "%v\n%s", p, desc())
			return
		}
	}
	if ran != 1 {
		c.Fail("no-answer", "the handler ran %d times\n%s", ran, desc())
		return
	}
	if again != "" {
		c.Fail("again", "%s\n%s", again, desc())
		return
	}
	if wantIP == "" {
		// the brackets of an IPv6 peer may stay
		want := peer[1]
		if strings.Contains(want, ":") {
			c.Count("peer_v6", 1)
			if got.ip == "["+want+"]" {
				want = got.ip
			}
		} else {
			c.Count("peer_v4", 1)
		}
		wantIP = want
	}
	if got.ip != wantIP {
		c.Fail("address", "client address %q, expected %q\n%s", got.ip, wantIP, desc())
	}
	if len(proxies) > 0 {
		c.Count("proxy_lists", 1)
	}
	if !reflect.DeepEqual(got.proxy, proxies) && len(got.proxy)+len(proxies) > 0 {
		c.Fail("proxies", "proxies %q, expected %q\n%s", got.proxy, proxies, desc())
	}
	wp := "http"
	if tlsOn {
		wp = "https"
		c.Count("tls", 1)
	}
	if proto == "http" || proto == "https" {
		wp = proto
		c.Count("proto_forwarded", 1)
	} else if proto != "" {
		c.Count("proto_refused", 1)
	}
	if got.proto != wp {
		c.Fail("protocol", "protocol %q, expected %q\n%s", got.proto, wp, desc())
	}
	wct := ct
	if i := strings.IndexAny(ct, " ;"); i >= 0 {
		wct = ct[:i]
		c.Count("content_type_cut", 1)
	}
	if got.ct != wct {
		c.Fail("content-type", "content type %q, expected %q\n%s", got.ct, wct, desc())
	}
	if wa := ajax == "XMLHttpRequest"; got.ajax != wa || got.hdr != ajax {
		c.Fail("ajax", "ajax %v, header %q\n%s", got.ajax, got.hdr, desc())
	} else if wa {
		c.Count("ajax", 1)
	}
	if ww := strings.Contains(strings.ToLower(conn), "upgrade") && strings.EqualFold(up, "websocket"); got.ws != ww {
		c.Fail("websocket", "websocket %v, expected %v\n%s", got.ws, ww, desc())
	} else if ww {
		c.Count("websocket", 1)
	}
	if got.ua != ua {
		c.Fail("user-agent", "user agent %q, expected %q\n%s", got.ua, ua, desc())
	}
	c.Sample(func() any {
		return map[string]any{"headers": hd, "peer": peer[0], "address": got.ip, "proxies": got.proxy}
	})
}
