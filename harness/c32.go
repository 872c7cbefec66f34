package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C32", Quick: 240, Thor: 1500, Serial: true,
		Rule: "a case starts an engine through one of its four start functions on a free loopback address (or on one that cannot work: taken, malformed, too many, a broken certificate) and speaks to it over plain HTTP, TLS and HTTP/2; in the background exchanges that take half a minute run to their end; answers are compared with the same engine's answers in process, errors with what the situation allows. Non-trivial: a request answered over the network or a refused start; distinct by start function, address form, fault and protocol.",
		Need: []string{"started", "Run", "ListenAndServe", "RunTLS", "ListenAndServeTLS", "requests", "h2", "tls1", "plain_on_tls", "taken", "bad_address", "too_many", "bad_certificate", "default_refused", "bound_elsewhere", "bound_everywhere", "long_headers", "slow_up", "slow_down", "slow_wait", "slow_head", "odd_targets", "huge_bodies", "at_a_time"},
		Before: func(e *Env) {
			c32certs(e, "a", "water.test")
			c32certs(e, "b", "other.test")
			must(os.WriteFile(filepath.Join(e.Dir, "junk.pem"), []byte("-----BEGIN NOTHING-----\nAAAA\n-----END NOTHING-----\n"), 0o600))
			c32slow(e)
		},
		After: func(e *Env) {
			c32slowly.Wait()
			if err := guarded(e, 0, func(c *C) {
				for _, f := range c32late {
					c.Fail("slow", "%s", f)
				}
			}); err != nil {
				panic(err)
			}
		},
		Case: c32})
}

var (
	c32slowly sync.WaitGroup
	c32late   []string
)

// c32slow begins, while the cases run, an upload, a download and a handler that take half a minute each at
// engines started in each way: an exchange lasts as long as the client and the handler need.
func c32slow(e *Env) {
	const ticks = 22
	lasts := 33 * time.Second
	if e.Thorough() {
		lasts = 66 * time.Second
	}
	piece := strings.Repeat("0123456789", 500)
	rt := water.NewRouter()
	rt.POST("/up", func(x *water.Context) {
		n, err := io.Copy(io.Discard, x.Request.Body)
		x.String(200, fmt.Sprint(n, err))
	})
	rt.GET("/down", func(x *water.Context) {
		for i := 0; i < ticks; i++ {
			if _, err := io.WriteString(x, piece); err != nil {
				return
			}
			time.Sleep(lasts / ticks)
		}
	})
	rt.GET("/here", func(x *water.Context) { x.String(200, "here") })
	rt.GET("/wait", func(x *water.Context) {
		select {
		case <-x.Request.Context().Done():
			x.String(500, "cancelled: "+x.Request.Context().Err().Error())
		case <-time.After(lasts):
			x.String(200, "waited")
		}
	})
	eng := rt.Handler()
	cert, key := filepath.Join(e.Dir, "a.crt"), filepath.Join(e.Dir, "a.key")
	var mu sync.Mutex
	late := func(format string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		c32late = append(c32late, fmt.Sprintf(format, a...))
	}
	for name, start := range map[string]func(addr string) error{
		"Run": func(a string) error { return eng.Run(a) }, "ListenAndServe": eng.ListenAndServe,
		"RunTLS":            func(a string) error { return eng.RunTLS(a, cert, key) },
		"ListenAndServeTLS": func(a string) error { return eng.ListenAndServeTLS(a, cert, key) },
	} {
		addr := ""
		for try := 0; addr == ""; try++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			must(err)
			a := l.Addr().String()
			l.Close()
			ch := c32start(func() error { return start(a) })
			for k := 0; k < 3000 && addr == ""; k++ {
				if conn, err := net.DialTimeout("tcp", a, time.Second); err == nil {
					conn.Close()
					addr = a
				} else if err, ended := c32wait(ch, 10*time.Millisecond); ended {
					if try == 5 {
						late("%s(%q): returned %v", name, a, err)
						return
					}
					break
				}
			}
		}
		scheme, protos := "http", []bool{false}
		if strings.HasSuffix(name, "TLS") {
			scheme, protos = "https", []bool{false, true}
		}
		for _, h2 := range protos {
			if !h2 {
				c32slowly.Add(1)
				go func() {
					defer c32slowly.Done()
					conn, err := net.DialTimeout("tcp", addr, 10*time.Second)
					must(err)
					defer conn.Close()
					if scheme == "https" {
						conn = tls.Client(conn, &tls.Config{RootCAs: c32pools["a"], ServerName: "water.test"})
					}
					conn.SetDeadline(time.Now().Add(lasts + 90*time.Second))
					lines := []string{"GET /here HT", "TP/1.1\r\n", "Host: water.test\r\nX-", "Slow: ", "yes\r\n", "Connection: close\r\n", "\r\n"}
					for _, l := range lines {
						if _, err = io.WriteString(conn, l); err != nil {
							break
						}
						time.Sleep(lasts / time.Duration(len(lines)))
					}
					got, _ := io.ReadAll(conn)
					if err != nil || !strings.HasPrefix(string(got), "HTTP/1.1 200 ") || !strings.HasSuffix(string(got), "here") {
						late("%s: GET /here, its head sent over %v: %.200q, %v", name, lasts, got, err)
						return
					}
					e.Count("slow_head", 1)
					e.Eval()
					e.Seen("slow", "head", name)
				}()
			}
			for _, what := range []string{"up", "down", "wait"} {
				c32slowly.Add(1)
				go func() {
					defer c32slowly.Done()
					cl := c32client(h2)
					cl.Timeout = lasts + 90*time.Second
					defer cl.CloseIdleConnections()
					method, want := "GET", "waited"
					var body io.Reader
					switch what {
					case "up":
						method, want = "POST", fmt.Sprint(ticks*len(piece), nil)
						pr, pw := io.Pipe()
						body = pr
						go func() {
							for i := 0; i < ticks; i++ {
								time.Sleep(lasts / ticks)
								if _, err := io.WriteString(pw, piece); err != nil {
									return
								}
							}
							pw.Close()
						}()
					case "down":
						want = strings.Repeat(piece, ticks)
					}
					q, err := http.NewRequest(method, scheme+"://"+addr+"/"+what, body)
					must(err)
					since := time.Now()
					resp, err := cl.Do(q)
					var got []byte
					status := 0
					if err == nil {
						got, err = io.ReadAll(resp.Body)
						resp.Body.Close()
						status = resp.StatusCode
					}
					if err != nil || status != 200 || string(got) != want {
						late("%s: %s /%s, which takes %v, over HTTP/2 %v: after %v status %d, %d bytes %.100q instead of %d, %v", name, method, what, lasts, h2, time.Since(since), status, len(got), got, len(want), err)
						return
					}
					e.Count("slow_"+what, 1)
					e.Eval()
					e.Seen("slow", what, name, h2)
				}()
			}
		}
	}
}

// c32client speaks to the engines, over TLS with HTTP/2 or without.
func c32client(h2 bool) *http.Client {
	t := &http.Transport{DisableCompression: true, ForceAttemptHTTP2: h2,
		TLSClientConfig: &tls.Config{RootCAs: c32pools["a"], ServerName: "water.test"}}
	if !h2 {
		t.TLSNextProto = map[string]func(string, *tls.Conn) http.RoundTripper{}
	}
	return &http.Client{Transport: t, Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
}

var c32pools = map[string]*x509.CertPool{}

func c32certs(e *Env, n, host string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	kb, err := x509.MarshalECPrivateKey(k)
	must(err)
	must(os.WriteFile(filepath.Join(e.Dir, n+".crt"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	must(os.WriteFile(filepath.Join(e.Dir, n+".key"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600))
	c, err := x509.ParseCertificate(der)
	must(err)
	c32pools[n] = x509.NewCertPool()
	c32pools[n].AddCert(c)
}

// start calls f on a goroutine of its own and reports its end.
func c32start(f func() error) chan error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- fmt.Errorf("PANIC %v", p)
			}
		}()
		ch <- f()
	}()
	return ch
}

func c32wait(ch chan error, d time.Duration) (error, bool) {
	select {
	case err := <-ch:
		return err, true
	case <-time.After(d):
		return nil, false
	}
}

func c32(c *C) {
	r := c.R
	tag := fmt.Sprintf("case-%d-%x", c.N, r.Uint32())
	rt := water.NewRouter()
	rt.GET("/who/<name>", func(x *water.Context) {
		x.String(200, fmt.Sprint(tag, " ", x.Params.String("name"), " ", x.FullPath(), " ", len(x.GetHeader("X-Long")), " ", x.Request.URL.Path, " ", x.Request.URL.RawQuery, " ", x.Request.RequestURI, " ", x.Request.Host))
	})
	rt.POST("/echo", func(x *water.Context) {
		b, err := x.BodyBytes()
		if err != nil {
			x.Abort(500)
			return
		}
		x.Data(201, "application/x-thing", b)
	})
	var together atomic.Value
	rt.GET("/together", func(x *water.Context) { x.String(200, fmt.Sprint(together.Load().(func() bool)())) })
	rt.GET("/none", func(x *water.Context) { x.NotModified() })
	var opts []water.Option
	if r.Pct(30) {
		opts = append(opts, water.WithNoFoundHandlers(func(x *water.Context) { x.String(410, tag+" gone") }))
	}
	e := rt.Handler(opts...)

	names := []string{"Run", "ListenAndServe", "RunTLS", "ListenAndServeTLS"}
	name := names[c.N%4]
	overTLS := strings.HasSuffix(name, "TLS")
	cert, key := filepath.Join(c.Dir, "a.crt"), filepath.Join(c.Dir, "a.key")
	call := func(addr string) func() error {
		switch name {
		case "Run":
			return func() error { return e.Run(addr) }
		case "ListenAndServe":
			return func() error { return e.ListenAndServe(addr) }
		case "RunTLS":
			return func() error { return e.RunTLS(addr, cert, key) }
		}
		return func() error { return e.ListenAndServeTLS(addr, cert, key) }
	}
	c.Eval()
	c.Count(name, 1)
	refused := func(what, addr string, ch chan error, want func(error) bool) {
		err, ended := c32wait(ch, 60*time.Second)
		switch {
		case !ended:
			c.Fail("no error", "%s(%q) is still running, though it cannot work: %s", name, addr, what)
		case err == nil || strings.HasPrefix(err.Error(), "PANIC") || want != nil && !want(err):
			c.Fail("no error", "%s(%q) returned %v, though it cannot work: %s", name, addr, err, what)
		default:
			c.Count(what, 1)
			c.Seen(name, what, addr == "")
		}
	}
	inUse := func(err error) bool { return errors.Is(err, syscall.EADDRINUSE) }

	switch r.IntN(9) {
	case 0:
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		defer l.Close()
		refused("taken", l.Addr().String(), c32start(call(l.Addr().String())), inUse)
		return
	case 1:
		a := pick(r, []string{"127.0.0.1", "127.0.0.1:99999", "127.0.0.1:-1", "127.0.0.1:80:80", "[::1:80", "127.0.0.1:port-of-nothing"})
		refused("bad_address", a, c32start(call(a)), nil)
		return
	case 2:
		args := []string{"127.0.0.1:0", "127.0.0.1:0", "127.0.0.1:0"}[:r.Rng(2, 3)]
		ch := make(chan any, 1)
		go func() {
			p, _ := try(func() { ch <- fmt.Sprint("returned ", e.Run(args...)) })
			ch <- p
		}()
		select {
		case p := <-ch:
			if s := fmt.Sprint(p); p == nil || strings.HasPrefix(s, "returned") {
				c.Fail("too many", "Run(%q) %v", args, p)
			}
			c.Count("too_many", 1)
			c.Seen("too many", len(args))
		case <-time.After(30 * time.Second):
			c.Fail("too many", "Run(%q) runs", args)
		}
		return
	case 3:
		if !overTLS {
			// without an address: port 8080 of every interface, which is taken here
			l, err := net.Listen("tcp", ":8080")
			if err == nil {
				defer l.Close()
			}
			name = "Run()"
			os.Setenv("PORT", "8123")
			defer os.Unsetenv("PORT")
			refused("default_refused", "", c32start(func() error { return e.Run() }), func(err error) bool {
				var oe *net.OpError
				return inUse(err) && errors.As(err, &oe) && oe.Addr != nil && strings.HasSuffix(oe.Addr.String(), ":8080")
			})
			return
		}
		cert, key = filepath.Join(c.Dir, r.Str("a.crt", "missing", "junk.pem", "b.crt", "a.key")), filepath.Join(c.Dir, r.Str("missing", "junk.pem", "b.key", "a.crt"))
		if strings.HasSuffix(cert, "b.crt") && strings.HasSuffix(key, "b.key") {
			key += "x"
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		addr := l.Addr().String()
		l.Close()
		refused("bad_certificate", addr, c32start(call(addr)), nil)
		if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			conn.Close()
			c.Fail("left open", "%s(%q, %q, %q) failed, and something listens there", name, addr, cert, key)
		}
		return
	}

	// a start that works; somebody else may take the port in between
	host := pick(r, []string{"127.0.0.1", "127.0.0.1", "127.0.0.2", ""})
	if r.Pct(50) { // no business of the start functions
		for k, v := range map[string]string{"PORT": "1", "HOST": "192.0.2.1", "ADDR": "192.0.2.1:1", "WATER_ADDR": ":1"} {
			os.Setenv(k, v)
			defer os.Unsetenv(k)
		}
	}
	if name == "Run" && c.N == 0 {
		host = "default"
	}
	var ch chan error
	var addr, dial string
	for try := 0; ; try++ {
		if host == "default" {
			addr, dial = ":8080", "127.0.0.1:8080"
			l, err := net.Listen("tcp", addr)
			if err != nil {
				host = "127.0.0.1"
				continue
			}
			l.Close()
			ch = c32start(func() error { return e.Run() })
		} else {
			l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
			must(err)
			_, port, _ := net.SplitHostPort(l.Addr().String())
			addr = host + ":" + port
			dial = addr
			if host == "" {
				dial = "127.0.0.1" + addr
			}
			l.Close()
			ch = c32start(call(addr))
		}
		up := false
		var ended bool
		var err error
		for k := 0; k < 3000 && !up && !ended; k++ {
			conn, derr := net.DialTimeout("tcp", dial, time.Second)
			if derr == nil {
				conn.Close()
				up = true
				break
			}
			err, ended = c32wait(ch, 10*time.Millisecond)
		}
		if up {
			break
		}
		if ended && inUse(err) && try < 5 {
			continue
		}
		c.Fail("start", "%s(%q): returned %v %v, and nothing listens on %s", name, addr, ended, err, dial)
		return
	}
	c.Count("started", 1)

	// what the engine answers, compared with the same engine in process
	var clients []*http.Client
	var labels []string
	tr := c32client
	scheme := "http"
	if overTLS {
		scheme = "https"
		clients = append(clients, tr(false), tr(true))
		labels = append(labels, "tls1", "h2")
	} else {
		clients = append(clients, tr(false))
		labels = append(labels, "plain")
	}
	var wg sync.WaitGroup
	for i, cl := range clients {
		for k := r.Rng(2, 5); k > 0; k-- {
			method, path := "GET", "/who/"+r.Word()
			if r.Pct(80) { // spelled so that a server may be tempted to tidy it up
				path = pick(r, []string{"/who/a%2Fb", "//who//x", "/who/./x", "/who/../who/y", "/who/%41%20b", "/who/x/"}) + pick(r, []string{"", "?a=1;b=2&c", "?;", "?a=1&b;c=d", "?c=%zz&d=+%20", "?", "?q=/../&&"})
				c.Count("odd_targets", 1)
			}
			var body []byte
			switch r.IntN(5) {
			case 0:
				path = "/nowhere"
			case 1:
				path = "/none"
			case 2, 3:
				method, path = "POST", "/echo"
				body = r.Bytes(pick(r, []int{0, 1, 5000, 300000}))
				if r.OneIn(40) {
					body = bytes.Repeat(append(body, "abcdefghijklmnop"...), 45<<20/(len(body)+16))
					c.Count("huge_bodies", 1)
				}
			}
			long := "x" + r.From("abc ", pick(r, []int{1, 1, 5000, 100_000, 500_000, 800_000})) + "."
			if len(long) > 1000 {
				c.Count("long_headers", 1)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				q := Req(method, path)
				u, err := url.ParseRequestURI(path)
				must(err)
				q.URL, q.RequestURI, q.Host = u, path, dial
				q.Body = io.NopCloser(bytes.NewReader(body))
				q.Header.Set("X-Long", long)
				want := Serve(e, q)
				hq, err := http.NewRequest(method, scheme+"://"+dial+path, bytes.NewReader(body))
				must(err)
				hq.Header.Set("X-Long", long)
				resp, err := cl.Do(hq)
				c.Count("requests", 1)
				if err != nil {
					c.Fail("request", "%s(%q): %s %s over %s failed: %v", name, addr, method, path, labels[i], err)
					return
				}
				got, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if labels[i] == "h2" && resp.ProtoMajor != 2 {
					c.Fail("protocol", "%s(%q): %s instead of HTTP/2", name, addr, resp.Proto)
					return
				}
				c.Count(labels[i], 1)
				c.Seen(name, host, labels[i], method, path, len(body))
				if err != nil || resp.StatusCode != want.Status() || !bytes.Equal(got, want.Body.Bytes()) || resp.Header.Get("Content-Type") != want.H.Get("Content-Type") {
					c.Fail("answer", "%s(%q): %s %s over %s answered %d %q %.100q (%v), in process %d %q %.100q", name, addr, method, path, labels[i],
						resp.StatusCode, resp.Header.Get("Content-Type"), got, err, want.Status(), want.H.Get("Content-Type"), want.Body.Bytes())
				}
			}()
		}
	}
	wg.Wait()
	if r.Pct(30) { // many at a time, each waiting for all of them
		k := r.IntN(len(clients))
		n := r.Rng(20, 150)
		all, missed := make(chan bool), make(chan string, n)
		var here atomic.Int32
		together.Store(func() bool {
			if int(here.Add(1)) == n {
				close(all)
			}
			select {
			case <-all:
				return true
			case <-time.After(40 * time.Second):
				return false
			}
		})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				resp, err := clients[k].Get(scheme + "://" + dial + "/together")
				if err != nil {
					missed <- err.Error()
					return
				}
				b, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				if string(b) != "true" {
					missed <- fmt.Sprintf("%d %.100q", resp.StatusCode, b)
				}
			}()
		}
		wg.Wait()
		c.Eval()
		c.Count("at_a_time", n)
		c.Seen("together", name, n, k)
		if len(missed) > 0 {
			c.Fail("together", "%s(%q): of %d requests at a time over %s %d were not served: %s", name, addr, n, labels[k], len(missed), <-missed)
		}
	}
	for _, cl := range clients {
		cl.CloseIdleConnections()
	}
	if overTLS { // plain HTTP must not get through
		conn, err := net.DialTimeout("tcp", dial, 10*time.Second)
		must(err)
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		fmt.Fprintf(conn, "GET /who/me HTTP/1.1\r\nHost: water.test\r\nConnection: close\r\n\r\n")
		b, _ := io.ReadAll(conn)
		conn.Close()
		if bytes.Contains(b, []byte(tag)) {
			c.Fail("plain", "%s(%q) answers plain HTTP: %.200q", name, addr, b)
		}
		c.Count("plain_on_tls", 1)
	}
	if strings.HasPrefix(addr, ":") { // every address of the machine
		for _, other := range []string{"127.0.0.1", "127.0.0.4", "[::1]"} {
			l, err := net.Listen("tcp", other+":0")
			if err != nil {
				continue
			}
			l.Close()
			conn, err := net.DialTimeout("tcp", other+addr, 10*time.Second)
			if err != nil {
				c.Fail("not everywhere", "%s(%q): nothing listens on %s: %v", name, addr, other+addr, err)
				continue
			}
			conn.Close()
			c.Count("bound_everywhere", 1)
		}
	}
	if strings.HasPrefix(host, "127.") { // bound to the address asked for and no other
		_, port, _ := net.SplitHostPort(addr)
		other := map[string]string{"127.0.0.1": "127.0.0.3", "127.0.0.2": "127.0.0.1"}[host]
		if conn, err := net.DialTimeout("tcp", other+":"+port, 5*time.Second); err == nil {
			fmt.Fprintf(conn, "GET /who/me HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
			conn.SetDeadline(time.Now().Add(10 * time.Second))
			b, _ := io.ReadAll(conn)
			conn.Close()
			if bytes.Contains(b, []byte(tag)) {
				c.Fail("elsewhere", "%s(%q) answers on %s too", name, addr, other)
			}
		}
		c.Count("bound_elsewhere", 1)
	}
	if err, ended := c32wait(ch, 0); ended {
		c.Fail("ended", "%s(%q) returned %v while serving", name, addr, err)
	}
	c.Sample(func() any { return map[string]any{"start": name, "address": addr} })
}
