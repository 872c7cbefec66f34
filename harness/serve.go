package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/meilihao/water"
)

// Rec is a strict in-process http.ResponseWriter: it records heads and bytes like net/http would send them.
type Rec struct {
	H       http.Header
	Interim []int       // informational heads before the answer
	Codes   []int       // every WriteHeader that reached the connection
	Head    http.Header // snapshot at the first WriteHeader
	Body    bytes.Buffer
	Writes  int
	Flushs  int
}

func NewRec() *Rec                 { return &Rec{H: http.Header{}} }
func (r *Rec) Header() http.Header { return r.H }
func (r *Rec) WriteHeader(code int) {
	if len(r.Codes) == 0 && code >= 100 && code < 200 && code != 101 {
		r.Interim = append(r.Interim, code)
		return
	}
	if len(r.Codes) == 0 {
		r.Head = r.H.Clone()
	}
	r.Codes = append(r.Codes, code)
}
func (r *Rec) Write(b []byte) (int, error) {
	if len(r.Codes) == 0 {
		r.WriteHeader(200)
	}
	r.Writes++
	return r.Body.Write(b)
}
func (r *Rec) WriteString(s string) (int, error) { return r.Write([]byte(s)) }
func (r *Rec) ReadFrom(src io.Reader) (n int64, err error) {
	return io.Copy(struct{ io.Writer }{r}, src)
}
func (r *Rec) Flush() {
	if len(r.Codes) == 0 {
		r.WriteHeader(200)
	}
	r.Flushs++
}
func (r *Rec) CloseNotify() <-chan bool { return make(chan bool) }
func (r *Rec) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return nil, nil, errors.New("no hijack in process")
}

// Status is what a client would see.
func (r *Rec) Status() int {
	if len(r.Codes) == 0 {
		return 200
	}
	return r.Codes[0]
}

// Req builds a server-side request whose URL.Path is exactly path.
func Req(method, path string) *http.Request {
	uri := (&url.URL{Path: path}).RequestURI()
	if uri == "*" {
		uri = "/*"
	}
	return &http.Request{
		Method: method, URL: &url.URL{Path: path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: http.NoBody, Host: "example.test", RequestURI: uri,
		RemoteAddr: "192.0.2.7:4711",
	}
}

type ctxKey struct{ k string }

// With attaches a value handlers of every form can find in the request's context.
func With(r *http.Request, k string, v any) *http.Request {
	return r.WithContext(context.WithValue(r.Context(), ctxKey{k}, v))
}
func Val(r *http.Request, k string) any { return r.Context().Value(ctxKey{k}) }

// Server serves an engine (or any handler) on the loopback.
type Server struct {
	Addr string
	S    *http.Server
	logs lockedBuf
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// peerConn gives a connection the peer address of a TCP client. The sockets are local ones, so that thousands
// of short connections do not use up the machine's ports.
type peerConn struct {
	*net.UnixConn
	peer net.Addr
}

func (p peerConn) RemoteAddr() net.Addr { return p.peer }

type peerListener struct {
	net.Listener
	n atomic.Int64
}

func (l *peerListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	n := l.n.Add(1)
	return peerConn{c.(*net.UnixConn), &net.TCPAddr{IP: net.IPv4(198, 51, 100, byte(n%250)), Port: int(1024 + n%60000)}}, nil
}

var sockets atomic.Int64

func Listen(h http.Handler) *Server { return listen(h, nil) }

// ListenH2 serves HTTP/2 without TLS too.
func ListenH2(h http.Handler) *Server {
	p := new(http.Protocols)
	p.SetHTTP1(true)
	p.SetUnencryptedHTTP2(true)
	return listen(h, p)
}

func listen(h http.Handler, protocols *http.Protocols) *Server {
	l, err := net.Listen("unix", fmt.Sprintf("@waterverif-%d-%d", os.Getpid(), sockets.Add(1)))
	if err != nil {
		panic("harness: listen: " + err.Error())
	}
	s := &Server{Addr: l.Addr().String()}
	s.S = &http.Server{Handler: h, ErrorLog: log.New(&s.logs, "", 0), DisableGeneralOptionsHandler: true, Protocols: protocols}
	go s.S.Serve(&peerListener{Listener: l})
	return s
}

// Dial opens a client connection.
func (s *Server) Dial() net.Conn {
	c, err := net.Dial("unix", s.Addr)
	if err != nil {
		panic("harness: dial: " + err.Error())
	}
	return c
}

// Transport is a client for this server, whatever host the URL names.
func (s *Server) Transport() *http.Transport {
	return &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 2,
		DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) { return net.Dial("unix", s.Addr) }}
}

func (s *Server) Close() { s.S.Close() }

// Resp is what came back on one connection.
type Resp struct {
	Proto  string
	Status int
	Head   http.Header
	Body   []byte
	Interm []int  // 1xx statuses before the head
	Rest   []byte // bytes after the response, when the connection was read to its end
	Err    error  // no (whole) response
}

func (r *Resp) String() string {
	if r.Err != nil {
		return fmt.Sprintf("error %v (status %d)", r.Err, r.Status)
	}
	return fmt.Sprintf("%d %v body[%d]=%.200q rest=%.100q", r.Status, r.Head, len(r.Body), r.Body, r.Rest)
}

// Raw sends one raw request on a connection of its own and reads to the end of the connection.
// The request must say "Connection: close".
func (s *Server) Raw(method string, raw []byte) *Resp {
	return s.RawParts(method, raw)
}

// RawParts sends the parts in separate writes.
func (s *Server) RawParts(method string, parts ...[]byte) *Resp {
	r := &Resp{}
	c := s.Dial()
	defer c.Close()
	werr := make(chan error, 1)
	go func() {
		var err error
		for _, p := range parts {
			if _, err = c.Write(p); err != nil {
				break
			}
		}
		werr <- err
	}()
	r.read(bufio.NewReader(c), method)
	return r
}

// readRaw parses the bytes of one response.
func readRaw(raw []byte, method string) (*Resp, error) {
	r := &Resp{}
	r.read(bufio.NewReader(bytes.NewReader(raw)), method)
	return r, r.Err
}

// read takes one response and what follows it up to the end of the connection.
func (r *Resp) read(br *bufio.Reader, method string) {
	resp, err := http.ReadResponse(br, &http.Request{Method: method})
	for err == nil && resp.StatusCode >= 100 && resp.StatusCode < 200 && resp.StatusCode != 101 {
		r.Interm = append(r.Interm, resp.StatusCode)
		resp, err = http.ReadResponse(br, &http.Request{Method: method})
	}
	if err != nil {
		r.Err = fmt.Errorf("no response head: %w", err)
		return
	}
	r.Proto, r.Status, r.Head = resp.Proto, resp.StatusCode, resp.Header
	if resp.TransferEncoding != nil {
		r.Head.Set("Transfer-Encoding", strings.Join(resp.TransferEncoding, ","))
	}
	r.Body, err = io.ReadAll(resp.Body)
	if err != nil {
		r.Err = fmt.Errorf("body cut: %w", err)
		return
	}
	r.Rest, _ = io.ReadAll(br)
}

// Line builds a raw request.
func Line(method, target string, hdr [][2]string, body []byte) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: example.test\r\nConnection: close\r\n", method, target)
	for _, h := range hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	if body != nil {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	return b.Bytes()
}

// Get is a plain request with headers.
func (s *Server) Get(method, target string, hdr ...[2]string) *Resp {
	return s.Raw(method, Line(method, target, hdr, nil))
}

// try runs f and returns the value it panicked with, if it did.
func try(f func()) (p any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			p = recover()
		}
	}()
	f()
	panicked = false
	return
}

// Serve runs a request through an engine in-process.
func Serve(e http.Handler, r *http.Request) *Rec {
	w := NewRec()
	e.ServeHTTP(w, r)
	return w
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func mustWrite(f string, b []byte) {
	must(os.WriteFile(f, b, 0o644))
}

var _ = water.VERSION

// Gone is a context of somebody who does not wait any more.
func Gone(r R, parent context.Context) context.Context {
	ctx, cancel := context.WithCancel(parent)
	if r.Pct(50) {
		cancel()
		ctx, cancel = context.WithDeadline(parent, time.Now().Add(-time.Second))
	}
	cancel()
	return ctx
}

// Noise adds to some requests what must not matter to routing: override headers and fields, other hosts, bodies.
func Noise(r R, q *http.Request, rts ...*rt) *http.Request {
	switch r.IntN(8) {
	case 0: // the path as a client spelled it, escaping more than it had to
		var b strings.Builder
		for _, x := range []byte(q.URL.Path) {
			if x != '/' && r.Pct(40) || strings.IndexByte("/abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~", x) < 0 {
				fmt.Fprintf(&b, "%%%02X", x)
			} else {
				b.WriteByte(x)
			}
		}
		q.URL.RawPath = b.String()
		q.RequestURI = q.URL.RequestURI()
	case 1:
		if len(rts) > 0 {
			q.URL.RawPath = pick(r, rts).Pat
		}
	}
	if r.Pct(12) { // the client has gone, or the deadline has passed, before the request is looked at
		q = q.WithContext(Gone(r, q.Context()))
	}
	if !r.Pct(35) {
		return q
	}
	other := r.Str("GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT", "XYZ", "get")
	for n := r.Rng(1, 3); n > 0; n-- {
		switch r.IntN(11) {
		case 0:
			q.Header.Set(r.Str("X-Http-Method-Override", "X-Http-Method", "X-Method-Override", "Access-Control-Request-Method"), other)
		case 1:
			q.Header.Set(r.Str("X-Original-Url", "X-Rewrite-Url", "X-Forwarded-Prefix", "X-Forwarded-Uri", "Referer", "X-Forwarded-Host"), r.Str("/", "/a", "/x/y", "h.test"))
		case 2:
			q.URL.RawQuery = r.Str("_method=", "method=", "a=1&_method=") + other
		case 3:
			if q.Method != "GET" && q.Method != "HEAD" {
				s := "_method=" + other + "&a=" + r.Word()
				q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
				if r.Pct(10) {
					s += strings.Repeat("x", 1<<r.Rng(13, 18))
				}
				q.Body, q.ContentLength = io.NopCloser(strings.NewReader(s)), int64(len(s))
			}
		case 4:
			q.Host = r.Str("", "other.test:8080", "[::1]", "UPPER.test.")
			q.URL.Host = r.Str("", q.Host)
		case 5:
			q.Header.Set(r.Str("Upgrade", "Expect", "Te", "Range", "If-None-Match", "Authorization"), r.Str("*", "websocket", "bytes=0-", "x"))
			q.Header.Set("Connection", r.Str("Upgrade", "close", "keep-alive"))
		case 6:
			q.Header.Set("Accept", r.Str("application/json", "text/html", "*/*"))
			q.Header.Set("X-Requested-With", "XMLHttpRequest")
		case 7:
			q.Header.Set("Cookie", "a=b; _method="+other)
		case 8:
			q.RemoteAddr = r.Str("", "@", "[::1]:80", "x")
		case 9:
			q.URL.RawPath = r.Str("/other", "/%2f", q.URL.Path)
			q.URL.Fragment = "f"
		case 10:
			q.TransferEncoding, q.ContentLength = []string{"chunked"}, -1
			q.Close = true
		}
	}
	return q
}
