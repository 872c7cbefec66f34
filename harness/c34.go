package main

import (
	"bytes"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C34", Quick: 3000, Thor: 100000,
		Rule: "a case is a directory of generated files and a series of requests whose handlers hand out one path through File or ServeFile (with headers set before, and handlers after); response and body are compared with the file on disk and with net/http's own answer to the same request. Non-trivial: every request; distinct by path class, method, conditions, range and answer.",
		Need: []string{"requests", "File", "ServeFile", "full", "partial", "not_modified", "missing", "directory", "index_redirect", "dots_refused", "head", "unsatisfiable", "later_handlers", "megabytes"},
		Case: c34})
}

var c34boundary = regexp.MustCompile(`[0-9a-f]{60}`)

func c34(c *C) {
	r := c.R
	dir, err := os.MkdirTemp(c.Dir, "c34-")
	must(err)
	defer os.RemoveAll(dir)
	type file struct {
		path string
		body []byte
	}
	var files []file
	must(os.MkdirAll(filepath.Join(dir, "d", "with"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "d", "empty"), 0o755))
	add := func(p string, b []byte) {
		p = filepath.Join(dir, p)
		mustWrite(p, b)
		must(os.Chtimes(p, time.Time{}, time.Unix(1e9+int64(r.IntN(1e8)), int64(r.IntN(2))*5e8)))
		files = append(files, file{p, b})
	}
	for i := r.Rng(2, 4); i > 0; i-- {
		n := pick(r, []int{0, 1, 2, 511, 512, 513, 5000, 70000})
		if r.OneIn(1500) {
			n = r.Rng(8<<20, 20<<20)
			c.Count("megabytes", 1)
		}
		b := r.Bytes(n)
		if r.Pct(40) {
			b = []byte(strings.Repeat("text é ", n/8+1))[:n]
		}
		add(fmt.Sprintf("%d%s", i, pick(r, []string{"", ".txt", ".html", ".json", ".png", ".unknown-ext", " sp%20ace.txt", "é.bin", ".css", ".gz", ".txt.gz", ".html.br", ".svgz", ".js.map"})), b)
	}
	add("index.html", []byte("<p>root index"))
	add("d/with/index.html", []byte("<p>index of with"))
	add("d/f.txt", []byte("in d"))

	paths := []string{filepath.Join(dir, "missing"), filepath.Join(dir, "d"), filepath.Join(dir, "d/with"), filepath.Join(dir, "d/empty"), filepath.Join(dir, "index.html"), dir,
		filepath.Join(dir, "1", "below"), dir + "/d/../d/f.txt", dir + "/d/"}
	for _, f := range files {
		paths = append(paths, f.path, f.path, f.path)
	}
	for k := r.Rng(3, 7); k > 0; k-- {
		p := pick(r, paths)
		if r.Pct(6) {
			p += r.Str("/", "/", "//", "/.", "/..")
		}
		api := r.Str("File", "ServeFile")
		var set [][2]string
		if r.Pct(25) {
			set = append(set, [2]string{"Content-Type", "application/x-own"})
		}
		if r.Pct(35) {
			set = append(set, [2]string{"ETag", `"tag-1"`})
		}
		if r.Pct(20) {
			set = append(set, [2]string{"Cache-Control", "max-age=9"}, [2]string{"X-Own", "1"})
		}
		method := r.Str("GET", "GET", "GET", "HEAD", "POST")
		target := pick(r, []string{"/f", "/f", "/f/", "/f/x", "/f/index.html", "/f/../x", "/f/a..b", "/f/..", "/f/%2e%2e/x", "/f/d", "/f/a//b", "/f//..", "/f/x//../y", "/f/.//..", "/f/a/..//b/", "/f/a//index.html", "/f/...", "/f/..a"})
		var hdr [][2]string
		size := int64(100)
		mod := time.Unix(1e9, 0)
		if fi, err := os.Stat(p); err == nil {
			size, mod = fi.Size(), fi.ModTime()
		}
		if r.Pct(45) {
			hdr = append(hdr, [2]string{"Range", pick(r, []string{"bytes=0-0", "bytes=0-", "bytes=-1", "bytes=-5", fmt.Sprintf("bytes=%d-", size), fmt.Sprintf("bytes=%d-%d", size/2, size-1), fmt.Sprintf("bytes=0-%d", size*2),
				"bytes=1-0", "bytes=x", "items=0-1", "bytes=0-0,2-3", "bytes=", fmt.Sprintf("bytes=%d-%d", r.IntN(int(size)+1), r.IntN(int(size)+1))})})
		}
		if r.Pct(25) {
			hdr = append(hdr, [2]string{"If-Modified-Since", mod.Add(time.Duration(r.Rng(-1, 1)) * time.Second).UTC().Format(http.TimeFormat)})
		}
		if r.Pct(25) {
			hdr = append(hdr, [2]string{"If-None-Match", pick(r, []string{`"tag-1"`, `W/"tag-1"`, `"other"`, "*", `"x", "tag-1"`, "junk"})})
		}
		if r.Pct(10) {
			hdr = append(hdr, [2]string{"If-Range", pick(r, []string{`"tag-1"`, `"other"`, mod.UTC().Format(http.TimeFormat)})})
		}
		if r.Pct(10) {
			hdr = append(hdr, [2]string{"If-Match", pick(r, []string{`"tag-1"`, `"other"`, "*"})})
		}
		if r.Pct(10) {
			hdr = append(hdr, [2]string{"If-Unmodified-Since", mod.Add(time.Duration(r.Rng(-1, 1)) * time.Second).UTC().Format(http.TimeFormat)})
		}

		var written bool
		var status, after int
		rt := water.NewRouter()
		h := func(x *water.Context) {
			for _, s := range set {
				x.SetHeader(s[0], s[1])
			}
			if api == "File" {
				x.File(p)
			} else {
				x.ServeFile(p)
			}
			written, status = x.Written(), x.Status()
		}
		next := func(x *water.Context) { after++; x.String(500, "after") }
		rt.ANY("/f", h, next)
		rt.ANY("/f/*", h, next)
		rt.HEAD("/f", h, next)
		rt.HEAD("/f/*", h, next)
		plain := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			for _, s := range set {
				w.Header().Set(s[0], s[1])
			}
			http.ServeFile(w, q, p)
		})
		c.Eval()
		c.Count("requests", 1)
		c.Count(api, 1)
		var got, want *Resp
		if r.Pct(10) { // on the wire
			for i, e := range []http.Handler{rt.Handler(), plain} {
				s := Listen(e)
				g := s.Raw(method, Line(method, target, hdr, nil))
				s.Close()
				if i == 0 {
					got = g
				} else {
					want = g
				}
			}
			if method == "HEAD" { // taken from the file by net/http only if it knows the handler's writer
				got.Head.Del("Content-Length")
				want.Head.Del("Content-Length")
			}
		} else {
			for i, e := range []http.Handler{rt.Handler(), plain} {
				q := Req(method, "/")
				u := target
				q.URL, err = q.URL.Parse(u)
				must(err)
				q.URL.Path = strings.NewReplacer("%2e", ".").Replace(target)
				q.URL.RawPath = ""
				q.RequestURI = target
				for _, h := range hdr {
					q.Header.Set(h[0], h[1])
				}
				w := Serve(e, q)
				g := &Resp{Status: w.Status(), Head: w.Head, Body: w.Body.Bytes()}
				if len(w.Codes) != 1 {
					c.Fail("heads", "%d heads were sent", len(w.Codes))
				}
				if i == 0 {
					got = g
				} else {
					want = g
				}
			}
		}
		if got.Err == nil && want.Err == nil {
			got.Head.Del("Date")
			want.Head.Del("Date")
		}
		show := func() string {
			return fmt.Sprintf("%s(%q) for %s %s %v, headers set before %v\ngot  %v\nwant %v; written %v status %d", api, strings.TrimPrefix(p, dir), method, target, hdr, set, got, want, written, status)
		}
		norm := func(x *Resp) string {
			return c34boundary.ReplaceAllString(fmt.Sprintf("%d %v %v", x.Status, x.Head, x.Err), "B")
		}
		gb, wb := got.Body, want.Body
		if got.Status == 206 && strings.HasPrefix(got.Head.Get("Content-Type"), "multipart") || strings.HasPrefix(want.Head.Get("Content-Type"), "multipart") {
			gb, wb = c34boundary.ReplaceAll(gb, []byte("B")), c34boundary.ReplaceAll(wb, []byte("B"))
		}
		if norm(got) != norm(want) || !bytes.Equal(gb, wb) {
			c.Fail("differs", "not what net/http answers\n%s", show())
			return
		}
		if !written || status != got.Status {
			c.Fail("facts", "the request reports written=%v status=%d\n%s", written, status, show())
			return
		}
		if after != 0 {
			c.Fail("later", "a later handler ran\n%s", show())
			return
		}
		c.Count("later_handlers", 1)
		var body []byte
		isFile := false
		for _, f := range files {
			if f.path == filepath.Clean(p) {
				body, isFile = f.body, true
			}
		}
		if method == "HEAD" {
			c.Count("head", 1)
		}
		switch {
		case got.Status == 200 && isFile:
			if method != "HEAD" && !bytes.Equal(got.Body, body) {
				c.Fail("bytes", "the body is not the file's\n%s", show())
				return
			}
			c.Count("full", 1)
		case got.Status == 206:
			c.Count("partial", 1)
		case got.Status == 304:
			c.Count("not_modified", 1)
		case got.Status == 404:
			c.Count("missing", 1)
		case got.Status == 200:
			c.Count("directory", 1)
		case got.Status == 301:
			c.Count("index_redirect", 1)
		case got.Status == 400:
			c.Count("dots_refused", 1)
		case got.Status == 416:
			c.Count("unsatisfiable", 1)
		}
		c.Seen(api, strings.TrimPrefix(p, dir), method, target, hdr, set, got.Status)
	}
	c.Sample(func() any { return map[string]any{"files": len(files)} })
}
