package main

import (
	"bytes"
	"fmt"
	"io"
	"mime"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C25", Quick: 40000, Thor: 600000,
		Rule: "a case is a download of a file on disk, or an attachment of a reader, under a generated name (quotes, separators, control bytes, encoded look-alikes, any script, invalid UTF-8, traversal), with a content of a boundary size and a full, ranged or HEAD request, in process or on the wire; the disposition is decoded with the standard parser, body and range compared byte for byte, and foreign headers looked for. Downloads of missing files, directories and dangling links must return an error and leave the response as it was. Non-trivial: names outside plain letters, proper ranges; distinct by name and range.",
		Need: []string{"downloads", "attachments", "inline", "ranges", "unsatisfiable", "head", "hostile_names", "control_bytes", "non_ascii", "missing", "directories", "dangling", "untouched", "wire", "big", "closed", "not_modified", "last_modified", "long_names"},
		Case: c25})
}

var c25n atomic.Int64

func c25name(c *C, disk bool) string {
	r := c.R
	n := ""
	switch r.IntN(5) {
	case 0:
		n = r.Word() + r.Str(".txt", ".tar.gz", "", ".html")
	case 1:
		n = r.Str(`a"b.txt`, `a\b`, `a\"; filename="evil.exe`, "a;b", "a; filename=evil.exe", "a,b", "a'b'c", "UTF-8''evil", "a%20b", "100%", "%22", "a=b", "a*b", "<b>.html", "a b  c", " lead", "trail ", "(x)", "[x]{y}", "a@b:c", "a?b#c", "~`!$^&+|", "CON", "-rf", ".bashrc", "a%00b", "a%0d%0aX-Evil: 1")
		c.Count("hostile_names", 1)
	case 2:
		n = r.Str("a\r\nX-Evil: 1", "a\nX-Evil: 1\n\n<html>", "\x01\x02", "a\tb", "tab\t", "\x7f", "nl\n", "\r", "é\r\nSet-Cookie: X-Evil=1", "a\x1bb")
		c.Count("control_bytes", 1)
	case 3:
		n = r.Str("文档.pdf", "résumé.doc", "файл", "😀.png", "a\u202Efdp.exe", "é", "\xff\xfe", "a\xc3", "naïve file.txt", "ｆｕｌｌ", "\u00a0", "\u2028")
		c.Count("non_ascii", 1)
	default:
		for i := r.Rng(1, 12); i > 0; i-- {
			n += string(rune(r.Rng(1, 0x17f)))
		}
	}
	if disk {
		n = strings.NewReplacer("/", "_", "\x00", "_").Replace(n)
		if n == "." || n == ".." || n == "" {
			n = "x"
		}
		if len(n) > 200 {
			n = n[:200]
		}
	} else if r.Pct(10) {
		n = r.Str("../../etc/passwd", "a/b/c", "/abs", "\x00", "a\x00b", "") + n
	} else if r.Pct(3) {
		n = strings.Repeat(n, r.Rng(10, 400))
		c.Count("long_names", 1)
	}
	return n
}

func c25(c *C) {
	r := c.R
	download := r.Pct(50)
	name := c25name(c, download)
	size := pick(r, []int{0, 1, 2, 511, 512, 513, 2047, 2048, 2049, 4096, 32768, 32769, 100000})
	if c.N%50 == 3 {
		size = 3 << 20
		c.Count("big", 1)
	}
	body := r.Bytes(size)
	if r.Pct(30) && size > 20 {
		copy(body, "<html><script>")
	}
	inline := r.IntN(4) // absent, false, true, true+false
	args := [][]bool{nil, {false}, {true}, {true, false}}[inline]
	disp := "attachment"
	if inline >= 2 {
		disp = "inline"
		c.Count("inline", 1)
	}
	mod := time.Unix(int64(r.Rng(1, 2000000000)), 0)
	if r.Pct(20) { // any clock's
		mod = mod.Add(time.Duration(r.IntN(1e9))).In(time.FixedZone("", r.Rng(-12, 14)*3600))
	}
	if !download && r.Pct(20) {
		mod = time.Time{}
	}
	dir := ""
	target := ""
	missing := download && r.Pct(25)
	if download {
		dir = filepath.Join(c.Dir, fmt.Sprintf("dl-%d", c25n.Add(1)))
		must(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		target = filepath.Join(dir, name)
		if missing {
			switch r.IntN(3) {
			case 0:
				c.Count("missing", 1)
			case 1:
				must(os.Mkdir(target, 0o755))
				must(os.WriteFile(filepath.Join(target, "index.html"), body, 0o644))
				c.Count("directories", 1)
			case 2:
				must(os.Symlink(filepath.Join(dir, "nowhere-"), target))
				c.Count("dangling", 1)
			}
		} else {
			must(os.WriteFile(target, body, 0o644))
			must(os.Chtimes(target, mod, mod))
		}
	}
	bad := false
	fail := func(sig, format string, a ...any) {
		if !bad {
			bad = true
			c.Fail(sig, "%s\nname %q of %d bytes, download %v, %v", fmt.Sprintf(format, a...), name, size, download, args)
		}
	}
	method := r.Str("GET", "GET", "GET", "HEAD", "POST")
	rng, from, to, code := "", 0, size, 200
	if size > 0 && method != "POST" && r.Pct(55) {
		a, b := r.IntN(size), r.IntN(size)
		if a > b {
			a, b = b, a
		}
		switch r.IntN(6) {
		case 0, 1:
			rng, from, to = fmt.Sprintf("bytes=%d-%d", a, b), a, b+1
		case 2:
			rng, from, to = fmt.Sprintf("bytes=%d-", a), a, size
		case 3:
			rng, from, to = fmt.Sprintf("bytes=-%d", b+1), size-b-1, size
		case 4:
			rng, from, to = fmt.Sprintf("bytes=%d-%d", a, size+r.IntN(100)), a, size
		case 5:
			rng, code = fmt.Sprintf("bytes=%d-", size+r.IntN(10)), 416
			c.Count("unsatisfiable", 1)
		}
		if code == 200 {
			code = 206
			c.Count("ranges", 1)
		}
	}
	since := ""
	if !mod.IsZero() && !missing && method != "POST" && r.Pct(12) {
		t := mod.Truncate(time.Second).Add(time.Duration(r.Rng(-2, 2)) * time.Second)
		since = t.UTC().Format(http.TimeFormat)
		if !t.Before(mod.Truncate(time.Second)) {
			code = 304
			c.Count("not_modified", 1)
		}
	}
	rt := water.NewRouter()
	h := func(x *water.Context) {
		if missing {
			x.Header().Set("X-Before", "1")
			before := fmt.Sprint(x.Header(), x.Status(), x.Written())
			err := x.Download(target, args...)
			if err == nil {
				fail("no-error", "Download of something missing or a directory returned no error")
			}
			if after := fmt.Sprint(x.Header(), x.Status(), x.Written()); after != before {
				fail("touched", "a failed Download changed the response from %s to %s", before, after)
			}
			c.Count("untouched", 1)
			x.WriteHeader(410)
			io.WriteString(x, "own answer")
			return
		}
		if download {
			if err := x.Download(target, args...); err != nil {
				fail("error", "Download: %v", err)
			}
			return
		}
		var rd io.ReadSeeker = bytes.NewReader(body)
		if r.Pct(30) {
			rd = &slowSeeker{rd}
		}
		if r.Pct(20) && size > 0 { // read before: still the whole content
			rd.Seek(int64(r.IntN(size)), io.SeekStart)
		}
		x.Attachment(name, mod, rd, args...)
	}
	for _, m := range []string{"GET", "HEAD", "POST"} {
		addRoute(rt, m, "/f", []interface{}{h})
	}
	e := rt.Handler()
	var hd [][2]string
	if rng != "" {
		hd = append(hd, [2]string{"Range", rng})
	}
	if since != "" {
		hd = append(hd, [2]string{"If-Modified-Since", since})
	}
	c.Eval()
	if download {
		c.Count("downloads", 1)
	} else {
		c.Count("attachments", 1)
	}
	if method == "HEAD" {
		c.Count("head", 1)
	}
	c.Seen(name, rng, disp, download)
	var status int
	var head http.Header
	var got []byte
	wire := c.N%4 == 1
	if wire {
		c.Count("wire", 1)
		s := Listen(e)
		defer s.Close()
		res := s.Get(method, "/f", hd...)
		if res.Err != nil || len(res.Rest) > 0 {
			fail("no-answer", "%v", res)
			return
		}
		status, head, got = res.Status, res.Head, res.Body
	} else {
		q := Req(method, "/f")
		for _, v := range hd {
			q.Header.Set(v[0], v[1])
		}
		var rec *Rec
		if p, crashed := try(func() { rec = Serve(e, q) }); crashed {
			fail("crash", "%v", p)
			return
		}
		if download && c.N%5 == 0 {
			c.Count("closed", 1)
			if n := c21open(target); n > 0 {
				fail("open", "%d descriptors of the file are left open", n)
			}
		}
		status, head, got = rec.Status(), rec.Head, rec.Body.Bytes()
		if head == nil {
			head = rec.H
		}
		for k, v := range head { // what the server would refuse or break a line at
			for _, s := range append(v, k) {
				if strings.ContainsAny(s, "\r\n\x00") {
					fail("header", "header %q: %q", k, v)
				}
			}
		}
	}
	if missing {
		if status != 410 || method != "HEAD" && string(got) != "own answer" || head.Get("Content-Disposition") != "" {
			fail("touched", "the handler's own answer became %d %v %q", status, head, got)
		}
		return
	}
	if status != code {
		fail("status", "status %d for range %q, expected %d", status, rng, code)
		return
	}
	for k := range head {
		if strings.Contains(k, "Evil") || k == "Set-Cookie" {
			fail("injected", "the response carries %v", head)
		}
	}
	lm := ""
	if !mod.IsZero() {
		lm = mod.UTC().Format(http.TimeFormat)
	}
	if code == 416 {
		return
	}
	if head.Get("Last-Modified") != lm {
		fail("modified", "Last-Modified %q for content last changed %v (%q)", head.Get("Last-Modified"), mod, lm)
	}
	if code == 304 {
		if len(got) > 0 {
			fail("body", "a 304 of %d bytes", len(got))
		}
		return
	}
	c.Count("last_modified", 1)
	if method != "HEAD" && !bytes.Equal(got, body[from:to]) {
		fail("body", "range %q delivered %d bytes that differ from bytes %d-%d", rng, len(got), from, to)
	}
	if l := head.Get("Content-Length"); l != "" && l != fmt.Sprint(to-from) {
		fail("length", "Content-Length %s for bytes %d-%d", l, from, to)
	}
	if code == 206 {
		if cr := head.Get("Content-Range"); cr != fmt.Sprintf("bytes %d-%d/%d", from, to-1, size) {
			fail("range", "Content-Range %q for bytes %d-%d of %d", cr, from, to, size)
		}
	}
	cd := head.Values("Content-Disposition")
	if len(cd) != 1 {
		fail("disposition", "dispositions %q", cd)
		return
	}
	dt, params, err := mime.ParseMediaType(cd[0])
	if err != nil || dt != disp {
		fail("disposition", "%q parses as %q, %v", cd[0], dt, err)
		return
	}
	if name == "" && len(params) == 0 {
		return
	}
	if len(params) != 1 || params["filename"] != name {
		fail("name", "%q parses to %q", cd[0], params)
	}
	c.Sample(func() any { return map[string]any{"disposition": cd[0], "range": rng, "status": status} })
}

// slowSeeker hides everything but reading and seeking, and reads little.
type slowSeeker struct{ io.ReadSeeker }

func (s *slowSeeker) Read(p []byte) (int, error) {
	if len(p) > 1000 {
		p = p[:1000]
	}
	return s.ReadSeeker.Read(p)
}
