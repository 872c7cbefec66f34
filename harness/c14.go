package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"mime"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"testing/fstest"
	"time"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C14", Quick: 6000, Thor: 120000,
		Rule: "a case is a set of static mounts and single files with a history of rewrites, touches, removals and additions; between the steps they are fetched over a connection with GET and HEAD, byte ranges and entity tags (current ones, former ones, other files' and mutations), and status, head and body are compared with the file's content at that moment. The file system counts what is open and at times fails to open or to examine a file. Non-trivial: a range, a conditional or a changed file; distinct by size, range, tag relation and history length.",
		Need: []string{"requests", "full", "head", "ranges", "multi_range_requests", "unsatisfiable", "not_modified", "not_modified_since", "modified_since", "other_tag", "tag_changes", "expires", "expires_later", "single_file", "missing", "index", "memory_fs", "options_reused", "if_range", "faults_open", "faults_stat", "all_closed", "encodings_offered"},
		Case: c14})
}

type c14file struct {
	content []byte
	mod     time.Time
	gone    bool
	tags    map[string]string // presented tag -> "sec/size" it stood for
	seenTag map[string]string // "sec/size" -> tag
}

// c14fs counts what is open and fails on demand.
type c14fs struct {
	http.FileSystem
	open   atomic.Int64
	opened atomic.Int64
	fault  atomic.Pointer[string] // of the next open: "open", "stat"
}

type c14open struct {
	http.File
	fs   *c14fs
	stat bool
	done bool
}

func (s *c14fs) Open(name string) (http.File, error) {
	fault := s.fault.Swap(nil)
	if fault != nil && *fault == "open" {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrPermission}
	}
	f, err := s.FileSystem.Open(name)
	if err != nil {
		return nil, err
	}
	s.open.Add(1)
	s.opened.Add(1)
	return &c14open{File: f, fs: s, stat: fault != nil}, nil
}

func (f *c14open) Stat() (fs.FileInfo, error) {
	if f.stat {
		return nil, errors.New("input/output error")
	}
	return f.File.Stat()
}

func (f *c14open) Close() error {
	if !f.done {
		f.done = true
		f.fs.open.Add(-1)
	}
	return f.File.Close()
}

type c14mount struct {
	fs      *c14fs
	prefix  string
	etag    water.ETagType
	expires string

	setExpires func(string) // a function gives it, for each answer anew
	index      string
	root       string // on disk
	mem        fstest.MapFS
	files      map[string]*c14file // path below the prefix, with leading '/'
	single     bool
	path       string // for a single file
}

var c14sizes = []int{0, 1, 2, 15, 16, 17, 255, 256, 511, 512, 513, 1023, 4095, 4096, 4097, 32767, 32768, 32769, 65536}

func (m *c14mount) put(p string, f *c14file) {
	if m.mem != nil {
		if f.gone {
			delete(m.mem, p[1:])
		} else {
			m.mem[p[1:]] = &fstest.MapFile{Data: f.content, ModTime: f.mod, Mode: 0o644}
		}
		return
	}
	full := filepath.Join(m.root, p)
	if f.gone {
		os.Remove(full)
		return
	}
	must(os.MkdirAll(filepath.Dir(full), 0o755))
	mustWrite(full, f.content)
	must(os.Chtimes(full, f.mod, f.mod))
}

func c14content(r R) []byte {
	n := pick(r, c14sizes)
	if r.Pct(40) {
		n = r.IntN(40)
	}
	if r.Pct(1) {
		n = 1<<20 + r.IntN(3)
	}
	if r.OneIn(4000) {
		n = r.Rng(8<<20, 20<<20)
	}
	b := r.Bytes(n)
	if r.Pct(50) { // readable, sniffable
		for i := range b {
			b[i] = "abcdefgh \n<>/html"[int(b[i])%17]
		}
	}
	return b
}

func c14time(r R) time.Time {
	switch r.IntN(4) {
	case 0:
		return time.Unix(int64(r.IntN(70)), 0)
	case 1:
		return time.Unix(int64(r.IntN(5000)), int64(r.IntN(1e9)))
	default:
		return time.Unix(1.5e9+int64(r.IntN(2e8)), int64(r.IntN(1e9)))
	}
}

func c14(c *C) {
	r := c.R
	dir, err := os.MkdirTemp(c.Dir, "c14-")
	must(err)
	defer os.RemoveAll(dir)
	names := []string{"/a.txt", "/b.bin", "/c.html", "/d/e.txt", "/d/f", "/x y.css", "/é.js", "/1", "/d/home.htm", "/home.htm", "/%41.txt", "/.hid", "/a.txt.gz", "/b.bin.gz", "/b.bin.br", "/a.txt.br"}
	var mounts []*c14mount
	var o *water.StaticOptions
	rt := water.NewRouter()
	if r.Pct(40) {
		rt.Use(func(x *water.Context) { x.Next() })
	}
	prefixes := []string{"/s", "/s2", "/deep/p", "/s/in"}
	r.Shuffle(len(prefixes), func(i, j int) { prefixes[i], prefixes[j] = prefixes[j], prefixes[i] })
	for i := r.Rng(1, 3); i > 0; i-- {
		m := &c14mount{prefix: prefixes[i], files: map[string]*c14file{}}
		if r.Pct(20) {
			m.prefix = prefixes[i]
			m.mem = fstest.MapFS{}
			c.Count("memory_fs", 1)
		} else {
			m.root = filepath.Join(dir, fmt.Sprint("m", i))
			must(os.Mkdir(m.root, 0o755))
		}
		m.etag = pick(r, []water.ETagType{water.ETagTypeNone, water.ETagType1, water.ETagType1, water.ETagType2, water.ETagType2})
		if r.Pct(40) {
			m.expires = pick(r, []string{"Thu, 01 Jan 1970 00:00:00 GMT", "0", time.Unix(2e9, 0).UTC().Format(http.TimeFormat)})
		}
		m.index = pick(r, []string{"", "home.htm"})
		for k := r.Rng(1, 5); k > 0; k-- {
			f := &c14file{content: c14content(r), mod: c14time(r), tags: map[string]string{}, seenTag: map[string]string{}}
			p := pick(r, names)
			m.files[p] = f
			m.put(p, f)
		}
		if m.mem == nil && m.etag == water.ETagTypeNone && m.expires == "" && m.index == "" {
			rt.Static(m.prefix, m.root)
		} else {
			if o == nil || r.Pct(60) {
				o = &water.StaticOptions{}
			} else {
				c.Count("options_reused", 1)
			}
			o.Prefix, o.IndexFile, o.ETag, o.Expires = m.prefix, m.index, m.etag, nil
			if m.mem != nil {
				m.fs = &c14fs{FileSystem: http.FS(m.mem)}
			} else {
				m.fs = &c14fs{FileSystem: http.Dir(m.root)}
			}
			o.FileSystem = m.fs
			if r.Pct(30) { // other spellings of the same prefix
				o.Prefix = pick(r, []string{m.prefix[1:], m.prefix + "/", m.prefix[1:] + "/"})
			}
			if m.expires != "" {
				now := &atomic.Pointer[string]{}
				m.setExpires = func(s string) { m.expires = s; now.Store(&s) }
				m.setExpires(m.expires)
				o.Expires = func() string { return *now.Load() }
			}
			rt.StaticAdvance(o)
		}
		mounts = append(mounts, m)
	}
	singles := []string{"/favicon.ico", "/robots.txt", "/one/file.txt"}
	for i := r.IntN(3); i > 0; i-- {
		p := singles[i]
		m := &c14mount{single: true, path: p, root: filepath.Join(dir, fmt.Sprint("single", i)), files: map[string]*c14file{}}
		must(os.Mkdir(m.root, 0o755))
		f := &c14file{content: c14content(r), mod: c14time(r)}
		fn := pick(r, []string{"/data.bin", "/x.txt", "/favicon.ico"})
		m.files[fn] = f
		m.put(fn, f)
		rt.StaticFile(p, filepath.Join(m.root, fn))
		mounts = append(mounts, m)
	}
	srv := Listen(rt.Handler(water.WithStaticRouter(r.Pct(50))))
	defer srv.Close()
	history := []string{}
	esc := func(p string) string { return (&url.URL{Path: p}).EscapedPath() }

	do := func(method, target string, hdr ...[2]string) *Resp {
		c.Eval()
		c.Count("requests", 1)
		if r.Pct(20) {
			hdr = append(hdr[:len(hdr):len(hdr)], [2]string{"Accept-Encoding", r.Str("gzip", "gzip, deflate, br", "br;q=1.0, *;q=0.5")})
			c.Count("encodings_offered", 1)
		}
		return srv.Get(method, target, hdr...)
	}
	var m *c14mount
	var f *c14file
	fail := func(sig, method, target string, hdr [][2]string, res *Resp, format string, a ...any) {
		st := "gone"
		if !f.gone {
			st = fmt.Sprintf("%d bytes, modified %d", len(f.content), f.mod.Unix())
		}
		c.Fail(sig, "%s\n%s %s %v -> %v\nfile: %s, etag type %d, expires %q\nhistory: %v", fmt.Sprintf(format, a...), method, target, hdr, res, st, m.etag, m.expires, history)
	}
	sameHead := func(a, b http.Header) string {
		keys := map[string]bool{}
		for k := range a {
			keys[k] = true
		}
		for k := range b {
			keys[k] = true
		}
		for k := range keys {
			if k != "Date" && k != "Connection" && strings.Join(a[k], "\n") != strings.Join(b[k], "\n") {
				return fmt.Sprintf("%s: %q with GET, %q with HEAD", k, a[k], b[k])
			}
		}
		return ""
	}
	// one fetches a file in one way and reports whether all was well.
	one := func() bool {
		m = pick(r, mounts)
		keys := []string{}
		for k := range m.files {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		p := pick(r, keys)
		f = m.files[p]
		target := m.prefix + esc(p)
		if m.single {
			target = m.path
			c.Count("single_file", 1)
		} else if m.index != "" && p == "/d/"+m.index && r.Pct(60) {
			target = strings.TrimSuffix(target, m.index)
			c.Count("index", 1)
		}
		if f.gone {
			res := do(pick(r, []string{"GET", "HEAD"}), target)
			c.Count("missing", 1)
			if res.Err != nil || res.Status != 404 {
				fail("missing", "GET", target, nil, res, "a missing file must be answered with 404")
				return false
			}
			return true
		}
		if m.fs != nil && r.Pct(25) {
			fault := pick(r, []string{"open", "stat"})
			m.fs.fault.Store(&fault)
			method := pick(r, []string{"GET", "HEAD"})
			x := do(method, target)
			m.fs.fault.Store(nil)
			c.Count("faults_"+fault, 1)
			if x.Err != nil || x.Status < 400 || len(f.content) > 3 && bytes.Contains(x.Body, f.content) {
				fail("fault", method, target, nil, x, "the file could not be read (%s failed), an error is due", fault)
				return false
			}
		}
		if m.setExpires != nil && r.Pct(60) {
			m.setExpires(time.Unix(2e9+int64(r.IntN(1e8)), 0).UTC().Format(http.TimeFormat))
			c.Count("expires_later", 1)
		}
		// the plain response
		res := do("GET", target)
		if res.Err != nil || res.Status != 200 || !bytes.Equal(res.Body, f.content) || len(res.Rest) > 0 {
			fail("content", "GET", target, nil, res, "the file was not delivered")
			return false
		}
		c.Count("full", 1)
		if cl := res.Head.Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(f.content)) {
			fail("length", "GET", target, nil, res, "wrong Content-Length")
			return false
		}
		if m.expires != "" {
			c.Count("expires", 1)
		}
		if !m.single && strings.Join(res.Head["Expires"], "|") != m.expires {
			fail("expires", "GET", target, nil, res, "Expires is not the configured value")
			return false
		}
		tag := ""
		if m.etag != water.ETagTypeNone && !m.single {
			tag = res.Head.Get("ETag")
			state := fmt.Sprintf("%d/%d", f.mod.Unix(), len(f.content))
			if tag == "" {
				fail("no-tag", "GET", target, nil, res, "no entity tag")
				return false
			}
			if was, ok := f.tags[tag]; ok && was != state {
				fail("tag-unchanged", "GET", target, nil, res, "the tag %q stood for second/size %s before and for %s now", tag, was, state)
				return false
			}
			if len(f.tags) > 0 && f.tags[tag] == "" {
				c.Count("tag_changes", 1)
			}
			f.tags[tag] = state
		}
		head := do("HEAD", target)
		c.Count("head", 1)
		if head.Err != nil || head.Status != 200 || len(head.Body)+len(head.Rest) > 0 {
			fail("head", "HEAD", target, nil, head, "HEAD must answer like GET, without a body")
			return false
		}
		if d := sameHead(res.Head, head.Head); d != "" {
			fail("head-differs", "HEAD", target, nil, head, "%s", d)
			return false
		}
		method := "GET"
		if r.Pct(20) {
			method = "HEAD"
		}
		full := func(x *Resp) bool {
			if x.Status != 200 || x.Err != nil {
				return false
			}
			if method == "HEAD" {
				return len(x.Body) == 0 && sameHead(res.Head, x.Head) == ""
			}
			return bytes.Equal(x.Body, f.content) && len(x.Rest) == 0 && sameHead(res.Head, x.Head) == ""
		}
		// conditionals
		if tag != "" {
			var hdr [][2]string
			cur := r.Pct(45)
			inm := tag
			if !cur {
				switch r.IntN(6) {
				case 5: // one that contains it, or that it contains
					k := r.IntN(len(tag))
					inm = pick(r, []string{"x" + tag, tag + "x", tag[:k], tag[k:], tag + "-" + tag, "1" + tag, tag + "0", strings.ToUpper(tag) + "A", tag[:k] + " " + tag[k:], tag[:k] + "\"" + tag[k:]})
					if inm = strings.TrimSpace(inm); inm == "" {
						inm = "0"
					}
				case 0, 1: // a former tag of this file
					olds := []string{}
					for k := range f.tags {
						olds = append(olds, k)
					}
					sort.Strings(olds)
					inm = pick(r, olds)
				case 2: // a tag of another file
					for _, o := range mounts {
						for _, g := range o.files {
							for k := range g.tags {
								if k < inm || inm == tag {
									inm = k
								}
							}
						}
					}
				case 3:
					i := r.IntN(len(tag))
					if tag[i] != '"' && tag[i] != '-' {
						inm = tag[:i] + string("0123456789abcdef"[r.IntN(16)]) + tag[i+1:]
					} else {
						inm = "0"
					}
				default:
					inm = pick(r, []string{"none", "0-0", `"0"`, "a, b", "é", strings.Trim(tag, `"`)[1:] + "x", "-"})
				}
				cur = inm == tag
			}
			hdr = append(hdr, [2]string{"If-None-Match", inm})
			if r.Pct(25) {
				hdr = append(hdr, [2]string{"If-Modified-Since", time.Now().UTC().Add(time.Hour).Format(http.TimeFormat)})
			}
			if cur && r.Pct(20) {
				hdr = append(hdr, [2]string{"Range", "bytes=0-0"})
			}
			x := do(method, target, hdr...)
			c.Seen("inm", cur, len(f.tags), len(hdr), method, m.etag)
			if cur {
				c.Count("not_modified", 1)
				if x.Err != nil || x.Status != 304 || len(x.Body)+len(x.Rest) > 0 {
					fail("not-modified", method, target, hdr, x, "the current tag %q must get 304 without a body", tag)
					return false
				}
			} else {
				c.Count("other_tag", 1)
				if !full(x) {
					fail("stale", method, target, hdr, x, "the tag is not the current one (%q), the whole content is due", tag)
					return false
				}
			}
			if r.Pct(15) { // asks the opposite: never an answer without content for who may have none
				im := [][2]string{{"If-Match", pick(r, []string{tag, "*", `"x"`})}}
				c.Count("if_match", 1)
				if x := do(method, target, im...); x.Err != nil || x.Status == 304 || x.Status == 200 && !full(x) {
					fail("if-match", method, target, im, x, "If-Match must get the whole content or be refused (tag %q)", tag)
					return false
				}
			}
		}
		// dates alone
		if mod := f.mod.Truncate(time.Second); mod.Unix() > 0 && r.Pct(40) {
			if lm := res.Head.Get("Last-Modified"); lm != mod.UTC().Format(http.TimeFormat) {
				fail("last-modified", "GET", target, nil, res, "Last-Modified is %q", lm)
				return false
			}
			since := mod.Add(time.Duration(pick(r, []int{0, 0, 1, -1, -2, 3600, -86400})) * time.Second)
			hdr := [][2]string{{"If-Modified-Since", since.UTC().Format(http.TimeFormat)}}
			if r.Pct(20) {
				hdr = append(hdr, [2]string{"Range", "bytes=0-"})
			}
			x := do(method, target, hdr...)
			c.Seen("since", since.Compare(mod), method, m.etag, m.single)
			if !since.Before(mod) {
				c.Count("not_modified_since", 1)
				if x.Err != nil || x.Status != 304 || len(x.Body)+len(x.Rest) > 0 {
					fail("not-modified-since", method, target, hdr, x, "not modified since then, 304 without a body is due")
					return false
				}
			} else {
				c.Count("modified_since", 1)
				if len(hdr) == 1 && !full(x) || x.Status == 304 {
					fail("modified-since", method, target, hdr, x, "modified since then, the content is due")
					return false
				}
			}
		}
		// ranges
		n := len(f.content)
		type span struct{ from, to int } // inclusive
		mk := func() (string, *span, bool) {
			switch r.IntN(5) {
			case 0: // suffix
				k := pick(r, []int{1, 2, n / 2, n, n + 1, n + 5})
				if k <= 0 {
					k = 1
				}
				if n == 0 {
					return fmt.Sprintf("-%d", k), nil, true
				}
				return fmt.Sprintf("-%d", k), &span{max(0, n-k), n - 1}, true
			case 1: // open
				a := pick(r, []int{0, 1, n / 2, n - 1, n, n + 1})
				a = max(a, 0)
				if a >= n {
					return fmt.Sprintf("%d-", a), nil, true
				}
				return fmt.Sprintf("%d-", a), &span{a, n - 1}, true
			case 2: // syntax error
				return pick(r, []string{"x", "5-2", "--1", "1", "-", "a-b", "0-0x"}), nil, false
			default:
				a := pick(r, []int{0, 1, n / 3, n / 2, n - 1, n, r.IntN(n + 1)})
				a = max(a, 0)
				b := a + pick(r, []int{0, 1, 5, n / 2, n, 511, 512})
				if a >= n {
					return fmt.Sprintf("%d-%d", a, b), nil, true
				}
				return fmt.Sprintf("%d-%d", a, b), &span{a, min(b, n-1)}, true
			}
		}
		k := 1
		if r.Pct(25) {
			k = r.Rng(2, 4)
		}
		var specs []string
		var spans []span
		syntax := true
		for ; k > 0; k-- {
			s, sp, ok := mk()
			specs = append(specs, s)
			syntax = syntax && ok
			if sp != nil {
				spans = append(spans, *sp)
			}
		}
		hdr := [][2]string{{"Range", "bytes=" + strings.Join(specs, pick(r, []string{",", ", "}))}}
		ifr := ""
		if r.Pct(20) {
			ifr = pick(r, []string{"current", "other"})
			c.Count("if_range", 1)
			v := `"other-tag"`
			if ifr == "current" {
				v = res.Head.Get("Last-Modified")
				if tag != "" && r.Pct(50) || v == "" {
					v = tag
				}
			} else if r.Pct(50) {
				v = f.mod.Add(-48 * time.Hour).UTC().Format(http.TimeFormat)
			}
			hdr = append(hdr, [2]string{"If-Range", v})
			if v == "" {
				ifr = ""
				hdr = hdr[:1]
			}
		}
		x := do(method, target, hdr...)

		c.Seen("range", n, strings.Join(specs, ","), ifr)
		if x.Err != nil {
			fail("range", method, target, hdr, x, "no response")
			return false
		}
		if len(specs) > 1 {
			c.Count("multi_range_requests", 1)
		}
		if full(x) && (ifr != "" || !syntax || n == 0 || len(specs) > 1) {
			return true
		}
		if ifr == "other" {
			fail("if-range", method, target, hdr, x, "the file is not what the client has, all of it is due")
			return false
		}
		if n == 0 && x.Status != 416 { // net/http has its own ways with ranges of nothing
			if len(x.Body)+len(x.Rest) > 0 {
				fail("range", method, target, hdr, x, "the file is empty")
				return false
			}
			return true
		}
		if !syntax || len(spans) == 0 || n == 0 {
			c.Count("unsatisfiable", 1)
			if x.Status != 416 && !(len(spans) > 0 && x.Status == 206) {
				fail("unsatisfiable", method, target, hdr, x, "expected 416")
				return false
			}
			if x.Status == 416 {
				return true
			}
		}
		if x.Status != 206 {
			fail("range", method, target, hdr, x, "expected 206")
			return false
		}
		if method == "HEAD" {
			if len(x.Body)+len(x.Rest) > 0 {
				fail("head", method, target, hdr, x, "a body for HEAD")
				return false
			}
			return true
		}
		if ct := x.Head.Get("Content-Type"); len(specs) > 1 && strings.HasPrefix(ct, "multipart/byteranges") {
			c.Count("multi_ranges", 1)
			_, ps, _ := mime.ParseMediaType(ct)
			mr := multipart.NewReader(bytes.NewReader(x.Body), ps["boundary"])
			for i := 0; ; i++ {
				part, err := mr.NextRawPart()
				if err == io.EOF && i == len(spans) {
					return true
				}
				if err != nil || i >= len(spans) {
					fail("multi-range", method, target, hdr, x, "part %d of %d: %v", i, len(spans), err)
					return false
				}
				b, err := io.ReadAll(part)
				s := spans[i]
				if err != nil || !bytes.Equal(b, f.content[s.from:s.to+1]) || part.Header.Get("Content-Range") != fmt.Sprintf("bytes %d-%d/%d", s.from, s.to, n) {
					fail("multi-range", method, target, hdr, x, "part %d is %q %q, expected bytes %d-%d", i, part.Header, b, s.from, s.to)
					return false
				}
			}
		}
		if len(spans) != 1 {
			fail("range", method, target, hdr, x, "one part for %d ranges", len(spans))
			return false
		}
		c.Count("ranges", 1)
		s := spans[0]
		if !bytes.Equal(x.Body, f.content[s.from:s.to+1]) || x.Head.Get("Content-Range") != fmt.Sprintf("bytes %d-%d/%d", s.from, s.to, n) || len(x.Rest) > 0 {
			fail("range", method, target, hdr, x, "expected bytes %d-%d of %d", s.from, s.to, n)
			return false
		}
		return true
	}
	closed := func() bool {
		for _, m := range mounts {
			if m.fs == nil {
				continue
			}
			for i := 0; m.fs.open.Load() != 0; i++ { // the response may be here before the handler's end
				if i == 20000 {
					c.Fail("left-open", "%d of %d opened files are still open 20 s after the last response", m.fs.open.Load(), m.fs.opened.Load())
					return false
				}
				time.Sleep(time.Millisecond)
			}
		}
		c.Count("all_closed", 1)
		return true
	}
	for step := r.Rng(3, 8); step > 0; step-- {
		if !one() || !closed() {
			return
		}
		if r.Pct(15) { // paths next to what is registered
			m = pick(r, mounts)
			f = &c14file{gone: true}
			var target string
			if m.single {
				target = pick(r, []string{m.path + "/x", m.path + "x", strings.ToUpper(m.path), m.path[:len(m.path)-1], "/zz" + m.path})
			} else {
				target = m.prefix + pick(r, []string{"/nope", "/d/nope.txt", "/a.txt/x", "/nope/a.txt", "/x%20y.cs"})
			}
			taken := false
			for _, o := range mounts { // below another mount it may exist
				taken = taken || !o.single && o != m && strings.HasPrefix(target, o.prefix+"/")
			}
			if !taken {
				c.Count("missing", 1)
				method := pick(r, []string{"GET", "HEAD"})
				if res := do(method, target); res.Err != nil || res.Status != 404 || method == "HEAD" && len(res.Body) > 0 {
					fail("missing", method, target, nil, res, "there is nothing there")
					return
				}
			}
		}
		// change something
		m = pick(r, mounts)
		keys := []string{}
		for k := range m.files {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		p := pick(r, keys)
		f := m.files[p]
		switch r.IntN(8) {
		case 0:
			f.gone = true
		case 1:
			f.gone = false
			f.mod = f.mod.Add(time.Duration(pick(r, []int{-1, 1, 1, 15, 16, 256, 3600, -3600, 1 << 32})) * time.Second)
		case 2: // one more or less byte, same second
			f.gone = false
			if k := pick(r, []int{1 << 8, 1 << 16, 1 << 16, 1 << 20}); r.Pct(20) { // the low bits stay the same
				c.Count("same_low_bits", 1)
				if m.mem != nil && r.Pct(50) {
					f.mod = f.mod.Add(time.Duration(pick(r, []int{1 << 16, 1 << 24, 1 << 31, 1 << 32})) * time.Second)
				} else if len(f.content) >= k {
					f.content = append([]byte{}, f.content[:len(f.content)-k]...)
				} else {
					f.content = append(append([]byte{}, f.content...), make([]byte, k)...)
				}
			} else if len(f.content) > 0 && r.Pct(50) {
				f.content = append([]byte{}, f.content[:len(f.content)-1]...)
			} else {
				f.content = append(append([]byte{}, f.content...), 'z')
			}
		case 3: // swapped: the digits of second and size run together the same way
			f.gone = false
			s, z := f.mod.Unix(), int64(len(f.content))
			if s > 0 && s < 4096 && z > 0 && z < 4096 {
				f.mod = time.Unix(z, 0)
				f.content = r.Bytes(int(s))
			}
		case 4, 5:
			f.gone = false
			f.content, f.mod = c14content(r), c14time(r)
		default:
			continue
		}
		if f.mod.Unix() < 0 {
			f.mod = time.Unix(5, 0)
		}
		m.put(p, f)
		history = append(history, fmt.Sprintf("%s gone=%v size=%d sec=%d", p, f.gone, len(f.content), f.mod.Unix()))
		c.Seen("change", len(history), len(f.content), f.gone)
	}
	c.Sample(func() any { return map[string]any{"mounts": len(mounts), "history": history} })
}
