package main

import (
	"bytes"
	"fmt"
	"html"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing/fstest"
	"time"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C13", Quick: 8000, Thor: 150000,
		Rule:   "a case is a generated directory tree served through http.Dir, an in-memory file system or one that joins names naively, with canaries beside and above the root and look-alike decoys in the working directory; raw requests with canonical and hostile spellings are sent over a connection and every byte received is searched for what lies outside, while canonical paths are compared with the tree exactly and redirects are followed. Non-trivial: a spelling with dot segments, repeated or encoded separators, or a directory; distinct by spelling, prefix and index setting.",
		Need:   []string{"options_reused", "requests", "hostile", "files", "dir_redirects", "listings", "indexes", "not_found", "redirects_followed", "naive_fs", "memory_fs", "lookalikes", "deep_hostile", "deep_trees", "big_directories", "escaped_more", "slashed_directories"},
		Before: c13decoys, Case: c13})
}

var c13names = []string{"sub", "dir", "index.html", "f.txt", "a b", "é", "..x", "...", "x..", "-", "%41", "q?y", "h#h", "a+b", "<b>", "a;b", "a&b", "data.json", "evil.test", "home.htm", "~", "a'b", "C:", "*", ":x"}

const c13canary = "CANARY-OUTSIDE"

// c13decoys fills the working directory with look-alikes.
func c13decoys(e *Env) {
	cwd, err := os.Getwd()
	must(err)
	if cwd != e.Dir {
		panic("harness: not in scratch")
	}
	for _, n := range c13names {
		if strings.Contains(n, ".") && n != "..x" && n != "..." && n != "x.." {
			mustWrite(filepath.Join(cwd, n), []byte(c13canary+" cwd file"))
			continue
		}
		must(os.MkdirAll(filepath.Join(cwd, n), 0o755))
		for _, k := range c13names {
			mustWrite(filepath.Join(cwd, n, k), []byte(c13canary+" cwd "+n+" "+k))
		}
		mustWrite(filepath.Join(cwd, n, "outside-name"), []byte(c13canary))
	}
}

// naiveFS trusts the names it is asked for.
type naiveFS struct {
	root string
	mu   sync.Mutex
	bad  []string // names that lead out of the root
}

func (n *naiveFS) Open(name string) (http.File, error) {
	p := n.root + "/" + strings.TrimPrefix(name, "/")
	if q := filepath.Clean(p); q != n.root && !strings.HasPrefix(q, n.root+"/") {
		n.mu.Lock()
		n.bad = append(n.bad, name)
		n.mu.Unlock()
	}
	return os.Open(p)
}

type c13tree struct {
	files map[string]string // clean rooted path -> content
	dirs  map[string][]string
}

func c13gen(r R, token string) *c13tree {
	t := &c13tree{map[string]string{}, map[string][]string{"/": nil}}
	dirs := []string{"/"}
	n, deep := r.Rng(1, 12), r.OneIn(60)
	if deep {
		n = r.Rng(15, 60)
	}
	for i := n; i > 0; i-- {
		d := pick(r, dirs)
		if deep {
			d = dirs[len(dirs)-1]
		}
		n := pick(r, c13names)
		p := path.Join(d, n)
		if d == "/" {
			p = "/" + n
		} else {
			p = d + "/" + n
		}
		if _, ok := t.files[p]; ok {
			continue
		}
		if _, ok := t.dirs[p]; ok {
			continue
		}
		if deep && i > 3 || r.Pct(40) && (n != "index.html" && n != "home.htm" || r.Pct(15)) {
			t.dirs[p] = nil
			dirs = append(dirs, p)
			t.dirs[d] = append(t.dirs[d], n+"/")
		} else {
			t.files[p] = "INSIDE " + token + " " + p + "\n"
			t.dirs[d] = append(t.dirs[d], n)
		}
	}
	if r.OneIn(80) { // one with many entries
		d := pick(r, dirs)
		for i := r.Rng(150, 1500); i > 0; i-- {
			p := strings.TrimRight(d, "/") + fmt.Sprintf("/n%04d", i)
			t.files[p] = "INSIDE " + token + " " + p + "\n"
			t.dirs[d] = append(t.dirs[d], p[strings.LastIndex(p, "/")+1:])
		}
	}
	for d := range t.dirs {
		sort.Strings(t.dirs[d])
	}
	return t
}

var c13link = regexp.MustCompile(`(?s)<a href="([^"]*)">(.*?)</a>`)

func c13(c *C) {
	r := c.R
	token := fmt.Sprintf("t%d", c.N)
	tree := c13gen(r, token)
	base := filepath.Join(c.Dir, "c13-"+token)
	root := filepath.Join(base, "root")
	must(os.MkdirAll(root, 0o755))
	defer os.RemoveAll(base)
	for _, o := range []string{"secret.txt", "rootx", "root.txt", "f.txt", "index.html"} {
		mustWrite(filepath.Join(base, o), []byte(c13canary+" "+o))
	}
	must(os.MkdirAll(filepath.Join(base, "sub", "outside-name"), 0o755))
	if len(tree.dirs) > 12 {
		c.Count("deep_trees", 1)
	}
	var dirs, files []string
	if len(tree.files) > 150 {
		c.Count("big_directories", 1)
	}
	for d := range tree.dirs {
		dirs = append(dirs, d)
	}
	for f := range tree.files {
		files = append(files, f)
	}
	sort.Strings(dirs)
	sort.Strings(files)
	var hfs http.FileSystem
	kind := r.IntN(4)
	if kind != 3 {
		for _, d := range dirs {
			must(os.MkdirAll(filepath.Join(root, d), 0o755))
		}
		for _, f := range files {
			mustWrite(filepath.Join(root, f), []byte(tree.files[f]))
		}
	}
	switch kind {
	case 2:
		hfs = &naiveFS{root: root}
		c.Count("naive_fs", 1)
	case 3:
		m := fstest.MapFS{}
		for _, d := range dirs {
			if d != "/" {
				m[d[1:]] = &fstest.MapFile{Mode: fs.ModeDir | 0o755}
			}
		}
		for _, f := range files {
			m[f[1:]] = &fstest.MapFile{Data: []byte(tree.files[f]), ModTime: time.Unix(1700000000, 0)}
		}
		hfs = http.FS(m)
		c.Count("memory_fs", 1)
	default:
		hfs = http.Dir(root)
	}
	prefix := pick(r, []string{"", "/", "/st", "st", "/st/", "/a/b", "/sub", "/a//b", "//st", "/a/./b"})
	mount := strings.TrimRight(prefix, "/")
	if strings.Contains(prefix, "//") || strings.Contains(prefix, ".") {
		mount = path.Clean(prefix)
	}
	if mount != "" && mount[0] != '/' {
		mount = "/" + mount
	}
	index := pick(r, []string{"", "", "index.html", "home.htm", "sub/index.html"})
	rt := water.NewRouter()
	if index == "" && kind < 2 && r.Pct(40) {
		p := prefix
		if p == "st" { // Static joins what it is given
			p = "/st"
		}
		rt.Static(p, root)
	} else {
		opt := &water.StaticOptions{Prefix: prefix, IndexFile: index, FileSystem: hfs}
		opt.ETag = pick(r, []water.ETagType{water.ETagTypeNone, water.ETagType1, water.ETagType2})
		rt.StaticAdvance(opt)
		if r.Pct(30) { // the caller's options are the caller's, for the next mount say
			*opt = water.StaticOptions{Prefix: "/later", IndexFile: "secret.txt", FileSystem: http.Dir(base)}
			c.Count("options_reused", 1)
		}
	}
	var nfOpt []water.Option
	if mount != "" && r.Pct(30) {
		nfOpt = append(nfOpt, water.WithNoFoundHandlers(func(x *water.Context) { x.WriteHeader(404) }))
	}
	eng := rt.Handler(append(nfOpt, water.WithStaticRouter(r.Pct(50)))...)
	srv := Listen(eng)
	defer srv.Close()
	esc := func(p string) string { return (&url.URL{Path: p}).EscapedPath() }
	spell := func(p string) string { // any way to write the same path
		s := esc(p)
		if r.Pct(70) {
			return s
		}
		c.Count("escaped_more", 1)
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] == '%' {
				b.WriteString(s[i : i+3])
				i += 2
			} else if s[i] != '/' && r.Pct(30) {
				fmt.Fprintf(&b, "%%%02x", s[i])
			} else {
				b.WriteByte(s[i])
			}
		}
		return b.String()
	}
	where := func(target string, res *Resp) string {
		return fmt.Sprintf("GET %s (prefix %q, index %q, file system %d, files %v, dirs %v): %v", target, prefix, index, kind, files, dirs, res)
	}
	// leak reports anything in the response that is not of the tree.
	leak := func(target string, res *Resp) bool {
		all := res.String() + string(res.Body) + string(res.Rest)
		if strings.Contains(all, c13canary) || strings.Contains(all, "outside-name") {
			c.Fail("disclosed", "%s", where(target, res))
			return true
		}
		if n, ok := hfs.(*naiveFS); ok {
			n.mu.Lock()
			bad := n.bad
			n.mu.Unlock()
			if len(bad) > 0 {
				c.Fail("asked-outside", "the file system was asked for %q: %s", bad, where(target, res))
				return true
			}
		}
		if loc := res.Head.Get("Location"); loc != "" {
			b, _ := url.Parse("http://example.test" + esc("/"))
			if bb, err := url.Parse("http://example.test" + target); err == nil {
				b = bb
			}
			u, err := b.Parse(loc)
			if err != nil || u.Host != "example.test" {
				c.Fail("redirected-away", "Location leads to %v: %s", u, where(target, res))
				return true
			}
		}
		if res.Status == 200 {
			own := len(res.Body) == 0
			for _, f := range files {
				own = own || string(res.Body) == tree.files[f]
			}
			if !own { // then it has to be a listing of one of the directories
				names, ok := listing(res.Body)
				found := false
				for _, d := range dirs {
					found = found || ok && eqSorted(names, tree.dirs[d])
				}
				if !found {
					c.Fail("foreign-content", "the body is neither a file nor a listing of the tree: %s", where(target, res))
					return true
				}
			}
		}
		return false
	}
	get := func(target string) *Resp {
		c.Eval()
		c.Count("requests", 1)
		return srv.Get("GET", target)
	}
	// canonical paths: exact
	checkDir := func(target, d string, res *Resp) bool {
		if index != "" {
			f := path.Join(d, index)
			if want, ok := tree.files[f]; ok {
				if res.Status != 200 || string(res.Body) != want {
					c.Fail("index", "expected %q: %s", want, where(target, res))
					return false
				}
				c.Count("indexes", 1)
				return true
			}
			if res.Status == 404 {
				c.Count("not_found", 1)
				return true
			}
		} else if want, ok := tree.files[path.Join(d, "index.html")]; ok && res.Status == 200 && string(res.Body) == want {
			return true
		}
		names, ok := listing(res.Body)
		if res.Status != 200 || !ok || !eqSorted(names, tree.dirs[d]) {
			c.Fail("listing", "listed %q, the directory %s has %q: %s", names, d, tree.dirs[d], where(target, res))
			return false
		}
		c.Count("listings", 1)
		return true
	}
	for i := r.Rng(2, 4); i > 0; i-- {
		if len(files) > 0 {
			f := pick(r, files)
			target := mount + spell(f)
			res := get(target)
			if leak(target, res) {
				return
			}
			if res.Status != 200 || string(res.Body) != tree.files[f] {
				c.Fail("file", "expected %q: %s", tree.files[f], where(target, res))
				return
			}
			c.Count("files", 1)
		}
		d := pick(r, dirs)
		target := mount + spell(d)
		res := get(target)
		if leak(target, res) {
			return
		}
		if d == "/" && mount != "" && res.Status == 404 {
			// the prefix itself ("/st/" is "/st") is not below the static wildcard
			c.Count("not_found", 1)
		} else if target == "" || strings.HasSuffix(target, "/") {
			if !checkDir(target, d, res) {
				return
			}
		} else {
			b, _ := url.Parse("http://example.test" + target)
			loc, err := b.Parse(res.Head.Get("Location"))
			if res.Status != 301 && res.Status != 302 && res.Status != 307 && res.Status != 308 || err != nil || loc.Path != b.Path+"/" {
				c.Fail("dir-redirect", "expected a redirect to %s/: %s", b.Path, where(target, res))
				return
			}
			c.Count("dir_redirects", 1)
			target = loc.EscapedPath()
			res = get(target)
			if leak(target, res) || !checkDir(target, d, res) {
				return
			}
			c.Count("redirects_followed", 1)
			c.Seen("dir", mount, index, d)
		}
		// absent
		p := d + "/absent-" + r.Word()
		res = get(mount + esc(path.Clean(p)))
		if res.Status != 404 {
			c.Fail("absent", "expected 404: %s", where(p, res))
			return
		}
		c.Count("not_found", 1)
	}
	// names that only resemble one that is there
	for i := r.IntN(4); i > 0; i-- {
		like := pick(r, dirs)
		if len(files) > 0 && r.Pct(70) {
			like = pick(r, files)
		}
		if like == "/" {
			continue
		}
		switch r.IntN(8) {
		case 0:
			like = "/" + strings.ReplaceAll(like[1:], "/", "\\")
		case 1:
			like = strings.ToUpper(like)
		case 2:
			like += pick(r, []string{".", " ", "~", "\\", ";x", "::$DATA", "\x00", "\x00.txt", ".gz", "%", "?", "#", "/x", ".bak", "%00"})
		case 3:
			like = strings.ReplaceAll(esc(like), "%", "%25") // escaped twice
			if !strings.Contains(like, "%25") {
				like = strings.Replace(like, like[1:2], fmt.Sprintf("%%%02x", like[1]), 1)
			}
		case 4:
			like = like[:len(like)-1]
		case 5:
			like = "/" + pick(r, []string{" ", ".", "\\", "root", "_"}) + like[1:]
		case 6:
			like = like[:1] + "*"
		default:
			like = strings.ReplaceAll(like, ".", "")
		}
		if p := path.Clean(like); p != like || tree.files[p] != "" {
			continue
		}
		if _, ok := tree.dirs[like]; ok {
			continue
		}
		target := mount + esc(like)
		res := get(target)
		c.Count("lookalikes", 1)
		if res.Err != nil || res.Status != 404 {
			c.Fail("lookalike", "there is no %q, expected 404: %s", like, where(target, res))
			return
		}
	}
	// hostile spellings
	up := []string{"..", "%2e%2e", ".%2e", "%2E.", "../..", "..%2f..", "..%5c..", "..\\..", "../../../../../../../..", "....//", "..;", "..%00", "%252e%252e"}
	outside := []string{"secret.txt", "rootx", "sub", "sub/", "f.txt", "index.html", "root.txt", "", "etc/passwd", "etc/", "root/f.txt", "root", "outside-name", strings.TrimPrefix(root, "/"), strings.TrimPrefix(base, "/") + "/secret.txt", strings.TrimPrefix(c.Dir, "/") + "/f.txt", strings.TrimPrefix(c.Dir, "/") + "/sub/"}
	for i := r.Rng(4, 9); i > 0; i-- {
		var target string
		in := pick(r, dirs)
		if len(files) > 0 && r.Pct(30) {
			in = pick(r, files)
		}
		switch r.IntN(10) {
		case 0:
			target = mount + "/" + pick(r, up) + "/" + pick(r, outside)
		case 1:
			target = mount + esc(in) + "/" + pick(r, up) + "/" + pick(r, up) + "/" + pick(r, outside)
		case 2:
			target = mount + "//" + pick(r, outside)
		case 3:
			target = mount + "/%2f" + strings.ReplaceAll(pick(r, outside), "/", "%2f")
		case 4:
			target = mount + esc(in) + pick(r, []string{"/", "//", "/.", "/./", "/..", "/../", "%2f", "%2e", "\\", "/%2e%2e/"})
		case 5:
			target = "/" + mount + esc(in) + pick(r, []string{"", "/"})
		case 6:
			target = mount + "/" + pick(r, []string{"/evil.test/..", "/evil.test", "\\evil.test", "/\\evil.test", "%2f%2fevil.test", "%2fevil.test/%2e%2e"}) + pick(r, []string{"", "/sub", "/", "/.."})
		case 7:
			target = strings.ReplaceAll(mount+esc(in), "/", pick(r, []string{"//", "/./", "%2f", "/x/../"}))
		case 8:
			target = mount + "/" + strings.Repeat("../", r.Rng(1, 12)) + pick(r, outside)
		case 9:
			target = mount + "/" + strings.Repeat(pick(r, up)+"/", r.Rng(1, 4)) + strings.Repeat(r.Str("x/", "sub/", "./", "/", "x/../"), r.Tail(1, 40, 1000)) + pick(r, outside)
			c.Count("deep_hostile", 1)
		}
		if !strings.HasPrefix(target, "/") {
			target = "/" + target
		}
		target = strings.Map(func(x rune) rune {
			if x <= ' ' || x > '~' {
				return 'x'
			}
			return x
		}, target)
		res := get(target)
		c.Count("hostile", 1)
		if p, err := url.PathUnescape(target); err == nil && strings.HasPrefix(p, mount+"/") && strings.HasSuffix(p, "/") && strings.Contains(p, "//") && !strings.Contains(p, "/.") && !strings.Contains(p, "?") {
			// a directory, only with slashes repeated
			d := path.Clean(p[len(mount):])
			if _, ok := tree.dirs[d]; ok && p[len(mount):] != "/" && !leak(target, res) {
				c.Count("slashed_directories", 1)
				if !checkDir(target, d, res) {
					return
				}
			}
		}
		if res.Err != nil {
			c.Fail("wire", "%s", where(target, res))
			return
		}
		if leak(target, res) {
			return
		}
		// follow where it leads
		for k := 0; k < 3 && res.Head.Get("Location") != ""; k++ {
			b, err := url.Parse("http://example.test" + target)
			if err != nil {
				break
			}
			u, err := b.Parse(res.Head.Get("Location"))
			if err != nil {
				break
			}
			target = u.EscapedPath()
			res = get(target)
			if leak(target, res) {
				return
			}
		}
		c.Seen(target, mount, index)
		c.Sample(func() any { return where(target, res) })
	}
}

// listing reads the names out of a directory listing.
func listing(b []byte) (names []string, ok bool) {
	if !bytes.Contains(b, []byte("<pre>")) {
		return nil, false
	}
	for _, m := range c13link.FindAllSubmatch(b, -1) {
		n := html.UnescapeString(string(m[2]))
		names = append(names, n)
		u, err := url.Parse(html.UnescapeString(string(m[1])))
		if err != nil || strings.TrimPrefix(u.Path, "./") != n || u.Host != "" {
			return names, false
		}
	}
	return names, true
}

func eqSorted(a, b []string) bool {
	x := append([]string{}, a...)
	sort.Strings(x)
	if len(x) != len(b) {
		return false
	}
	for i := range x {
		if x[i] != b[i] {
			return false
		}
	}
	return true
}
