package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/textproto"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

func init() {
	register(&Prop{ID: "C21", Quick: 12000, Thor: 200000,
		Rule: "a case is one or two engines with their own multipart limits (unset, zero, negative, tiny up to megabytes, and 32 MB) and requests whose parts repeat names, sit at sizes around the limits and buffer boundaries and contain boundary look-alikes; a handler reads them in random order through FormFile, automatic and explicit binding, accessors and SaveUploadedFile onto absent, shorter and longer destinations. Names, order, bytes, sizes and whether each part lies in a temporary file are compared with the parts sent. Non-trivial: parts within one byte of a limit or buffer size, repeats, mixed memory and disk; distinct by limit, size relations and first access.",
		Need: []string{"requests", "files", "values", "in_memory", "on_disk", "exactly_at_limit", "one_over_limit", "default_limit", "default_limit_exceeded", "formfile_first", "bind_first", "query_first", "bindwith_first", "saved", "saved_over_longer", "saved_over_as_long", "save_refused", "save_no_space", "missing_file", "repeated_names", "cut_body", "twins", "left_closed", "wire", "two_engines", "giant_files"},
		Case: c21})
}

var c21n atomic.Int64

type c21part struct {
	name, file string
	isFile     bool
	body       []byte
	head       textproto.MIMEHeader
}

type c21target struct {
	V  string                  `form:"v"`
	W  []string                `form:"w"`
	F  *multipart.FileHeader   `form:"f"`
	Gs []*multipart.FileHeader `form:"g"`
}

// onDisk tells whether a part lies in a temporary file.
func onDisk(fh *multipart.FileHeader) bool {
	return reflect.ValueOf(fh).Elem().FieldByName("tmpfile").String() != ""
}

func c21(c *C) {
	r := c.R
	type eng struct {
		limit, eff int64
		e          *water.Engine
	}
	var h func(x *water.Context)
	mk := func() eng {
		v := eng{limit: pick(r, []int64{0, 1, 10, 100, 511, 512, 513, 4096, 32 << 10, 100000, 1 << 20, -1})}
		rt := water.NewRouter()
		var opts []water.Option
		v.eff = max(v.limit, 0)
		switch {
		case r.Pct(25):
			v.eff = 32 << 20
			c.Count("default_limit", 1)
		case v.limit == 0:
			v.eff, opts = 32<<20, append(opts, water.WithMaxMultipartMemory(0))
		default:
			opts = append(opts, water.WithMaxMultipartMemory(v.limit))
		}
		for _, m := range []string{"POST", "PUT", "PATCH", "DELETE", "OPTIONS"} {
			addRoute(rt, m, "/up", []interface{}{func(x *water.Context) { h(x) }})
		}
		if r.Pct(30) {
			rt.Use(func(x *water.Context) { x.Next() })
		}
		if r.Pct(40) {
			opts = append(opts, water.WithStaticRouter(r.Pct(70)))
			r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		}
		v.e = rt.Handler(opts...)
		return v
	}
	engs := []eng{mk()}
	if c.N%5000 == 11 {
		c21giant(c, engs[0].e, &h)
		return
	}
	if r.Pct(30) {
		engs = append(engs, mk())
		c.Count("two_engines", 1)
	}
	for k := r.Rng(1, 3); k > 0; k-- {
		en := pick(r, engs)
		c21one(c, en.e, en.eff, &h)
		if c.Failed() {
			return
		}
	}
}

// c21giant uploads one file of more than 64 megabytes.
func c21giant(c *C, e *water.Engine, h *func(x *water.Context)) {
	content := c.Bytes(c.Rng(65<<20, 72<<20))
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	p, err := w.CreateFormFile("f", "giant.bin")
	must(err)
	p.Write(content)
	must(w.Close())
	dst := filepath.Join(c.Dir, fmt.Sprint("giant-", c.N))
	defer os.Remove(dst)
	bad := "no handler"
	*h = func(x *water.Context) {
		f, fh, err := x.FormFile("f")
		if err != nil || fh.Size != int64(len(content)) {
			bad = fmt.Sprint("FormFile: ", err, fh)
			return
		}
		got, err := io.ReadAll(f)
		f.Close()
		if err != nil || !bytes.Equal(got, content) {
			bad = fmt.Sprint("read: ", len(got), err)
			return
		}
		if err := x.SaveUploadedFile(fh, dst); err != nil {
			bad = fmt.Sprint("saved: ", err)
			return
		}
		saved, err := os.ReadFile(dst)
		if bad = ""; err != nil || !bytes.Equal(saved, content) {
			bad = fmt.Sprintf("the saved file: %d bytes, %v", len(saved), err)
		}
	}
	q := Req("POST", "/up")
	q.Header.Set("Content-Type", w.FormDataContentType())
	q.Body = io.NopCloser(&b)
	Serve(e, q)
	if q.MultipartForm != nil {
		q.MultipartForm.RemoveAll()
	}
	c.Eval()
	c.Count("giant_files", 1)
	if bad != "" {
		c.Fail("giant", "a file of %d bytes: %s", len(content), bad)
	}
}

func c21one(c *C, e *water.Engine, limit int64, hp *func(x *water.Context)) {
	r := c.R
	bound := pick(r, []string{"xx", "----WebKitFormBoundary7MA4YWxkTrZu0gW", "a'b()+_,-./:=?z", "0"})
	var parts []c21part
	left := limit
	huge := limit == 32<<20 && c.N%(40) == 7
	for i := r.IntN(8); i > 0 || huge && len(parts) == 0; i-- {
		p := c21part{name: pick(r, []string{"v", "w", "f", "g", "f", "g", "w", "x", "é \"q\"", "a[b]", "files[]"}), isFile: r.Pct(65)}
		if p.name == "v" || p.name == "w" {
			p.isFile = false
		} else if p.name == "f" || p.name == "g" {
			p.isFile = true
		}
		n := 0
		switch r.IntN(6) {
		case 0:
			n = int(left) + r.Rng(-1, 1)
		case 1:
			n = int(limit) + r.Rng(-1, 1)
		case 2:
			n = pick(r, []int{4096, 32 << 10, 512, 65536}) + r.Rng(-1, 1)
		case 3:
			n = r.IntN(3)
		default:
			n = r.IntN(2000)
		}
		if n > 4<<20 && !(huge && len(parts) < 3) {
			n = r.IntN(5000)
		}
		if !p.isFile {
			n = min(n, 70000)
		}
		n = max(n, 0)
		if p.isFile {
			p.file = pick(r, []string{"a.txt", "a b.txt", "中.bin", "q\"uote.txt", "semi;colon", "noext", "x.tar.gz", ".hidden"})
			if k := len(parts); k > 0 && parts[k-1].isFile && parts[k-1].file == p.file && r.Pct(70) { // the same facts, other bytes
				p.name, n = parts[k-1].name, len(parts[k-1].body)
				c.Count("twins", 1)
			}
			if int64(n) == limit || int64(n) == left {
				c.Count("exactly_at_limit", 1)
			}
			if int64(n) == left+1 {
				c.Count("one_over_limit", 1)
				if limit == 32<<20 {
					c.Count("default_limit_exceeded", 1)
				}
			}
			if int64(n) <= left {
				left -= int64(n)
			}
		}
		p.body = r.Bytes(n)
		for k := r.IntN(4); k > 0 && n > 40; k-- { // look-alikes of the separator
			copy(p.body[r.IntN(n-30):], "\r\n--"+bound[:len(bound)-1]+"\x00")
		}
		if n > 2 && r.Pct(20) {
			copy(p.body[n-2:], "\r\n")
		}
		if !p.isFile && r.Pct(60) {
			p.body = []byte(c20text(r))
		}
		parts = append(parts, p)
	}
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	must(w.SetBoundary(bound))
	esc := strings.NewReplacer("\\", "\\\\", `"`, "\\\"")
	count := map[string]int{}
	var cuts []int
	for _, p := range parts {
		hd := textproto.MIMEHeader{}
		d := fmt.Sprintf(`form-data; name="%s"`, esc.Replace(p.name))
		if p.isFile {
			d += fmt.Sprintf(`; filename="%s"`, esc.Replace(p.file))
		}
		hd.Set("Content-Disposition", d)
		if p.isFile && r.Pct(50) {
			hd.Set("Content-Type", "application/octet-stream")
		}
		pw, err := w.CreatePart(hd)
		must(err)
		if len(p.body) > 0 { // the parser takes an end within a part's head for the end of the form
			cuts = append(cuts, b.Len()+r.IntN(len(p.body)))
		}
		pw.Write(p.body)
		count[p.name]++
		if count[p.name] == 2 {
			c.Count("repeated_names", 1)
		}
	}
	must(w.Close())
	raw := b.Bytes()
	files, vals := map[string][]c21part{}, map[string][]string{}
	left = limit
	disk := map[string][]bool{}
	for _, p := range parts {
		if !p.isFile {
			vals[p.name] = append(vals[p.name], string(p.body))
			continue
		}
		d := int64(len(p.body)) > left
		if !d {
			left -= int64(len(p.body))
		}
		files[p.name] = append(files[p.name], p)
		disk[p.name] = append(disk[p.name], d)
	}
	cut := r.Pct(6) && len(cuts) > 0
	if cut {
		raw = raw[:pick(r, cuts)]
		c.Count("cut_body", 1)
	}
	method := pick(r, []string{"POST", "POST", "PUT", "PATCH"})
	if r.Pct(15) { // others carry forms too, for those who ask for one
		method = r.Str("DELETE", "OPTIONS")
		c.Count("other_methods", 1)
	}
	other := method == "DELETE" || method == "OPTIONS"
	first := ""
	var sizes []int
	for _, p := range parts {
		sizes = append(sizes, len(p.body))
	}
	bad := false
	fail := func(sig, format string, a ...any) {
		if !bad {
			bad = true
			c.Fail(sig, "%s\n%s with limit %d, parts %v of sizes %v, first access %s", fmt.Sprintf(format, a...), method, limit, partNames(parts), sizes, first)
		}
	}
	checkFH := func(how string, fh *multipart.FileHeader, p c21part, d bool) {
		c.Count("files", 1)
		if fh == nil {
			fail("file", "%s: no file for %q", how, p.name)
			return
		}
		if fh.Filename != p.file || fh.Size != int64(len(p.body)) {
			fail("file", "%s: file %q is %q of %d bytes, sent %q of %d", how, p.name, fh.Filename, fh.Size, p.file, len(p.body))
			return
		}
		f, err := fh.Open()
		if err != nil {
			fail("file", "%s: file %q cannot be opened: %v", how, p.name, err)
			return
		}
		got, err := io.ReadAll(f)
		f.Close()
		if err != nil || !bytes.Equal(got, p.body) {
			fail("file", "%s: file %q has %d bytes that differ from the %d sent (%v)", how, p.name, len(got), len(p.body), err)
		}
		if onDisk(fh) != d {
			fail("limit", "%s: file %q of %d bytes in a temporary file: %v, expected %v", how, p.name, len(p.body), onDisk(fh), d)
		}
		if d {
			c.Count("on_disk", 1)
		} else {
			c.Count("in_memory", 1)
		}
	}
	checkSet := func(how string, fhs []*multipart.FileHeader, name string) {
		if len(fhs) != len(files[name]) {
			fail("file", "%s: %d files named %q, sent %d", how, len(fhs), name, len(files[name]))
			return
		}
		for i, fh := range fhs {
			checkFH(fmt.Sprintf("%s[%d]", how, i), fh, files[name][i], disk[name][i])
		}
	}
	bind := func(how string, f func(t *c21target) error) {
		t := &c21target{}
		if err := f(t); err != nil {
			if !cut {
				fail("bind", "%s: %v", how, err)
			}
			return
		} else if cut {
			fail("cut", "%s of a body cut at %d succeeded", how, len(raw))
			return
		}
		if v := vals["v"]; len(v) == 0 && t.V != "" || len(v) > 0 && t.V != v[0] {
			fail("value", "%s: v is %q, sent %q", how, t.V, v)
		}
		if v := vals["w"]; len(v) != len(t.W) || len(v) > 0 && !reflect.DeepEqual(t.W, v) {
			fail("value", "%s: w is %q, sent %q", how, t.W, v)
		}
		c.Count("values", len(vals["v"])+len(vals["w"]))
		if how == "BindWith form" { // which knows values only
			c.Count("bound_as_form", 1)
			return
		}
		if l := files["f"]; len(l) > 0 {
			checkFH(how, t.F, l[0], disk["f"][0])
		} else if t.F != nil {
			fail("file", "%s: f is a file, none was sent", how)
		}
		checkSet(how, t.Gs, "g")
	}
	ran := false
	*hp = func(x *water.Context) {
		ran = true
		ops := r.Perm(6)
		for i, o := range ops {
			if i == 0 {
				first = []string{"formfile", "bind", "bindwith", "query", "formfile", "bind"}[o]
				c.Count(first+"_first", 1)
			}
			if cut && o != 1 && o != 2 && !(o == 0 || o == 4) {
				continue
			}
			if cut && i > 0 { // only the first access says what happened
				break
			}
			switch o {
			case 0, 4:
				n := pick(r, []string{"f", "g", "x", "é \"q\"", "nope", "v"})
				f, fh, err := x.FormFile(n)
				if cut {
					if err == nil {
						fail("cut", "FormFile of a body cut at %d succeeded", len(raw))
					}
					continue
				}
				l := files[n]
				if len(l) == 0 {
					c.Count("missing_file", 1)
					if !errors.Is(err, http.ErrMissingFile) {
						fail("missing", "FormFile(%q) gave %v, there is none", n, err)
					}
					continue
				}
				if err != nil {
					fail("file", "FormFile(%q): %v", n, err)
					continue
				}
				got, rerr := io.ReadAll(f)
				f.Close()
				if rerr != nil || !bytes.Equal(got, l[0].body) {
					fail("file", "FormFile(%q) reads %d bytes that differ from the %d sent (%v)", n, len(got), len(l[0].body), rerr)
				}
				checkFH("FormFile", fh, l[0], disk[n][0])
				if r.Pct(60) {
					c21save(c, fail, x, fh, l[0].body)
				}
			case 1, 5:
				if other { // Bind takes form values only
					bind("BindWith multipart", func(t *c21target) error { return x.BindWith(t, binding.FormMultipart) })
					continue
				}
				bind("Bind", func(t *c21target) error { return x.Bind(t) })
			case 2:
				b := pick(r, []binding.Bindinger{binding.FormMultipart, binding.Form})
				if other {
					b = binding.FormMultipart
				}
				bind("BindWith "+b.Name(), func(t *c21target) error { return x.BindWith(t, b) })
			case 3:
				if other { // net/http leaves these bodies alone
					continue
				}
				for _, n := range []string{"w", "v", "é \"q\"", "a[b]"} {
					a := x.QueryArray(n)
					if len(a) != len(vals[n]) {
						fail("value", "QueryArray(%q) is %q, sent %q", n, a, vals[n])
						continue
					}
					for i := range a {
						c.Count("values", 1)
						if a[i] != strings.TrimSpace(vals[n][i]) {
							fail("value", "QueryArray(%q)[%d] is %.60q, sent %.60q", n, i, a[i], vals[n][i])
						}
					}
				}
			}
		}
		if !cut {
			mf := x.Request.MultipartForm
			if mf == nil {
				fail("form", "no parsed form after all accesses")
				return
			}
			if len(mf.File) != len(files) || len(mf.Value) != len(vals) {
				fail("form", "form has %d file and %d value names, sent %d and %d", len(mf.File), len(mf.Value), len(files), len(vals))
			}
			for n := range files {
				checkSet("form", mf.File[n], n)
			}
			for n := range vals {
				if !reflect.DeepEqual(mf.Value[n], vals[n]) {
					fail("value", "form values of %q differ from those sent", n)
				}
			}
			mf.RemoveAll()
		}
		x.WriteHeader(204)
	}
	c.Eval()
	c.Count("requests", 1)
	rel := ""
	for _, s := range sizes {
		switch d := int64(s) - limit; {
		case d < -1:
			rel += "<"
		case d > 1:
			rel += ">"
		default:
			rel += fmt.Sprint(d)
		}
	}
	c.Seen(limit, rel, partNames(parts), cut)
	ct := `multipart/form-data; boundary="` + bound + `"`
	if c.N%5 == 3 {
		c.Count("wire", 1)
		s := Listen(e)
		defer s.Close()
		var res *Resp
		if r.Pct(50) {
			hd := Line(method, "/up", [][2]string{{"Content-Type", ct}, {"Transfer-Encoding", "chunked"}}, nil)
			ps := [][]byte{hd}
			for rest := raw; len(rest) > 0; {
				n := min(len(rest), r.Rng(1, 1+len(raw)/2))
				ps = append(ps, []byte(fmt.Sprintf("%x\r\n%s\r\n", n, rest[:n])))
				rest = rest[n:]
			}
			res = s.RawParts(method, append(ps, []byte("0\r\n\r\n"))...)
		} else {
			res = s.Raw(method, Line(method, "/up", [][2]string{{"Content-Type", ct}}, raw))
		}
		if res.Err != nil || res.Status != 204 {
			fail("answer", "%v", res)
		}
	} else {
		req := Req(method, "/up")
		req.Header.Set("Content-Type", ct)
		req.Body = io.NopCloser(bytes.NewReader(raw))
		req.ContentLength = int64(len(raw))
		if p, crashed := try(func() { Serve(e, req) }); crashed {
			fail("crash", "crashed: %v", p)
		}
	}
	if !ran {
		panic("harness: not routed")
	}
	c.Sample(func() any {
		return map[string]any{"limit": limit, "parts": partNames(parts), "sizes": sizes, "first": first}
	})
}

func partNames(parts []c21part) (l []string) {
	for _, p := range parts {
		n := p.name
		if p.isFile {
			n += "@"
		}
		l = append(l, n)
	}
	return
}

// c21open counts the descriptors of this process that are open on a path.
func c21open(path string) int {
	n := 0
	if path != "" {
		fds, _ := os.ReadDir("/proc/self/fd")
		for _, fd := range fds {
			if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.TrimSuffix(l, " (deleted)") == path {
				n++
			}
		}
	}
	return n
}

func c21save(c *C, fail func(sig, format string, a ...any), x *water.Context, fh *multipart.FileHeader, body []byte) {
	r := c.R
	dst := filepath.Join(c.Dir, fmt.Sprintf("saved-%d", c21n.Add(1)))
	if r.Pct(20) {
		tmp := reflect.ValueOf(fh).Elem().FieldByName("tmpfile").String()
		before := c21open(tmp)
		defer func() {
			c.Count("left_closed", 1)
			if n, m := c21open(tmp)-before, c21open(dst); n > 0 || m > 0 {
				fail("open", "saving left %d uploads and %d saved files open", n, m)
			}
		}()
	}
	switch r.IntN(5) {
	case 0:
		mustWrite(dst, r.Bytes(len(body)+r.Rng(1, 5000)))
		c.Count("saved_over_longer", 1)
	case 1:
		n := len(body) / 2
		if r.Pct(60) {
			n = len(body)
			c.Count("saved_over_as_long", 1)
		}
		mustWrite(dst, r.Bytes(n))
		if r.Pct(30) { // written before or after this upload, whatever the clocks say
			t := time.Now().Add(time.Duration(r.Rng(-48, 48)) * time.Hour)
			must(os.Chtimes(dst, t, t))
		}
	case 2:
		if r.Pct(30) {
			c.Count("save_refused", 1)
			if err := x.SaveUploadedFile(fh, filepath.Join(dst, "no", "such")); err == nil {
				fail("save", "saving into a directory that is not there succeeded")
			}
			return
		}
		if len(body) > 0 && r.Pct(40) { // a device without space
			c.Count("save_no_space", 1)
			if os.Symlink("/dev/full", dst) != nil {
				return
			}
			if err := x.SaveUploadedFile(fh, dst); err == nil {
				if fi, e := os.Lstat(dst); e != nil || !fi.Mode().IsRegular() {
					fail("save", "saving %d bytes to a full device succeeded", len(body))
				} else if got, e := os.ReadFile(dst); e != nil || !bytes.Equal(got, body) {
					fail("save", "the saved file has %d bytes that differ from the %d uploaded (%v)", len(got), len(body), e)
				}
			}
			os.Remove(dst)
			return
		}
	}
	for k := r.Rng(1, 2); k > 0; k-- {
		c.Count("saved", 1)
		if err := x.SaveUploadedFile(fh, dst); err != nil {
			fail("save", "saving: %v", err)
			return
		}
		got, err := os.ReadFile(dst)
		if err != nil || !bytes.Equal(got, body) {
			fail("save", "the saved file has %d bytes that differ from the %d uploaded (%v)", len(got), len(body), err)
		}
	}
	os.Remove(dst)
}
