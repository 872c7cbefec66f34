package main

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/textproto"
	"net/url"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/meilihao/water/binding"
)

func init() {
	register(&Prop{ID: "C35", Quick: 40000, Thor: 800000,
		Rule: "a case is a struct type generated by reflection (all kinds of C16 and durations, arrays, pointers to pointers, slices and arrays, fields without a tag) and inputs for the second, field-name based binding from every source; value, error and which nil pointers were filled are compared with an independent decoder working from the type's description; some cases bind declared types with unexported embedded parts, uploaded files and maps. Non-trivial: a present key; distinct by kind, source, text class and presence.",
		Need: []string{"namesakes", "bindings", "succeeded", "refused", "values_set", "excluded_fields", "kept_fields", "defaults_applied", "by_field_name", "nested_by_name", "arrays", "durations", "slices", "pointers_filled", "pointers_left_nil", "from_form", "from_query", "from_header", "from_uri", "from_multipart", "map_targets", "embedded_unexported", "files_bound", "files_on_disk", "file_lookalikes", "malformed_input", "long_lists", "overwritten_keys"},
		Before: func(e *Env) {
			time.Local = time.FixedZone("HARNESS", 5*3600+1800)
			binding.Validator = nil
			binding.SetMultipartMemory(10) // some uploaded files stay in memory, others go to disk
		},
		Case: c35})
}

// key is the name a field answers to in the second binding.
func (f *bfield) key2(tag string) (key string, ok bool) {
	lit := f.spec[tag].lit
	if f.unexp || lit == "-" {
		return "", false
	}
	key, _, _ = strings.Cut(lit, ",")
	if key == "" {
		key = f.name
	}
	if tag == "header" {
		key = textproto.CanonicalMIMEHeaderKey(key)
	}
	return key, true
}

// apply2 is the decoder; it tells whether anything was set.
func (m *c16model) apply2(s *bstruct, v reflect.Value, path string) (set bool) {
	for i, f := range s.fields {
		p := path + "." + f.name
		x := v.Field(i)
		key, ok := f.key2(m.tag)
		if !ok {
			m.class[p] = "excluded"
			continue
		}
		sp := f.spec[m.tag]
		vals, present := m.form[key]
		if strings.HasPrefix(sp.lit, "-,") && present {
			m.odd = true
		}
		if f.sub != nil && !f.slice && (f.anon || !present) {
			m.class[p] = "inside"
			y := x
			if f.ptr {
				y = reflect.New(f.sub.typ).Elem()
				if !x.IsNil() {
					y = x.Elem()
				}
			}
			in := m.apply2(f.sub, y, p)
			if in {
				m.c.Count("nested_by_name", 1)
			}
			if f.ptr && x.IsNil() {
				if in {
					x.Set(y.Addr())
					m.c.Count("pointers_filled", 1)
				} else {
					m.c.Count("pointers_left_nil", 1)
				}
			}
			set = set || in
			continue
		}
		if oddTypes[f.kind] != nil {
			m.class[p] = "odd"
			_, a := m.form["A"]
			m.odd = m.odd || present || sp.all != "" || a && f.kind == "ppstruct"
			continue
		}
		switch {
		case present:
			m.class[p] = "value"
		case sp.all != "":
			m.class[p] = "default"
			vals = []string{sp.all}
		default:
			m.class[p] = "kept"
			continue
		}
		set = true
		if f.slice && f.ptr { // slices of pointers are not supported
			m.odd = true
			m.class[p] = "odd"
			continue
		}
		note := func(err error) {
			switch {
			case err == errEither:
				m.may = true
			case err != nil && m.must == nil:
				m.must = fmt.Errorf("field %s (%v): %w", p, f.typ, err)
			}
		}
		if present && sp.lit == "" {
			m.c.Count("by_field_name", 1)
		}
		if f.kind == "duration" {
			m.c.Count("durations", 1)
		}
		m.c.Seen(f.kind, f.typ.Kind(), m.tag, vals[0], present, f.tfmt)
		y := x
		for y.Kind() == reflect.Ptr {
			if y.IsNil() {
				m.c.Count("pointers_filled", 1)
				y.Set(reflect.New(y.Type().Elem()))
			}
			y = y.Elem()
		}
		switch {
		case f.slice:
			m.c.Count("slices", 1)
			n := reflect.MakeSlice(y.Type(), len(vals), len(vals))
			for j, t := range vals {
				note(f.conv(t, n.Index(j)))
			}
			y.Set(n)
		case f.arr > 0:
			m.c.Count("arrays", 1)
			if len(vals) != f.arr {
				note(fmt.Errorf("%d values", len(vals)))
				break
			}
			for j, t := range vals {
				note(f.conv(t, y.Index(j)))
			}
		default:
			note(f.conv(vals[0], y))
		}
	}
	return set
}

// nils compares which pointers to structs are nil.
func (m *c16model) nils(s *bstruct, got, want reflect.Value, path string) string {
	for i, f := range s.fields {
		if f.sub == nil || f.slice || f.unexp {
			continue
		}
		p := path + "." + f.name
		x, y := got.Field(i), want.Field(i)
		if f.ptr {
			if x.IsNil() != y.IsNil() {
				return fmt.Sprintf("%s is nil: %v, expected %v", p, x.IsNil(), y.IsNil())
			}
			if x.IsNil() {
				continue
			}
			x, y = x.Elem(), y.Elem()
		}
		if d := m.nils(f.sub, x, y, p); d != "" {
			return d
		}
	}
	return ""
}

type binder2 interface {
	Bind2(*http.Request, interface{}) error
}

func c35bind(c *C, source string, form map[string][]string, target interface{}) error {
	r := c.R
	c.Count("from_"+source, 1)
	enc := func(m map[string][]string) string { return url.Values(m).Encode() }
	switch source {
	case "uri":
		return binding.Uri.Bind2(form, target)
	case "header":
		req := Req("GET", "/")
		for k, v := range form {
			req.Header[k] = v
		}
		return binding.Header.Bind2(req, target)
	case "query":
		req := Req("GET", "/")
		req.URL.RawQuery = enc(form)
		return pick(r, []binder2{binding.Query, binding.Form}).Bind2(req, target)
	case "multipart":
		return binding.FormMultipart.Bind2(c35multipart(form, nil), target) // no files: nothing on disk
	default:
		q, p := map[string][]string{}, map[string][]string{}
		for _, k := range sortedKeys(form) {
			n := r.IntN(len(form[k]) + 1)
			if n > 0 {
				p[k] = form[k][:n]
			}
			if n < len(form[k]) {
				q[k] = form[k][n:]
			}
		}
		req := Req(pick(r, []string{"POST", "PUT", "PATCH"}), "/")
		req.URL.RawQuery = enc(q)
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		req.Body = io.NopCloser(strings.NewReader(enc(p)))
		return pick(r, []binder2{binding.Form, binding.FormPost}).Bind2(req, target)
	}
}

func c35multipart(form map[string][]string, files [][2]string) *http.Request {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	for _, k := range sortedKeys(form) {
		for _, v := range form[k] {
			must(w.WriteField(k, v))
		}
	}
	for _, f := range files {
		p, err := w.CreateFormFile(f[0], "name of "+f[1])
		must(err)
		io.WriteString(p, f[1])
	}
	must(w.Close())
	req := Req("POST", "/")
	req.Header.Set("Content-Type", w.FormDataContentType())
	req.Body = io.NopCloser(&b)
	return req
}

func c35(c *C) {
	r := c.R
	switch k := r.IntN(100); {
	case k < 6:
		c35declared(c)
		return
	case k < 12:
		c35files(c)
		return
	case k < 16:
		c35maps(c)
		return
	case k < 18:
		namesakes(c, func(s string, f map[string][]string, t interface{}) error { return c35bind(c, s, f, t) })
		return
	}
	g := &c16gen{r: r, hostil: r.Pct(30), two: true, keys: map[string]map[string][]*bfield{}}
	s := g.structType(0)
	keys2 := map[string]map[string][]*bfield{}
	var walk func(s *bstruct)
	walk = func(s *bstruct) {
		for _, f := range s.fields {
			for _, t := range c16tags {
				if k, ok := f.key2(t); ok && !(f.sub != nil && f.anon) {
					if keys2[t] == nil {
						keys2[t] = map[string][]*bfield{}
					}
					keys2[t][k] = append(keys2[t][k], f)
				}
			}
			if f.sub != nil {
				walk(f.sub)
			}
		}
	}
	walk(s)
	for trial := r.Rng(4, 10); trial > 0; trial-- {
		source := pick(r, []string{"form", "query", "header", "uri", "multipart"})
		tag := map[string]string{"header": "header", "uri": "uri"}[source]
		if tag == "" {
			tag = "form"
		}
		good := r.Pct(75)
		form := map[string][]string{}
		for _, k := range sortedKeys(keys2[tag]) {
			f := pick(r, keys2[tag][k])
			p := 55
			if f.sub != nil && !f.slice {
				p = 20
			}
			if oddTypes[f.kind] != nil {
				p = 8
			}
			if !r.Pct(p) {
				continue
			}
			n := 1
			if r.Pct(20) || f.slice && r.Pct(60) {
				n = r.Rng(2, 4)
				if f.sub == nil && r.Pct(1) && source != "multipart" { // Go's own limit is 1000 parts
					n = r.Rng(5, 3000)
					c.Count("long_lists", 1)
				}
			}
			if f.arr > 0 && r.Pct(85) {
				n = f.arr
			}
			for ; n > 0; n-- {
				form[k] = append(form[k], g.text(f, good || r.Pct(70)))
			}
		}
		if r.Pct(50) { // keys of nothing, or of what is excluded
			for i := r.Rng(1, 5); i > 0; i-- {
				k := pick(r, []string{"-", "F1.F2", "f1", "f2", "F1[]", "zz", "", "a.b"})
				if tag == "header" {
					k = textproto.CanonicalMIMEHeaderKey(k)
				}
				if keys2[tag][k] == nil {
					form[k] = []string{pick(r, []string{"1", "true", "evil", "{}"})}
				}
			}
		}
		for k := range form { // what cannot be sent
			if source == "multipart" && (k == "" || strings.ContainsAny(k, "\"\n\r\\")) {
				delete(form, k)
			}
		}
		seed := r.Uint64()
		mk := func() reflect.Value {
			h := &c16gen{r: newR(seed, "fill", 0), two: true}
			v := reflect.New(s.typ)
			if seed%4 != 0 {
				h.fill(s, v.Elem(), false)
			}
			return v
		}
		got, want := mk(), mk()
		m := &c16model{c: c, two: true, tag: tag, form: form, class: map[string]string{}}
		m.apply2(s, want.Elem(), "")
		var err error
		show := func() string {
			return fmt.Sprintf("source %s, type %v\ninput %q\nbefore %s", source, s.typ, form, showV(mk()))
		}
		p, crashed := try(func() { err = c35bind(c, source, form, got.Interface()) })
		c.Eval()
		c.Count("bindings", 1)
		switch {
		case crashed:
			c.Fail("crash", "binding crashed with %v\n%s", p, show())
			return
		case m.must != nil && err == nil:
			c.Fail("accepted", "no error, though %v\nbound %s\n%s", m.must, showV(got), show())
			return
		case m.must == nil && !m.may && !m.odd && err != nil:
			c.Fail("refused", "error %v, but every text denotes a value\n%s", err, show())
			return
		}
		if err == nil {
			c.Count("succeeded", 1)
		} else {
			c.Count("refused", 1)
		}
		failed := err != nil || m.must != nil
		if cl, d := m.judge(s, got.Elem(), want.Elem(), "", failed); d != "" {
			c.Fail(cl, "%s\nerror %v\n%s", d, err, show())
			return
		}
		if !failed && !m.odd {
			if d := m.nils(s, got.Elem(), want.Elem(), ""); d != "" {
				c.Fail("allocated", "%s\nbound %s\n%s", d, showV(got), show())
				return
			}
		}
	}
	c.Sample(func() any { return map[string]any{"type": s.typ.String()} })
}

type c35low struct {
	Low  int
	Text string `form:"text" uri:"text" header:"text"`
	hid  string
}
type c35word string
type C35Up struct {
	Up  *int
	Sub struct{ Deep []string }
}
type c35decl struct {
	c35low
	c35word
	*C35Up
	Plain string
	inner string
	Named c35low `form:"named"`
	Skip  C35Up  `form:"-" uri:"-" header:"-"`
}
type c35ptr struct {
	*c35low
	Plain string
}

// c35declared binds into types whose embedded parts are not all exported.
func c35declared(c *C) {
	r := c.R
	source := pick(r, []string{"form", "query", "header", "uri", "multipart"})
	form := map[string][]string{}
	put := func(k string, vs ...string) {
		if r.Pct(50) {
			if source == "header" {
				k = textproto.CanonicalMIMEHeaderKey(k)
			}
			form[k] = vs
		}
	}
	c.Eval()
	c.Count("bindings", 1)
	c.Count("embedded_unexported", 1)
	has := func(k string) bool {
		if source == "header" {
			k = textproto.CanonicalMIMEHeaderKey(k)
		}
		_, ok := form[k]
		return ok
	}
	put("Low", "7")
	put("text", "the text")
	put("hid", "evil")
	put("inner", "evil")
	put("c35low", `{"Low":3}`)
	put("c35word", "evil")
	put("Plain", "plain")
	if r.Pct(25) {
		t := &c35ptr{}
		given := r.Pct(50)
		if given {
			t.c35low = &c35low{Low: 1, hid: "h"}
		}
		var err error
		p, crashed := try(func() { err = c35bind(c, source, form, t) })
		c.Seen("ptr", source, given, has("Low"), has("text"), err == nil)
		inside := has("Low") || has("text")
		bad := crashed || given && err != nil || !inside && err != nil
		if !bad && err == nil {
			bad = has("Plain") != (t.Plain == "plain")
			if t.c35low == nil {
				bad = bad || given || inside // silently dropped
			} else {
				bad = bad || has("Low") && t.Low != 7 || has("text") && t.Text != "the text" || given && !has("Low") && t.Low != 1 || given != (t.hid == "h")
			}
		}
		if bad {
			c.Fail("embedded", "an embedded pointer to an unexported struct (given: %v): crash %v, error %v, bound %+v %+v from %s %q", given, p, err, t, t.c35low, source, form)
		}
		return
	}
	put("Up", "5")
	put("Deep", "a", "b")
	put("Skip", "{}")
	t := &c35decl{inner: "in", c35word: "w"}
	t.hid = "h"
	t.Named.hid = "n"
	var err error
	p, crashed := try(func() { err = c35bind(c, source, form, t) })
	c.Seen("decl", source, len(form), has("Up"), has("Deep"))
	want := &c35decl{inner: "in", c35word: "w"}
	want.hid, want.Named.hid = "h", "n"
	if has("Low") {
		want.Low, want.Named.Low = 7, 7
	}
	if has("text") {
		want.Text, want.Named.Text = "the text", "the text"
	}
	if has("Plain") {
		want.Plain = "plain"
	}
	if has("Up") || has("Deep") {
		want.C35Up = &C35Up{}
		if has("Up") {
			five := 5
			want.Up = &five
		}
		if has("Deep") {
			want.C35Up.Sub.Deep = []string{"a", "b"}
		}
	}
	if crashed || err != nil {
		c.Fail("embedded", "crash %v, error %v from %s %q", p, err, source, form)
		return
	}
	if !reflect.DeepEqual(t, want) {
		c.Fail("embedded", "bound %+v %+v, expected %+v %+v from %s %q", t, t.C35Up, want, want.C35Up, source, form)
	}
}

// drop removes what an upload left on disk.
func drop(req *http.Request) {
	if req.MultipartForm != nil {
		req.MultipartForm.RemoveAll()
	}
}

type c35upload struct {
	A *multipart.FileHeader   `form:"a"`
	B multipart.FileHeader    `form:"b"`
	C []*multipart.FileHeader `form:"c"`
	D [2]*multipart.FileHeader
	S string `form:"s"`
	N struct {
		E *multipart.FileHeader `form:"e"`
		V int                   `form:"v"`
	}
}

// c35files binds uploaded files; fields of no file stay empty whatever else is sent.
func c35files(c *C) {
	r := c.R
	form := map[string][]string{}
	var files [][2]string
	sent := map[string][]string{}
	for _, k := range []string{"a", "b", "c", "D", "e", "zz"} {
		if !r.Pct(50) {
			continue
		}
		n := r.Rng(1, 3)
		if k == "D" {
			n = 2
		}
		for ; n > 0; n-- {
			x := fmt.Sprintf("%s%d %s", k, n, r.Word())
			files = append(files, [2]string{k, x})
			sent[k] = append(sent[k], x)
		}
	}
	if r.Pct(60) {
		form["s"] = []string{"text"}
	}
	if r.Pct(40) {
		form["v"] = []string{"5"}
	}
	if r.Pct(20) { // text in a file's place
		k := r.Str("a", "b", "c", "e")
		if sent[k] == nil {
			form[k] = []string{pick(r, []string{`{"Filename":"evil","Size":3}`, "evil", ""})}
			t := &c35upload{}
			var err error
			req := c35multipart(form, files)
			defer drop(req)
			p, crashed := try(func() { err = binding.FormMultipart.Bind2(req, t) })
			c.Eval()
			if crashed || err == nil && (t.A != nil && t.A.Filename == "evil" || t.B.Filename == "evil" || t.N.E != nil && t.N.E.Filename == "evil") {
				c.Fail("files", "text for the file %s: crash %v, bound %+v\nform %q", k, p, t, form)
			}
			return
		}
	}
	if r.Pct(60) { // a file's facts do not make a file
		c.Count("file_lookalikes", 1)
		for _, k := range []string{"Filename", "Size", "Header"} {
			if r.Pct(70) {
				form[k] = []string{map[string]string{"Filename": "evil", "Size": "5", "Header": "{}"}[k]}
			}
		}
	}
	t := &c35upload{}
	if len(sent["c"]) > 0 && r.Pct(20) { // left from before
		t.C = make([]*multipart.FileHeader, r.Rng(1, 5))
	}
	var err error
	req := c35multipart(form, files)
	defer drop(req)
	p, crashed := try(func() { err = binding.FormMultipart.Bind2(req, t) })
	c.Eval()
	c.Count("bindings", 1)
	c.Seen("files", len(sent["a"]), len(sent["b"]), len(sent["c"]), len(sent["D"]), len(sent["e"]), len(form))
	fail := func(format string, a ...any) {
		c.Fail("files", "%s\nfiles %q form %q, bound %+v", fmt.Sprintf(format, a...), files, form, t)
	}
	if crashed || err != nil {
		fail("crash %v, error %v", p, err)
		return
	}
	same := func(what string, fh *multipart.FileHeader, i int) bool {
		if i >= len(sent[what]) {
			if fh != nil {
				fail("%s: no file was sent, bound %+v", what, fh)
				return false
			}
			return true
		}
		x := sent[what][i]
		if fh == nil || fh.Filename != "name of "+x || fh.Size != int64(len(x)) {
			fail("%s: bound %+v, sent was %q", what, fh, x)
			return false
		}
		f, err := fh.Open()
		if err != nil {
			fail("%s: %v", what, err)
			return false
		}
		defer f.Close()
		if _, ok := f.(*os.File); ok {
			c.Count("files_on_disk", 1)
		}
		if b, err := io.ReadAll(f); err != nil || string(b) != x {
			fail("%s: read %q %v, sent was %q", what, b, err, x)
			return false
		}
		c.Count("files_bound", 1)
		return true
	}
	var b *multipart.FileHeader
	if !reflect.DeepEqual(t.B, multipart.FileHeader{}) {
		b = &t.B
	}
	if !same("a", t.A, 0) || !same("b", b, 0) || !same("D", t.D[0], 0) || !same("D", t.D[1], 1) || !same("e", t.N.E, 0) {
		return
	}
	if len(t.C) != len(sent["c"]) {
		fail("%d files in the slice", len(t.C))
		return
	}
	for i, f := range t.C {
		if !same("c", f, i) {
			return
		}
	}
	if (t.S == "text") != (form["s"] != nil) || (t.N.V == 5) != (form["v"] != nil) {
		fail("the texts beside the files")
	}
}

// c35maps binds into maps, and hands in malformed input.
func c35maps(c *C) {
	r := c.R
	c.Eval()
	c.Count("bindings", 1)
	form := map[string][]string{}
	for i := r.IntN(6); i > 0; i-- {
		k := pick(r, append(c16hkeys, c16keys...))
		for n := r.Rng(1, 3); n > 0; n-- {
			form[k] = append(form[k], pick(r, c16strings))
		}
	}
	if r.Pct(30) {
		c.Count("malformed_input", 1)
		var t struct{ A, B string }
		req := Req("POST", "/")
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		var b binder2 = binding.Form
		switch r.IntN(4) {
		case 0:
			req.URL.RawQuery = "A=1&B=%zz"
		case 1:
			req.Body = io.NopCloser(strings.NewReader("A=%1&B=2"))
		case 2:
			b = binding.FormMultipart
			req.Header.Set("Content-Type", "multipart/form-data; boundary=xx")
			req.Body = io.NopCloser(strings.NewReader("--xx\r\nContent-Disposition: form-data; name=\"A\"\r\n\r\n1\r\n--x"))
		case 3:
			b = binding.FormMultipart
			req.Header.Set("Content-Type", "multipart/form-data")
			req.Body = io.NopCloser(strings.NewReader("--xx--"))
		}
		var err error
		if p, crashed := try(func() { err = b.Bind2(req, &t) }); crashed || err == nil {
			c.Fail("malformed", "crash %v, error %v, bound %+v for %v %q", p, err, t, req.Header, req.URL.RawQuery)
		}
		return
	}
	c.Count("map_targets", 1)
	source := pick(r, []string{"form", "query", "uri"})
	if source == "uri" && r.Pct(20) {
		form["none"] = []string{}
	}
	direct := r.Pct(50)
	c.Seen("map", source, form, direct)
	one, all := map[string]string{"old": "o"}, map[string][]string{"old": {"o"}}
	want1, wantAll := map[string]string{"old": "o"}, map[string][]string{"old": {"o"}}
	over := r.Pct(50)
	for k, v := range form {
		if over && len(v) > 0 {
			one[k], all[k] = "before", []string{"before", "that"}
			c.Count("overwritten_keys", 1)
		}
		if len(v) > 0 {
			want1[k] = v[len(v)-1]
		}
		wantAll[k] = v
	}
	bind := func(p, v any) {
		if direct {
			p = v
		}
		var err error
		if x, crashed := try(func() { err = c35bind(c, source, form, p) }); crashed || err != nil {
			c.Fail("map", "crash %v, error %v for %s %q", x, err, source, form)
		}
	}
	if r.Pct(50) {
		bind(&one, one)
		if !reflect.DeepEqual(one, want1) {
			c.Fail("map", "bound %q, expected %q for %s %q", one, want1, source, form)
		}
		return
	}
	bind(&all, all)
	if !reflect.DeepEqual(all, wantAll) {
		c.Fail("map", "bound %q, expected %q for %s %q", all, wantAll, source, form)
	}
}
