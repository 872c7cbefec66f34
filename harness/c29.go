package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

func init() {
	register(&Prop{ID: "C29", Quick: 12000, Thor: 400000,
		Rule: "a case is a generated target type (scalars of every width, strings, times, byte strings, interfaces, pointers, slices, arrays, maps, nested structs, or one of these itself as the target) with a value of it, spelled as a JSON or XML document (own writer: key order, blanks, escapes, number spellings, unknown members; up to megabytes and hundreds of levels) and delivered in pieces of every size, with empty reads, end-of-file with or after the data, or over a real connection; the bound target is compared with the value. Then the same document truncated at a place, with a byte changed, a value of the wrong type put in, its reading failing at a place, or missing, which has to be an error if Go's own decoder of the format says so. Non-trivial: every document; distinct by type, document and fault.",
		Need: []string{"json", "xml", "bound", "truncated", "mutated", "type_broken", "read_errors", "missing_bodies", "over_64k", "over_1m", "deep", "chunked_connection", "cut_connection", "closed", "time_targets", "slice_targets", "scalar_targets", "map_targets", "interface_targets", "pointer_targets", "through_engine", "empty_reads", "escaped_names", "endless", "padded", "over_33m"},
		Case: c29})
}

var d29scalars = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(time.Time{}),
}
var (
	d29iface = reflect.TypeOf((*interface{})(nil)).Elem()
	d29bytes = reflect.TypeOf([]byte(nil))
	d29time  = reflect.TypeOf(time.Time{})
)

func d29struct(r R, depth int, isXML, root bool) reflect.Type {
	var fs []reflect.StructField
	if isXML && root {
		fs = append(fs, reflect.StructField{Name: "XMLName", Type: reflect.TypeOf(xml.Name{}), Tag: `xml:"doc" json:"-"`})
	}
	for i, n := 0, r.Rng(1, 6); i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: d29type(r, depth+1, isXML)}
		name := fmt.Sprintf("%s%d", r.Str("name", "id", "x", "Key", "a_b", "F", "é"), i)
		if isXML {
			switch {
			case r.Pct(8):
				f.Tag = `xml:"-"`
			case r.Pct(25) && f.Type.Kind() != reflect.Struct && f.Type.Kind() != reflect.Slice || f.Type == d29time && r.Pct(25):
				t := f.Type
				for t.Kind() == reflect.Ptr {
					t = t.Elem()
				}
				if t.Kind() != reflect.Struct && t.Kind() != reflect.Slice || t == d29time && f.Type == t {
					f.Tag = reflect.StructTag(fmt.Sprintf(`xml:"%s,attr"`, name))
				} else {
					f.Tag = reflect.StructTag(fmt.Sprintf(`xml:"%s"`, name))
				}
			case r.Pct(15) && f.Type.Kind() == reflect.Slice:
				f.Tag = reflect.StructTag(fmt.Sprintf(`xml:"%s>item"`, name))
			case r.Pct(85):
				f.Tag = reflect.StructTag(fmt.Sprintf(`xml:"%s"`, name))
			}
		} else {
			switch {
			case r.Pct(8):
				f.Tag = `json:"-"`
			case r.Pct(30):
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"%s,omitempty"`, name))
			case r.Pct(80):
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"%s"`, name))
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func d29type(r R, depth int, isXML bool) reflect.Type {
	x := r.IntN(100)
	if depth > 3 {
		x = r.IntN(50)
	}
	sub := func() reflect.Type { return d29type(r, depth+1, isXML) }
	if isXML {
		switch {
		case x < 55:
			return pick(r, d29scalars)
		case x < 65:
			return reflect.PointerTo(pick(r, d29scalars))
		case x < 82:
			t := sub()
			for t.Kind() == reflect.Slice || t.Kind() == reflect.Uint8 || t.Kind() == reflect.Ptr && t.Elem().Kind() != reflect.Struct {
				t = sub()
			}
			return reflect.SliceOf(t)
		}
		t := d29struct(r, depth, true, false)
		if r.Pct(30) {
			return reflect.PointerTo(t)
		}
		return t
	}
	switch {
	case x < 45:
		return pick(r, d29scalars)
	case x < 50:
		return d29bytes
	case x < 55:
		return d29iface
	case x < 65:
		return reflect.PointerTo(sub())
	case x < 77:
		return reflect.SliceOf(sub())
	case x < 80:
		return reflect.ArrayOf(r.Rng(1, 3), sub())
	case x < 88:
		return reflect.MapOf(pick(r, []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(int(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int64(0))}), sub())
	}
	return d29struct(r, depth, false, false)
}

var d29words = []string{"", "a", "abc def", "null", "true", "12", "\"", "\\", "</x>", "<&>'\"", "]]>", "é中😀", "\t\n", " lead and trail ", "\r\n", "\u2028", "%s%d", "{\"a\":1}", "\\u0041"}

func d29string(r R, isXML bool) string {
	if r.Pct(70) {
		return pick(r, d29words) + pick(r, d29words)
	}
	s := []rune{}
	for i := r.Rng(0, 20); i > 0; i-- {
		x := pick(r, []rune{rune(r.IntN(0x80)), rune(r.IntN(0x800)), rune(r.IntN(0xD800)), rune(0xE000 + r.IntN(0x1FFE)), rune(0x10000 + r.IntN(0x100000))})
		if isXML && (x < 0x20 && x != '\t' && x != '\n' && x != '\r' || x == 0xFFFE || x == 0xFFFF) {
			continue
		}
		s = append(s, x)
	}
	return string(s)
}

type d29gen struct {
	R
	xml  bool
	left int // values still allowed
}

func (g *d29gen) any(depth int) interface{} {
	r := g.R
	x := r.IntN(7)
	if depth > 4 {
		x = r.IntN(4)
	}
	switch x {
	case 0:
		return nil
	case 1:
		return r.Pct(50)
	case 2:
		return pick(r, []float64{0, 1, -1, 1.5, 1e300, 5e-324, 123456789012345680, -0.1, float64(r.IntN(1000))})
	case 3, 4:
		return d29string(r, false)
	case 5:
		l := []interface{}{}
		for i := r.IntN(4); i > 0; i-- {
			l = append(l, g.any(depth+1))
		}
		return l
	}
	m := map[string]interface{}{}
	for i := r.IntN(4); i > 0; i-- {
		m[d29string(r, false)] = g.any(depth + 1)
	}
	return m
}

func (g *d29gen) fill(v reflect.Value, depth int) {
	r := g.R
	g.left--
	switch v.Type() {
	case d29time:
		off := r.Rng(-14*60, 14*60)
		loc := time.FixedZone("", off*60)
		if off == 0 || r.Pct(40) {
			loc = time.UTC
		}
		v.Set(reflect.ValueOf(time.Date(r.Rng(1, 9999), time.Month(r.Rng(1, 12)), r.Rng(1, 28), r.IntN(24), r.IntN(60), r.IntN(60), pick(r, []int{0, 0, 1, 999999999, 120000000}), loc)))
		return
	case d29bytes:
		if g.xml {
			break
		}
		v.SetBytes(r.Bytes(r.Rng(0, 40)))
		return
	case d29iface:
		if x := g.any(depth); x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Pct(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := v.Type().Bits()
		v.SetInt(pick(r, []int64{0, 1, -1, 1<<(n-1) - 1, -1 << (n - 1), int64(r.Uint64()) >> (64 - n)}))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := v.Type().Bits()
		v.SetUint(pick(r, []uint64{0, 1, 1<<n - 1, 1 << (n - 1), r.Uint64() >> (64 - n)}))
	case reflect.Float32:
		v.SetFloat(float64(pick(r, []float32{0, 1, -1.5, math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 16777217, math.Float32frombits(r.Uint32() & 0xBF7FFFFF)})))
	case reflect.Float64:
		v.SetFloat(pick(r, []float64{0, 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1 << 53, 1e21, 1e-7, math.Float64frombits(r.Uint64() & 0xBFEFFFFFFFFFFFFF)}))
	case reflect.String:
		v.SetString(d29string(r, g.xml))
	case reflect.Ptr:
		if r.Pct(65) && g.left > 0 {
			x := reflect.New(v.Type().Elem())
			g.fill(x.Elem(), depth+1)
			k := x.Elem().Kind()
			if (k == reflect.Ptr || k == reflect.Interface || k == reflect.Map || k == reflect.Slice) && x.Elem().IsNil() {
				return // a null reads as the outer pointer's
			}
			v.Set(x)
		}
	case reflect.Slice:
		n := r.IntN(4)
		if g.left <= 0 || n == 0 && (g.xml || r.Pct(50)) {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			if g.xml && s.Index(i).Kind() == reflect.Ptr {
				s.Index(i).Set(reflect.New(v.Type().Elem().Elem()))
				g.fill(s.Index(i).Elem(), depth+1)
				continue
			}
			g.fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		if g.left <= 0 || r.Pct(15) {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := r.IntN(4); i > 0; i-- {
			k, x := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			g.fill(k, depth+1)
			g.fill(x, depth+1)
			m.SetMapIndex(k, x)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Name == "XMLName" {
				v.Field(i).Set(reflect.ValueOf(xml.Name{Local: "doc"}))
				continue
			}
			if f.Tag.Get("json") == "-" || f.Tag.Get("xml") == "-" {
				continue
			}
			g.fill(v.Field(i), depth+1)
		}
	}
}

// ---- JSON, spelled by hand

type d29w struct {
	R
	b   strings.Builder
	ws  bool
	pos []int // where values begin and end, flat

	escKeys bool // member names may be escaped too
}

func (w *d29w) sp() {
	if w.ws && w.Pct(30) {
		w.b.WriteString(pick(w.R, []string{" ", "\n", "\t", "\r\n", "   "}))
	}
}

func (w *d29w) key(s string) {
	if w.escKeys {
		w.str(s)
		return
	}
	b, _ := json.Marshal(s)
	for bytes.Contains(b, []byte(`\u`)) { // the escapes of Go's encoder: controls, <>&
		b = []byte(`"` + strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&", `\u2028`, "\u2028", `\u2029`, "\u2029").Replace(string(b[1:len(b)-1])) + `"`)
		break
	}
	w.b.Write(b)
}

func (w *d29w) str(s string) {
	w.b.WriteByte('"')
	for _, x := range s {
		switch {
		case x == '"' || x == '\\':
			w.b.WriteByte('\\')
			w.b.WriteRune(x)
		case x == '\n' && w.Pct(50):
			w.b.WriteString(`\n`)
		case x == '\t' && w.Pct(50):
			w.b.WriteString(`\t`)
		case x == '/' && w.Pct(30):
			w.b.WriteString(`\/`)
		case x < 0x20 || w.Pct(5):
			if x >= 0x10000 {
				x -= 0x10000
				fmt.Fprintf(&w.b, `\u%04x\u%04X`, 0xD800+(x>>10), 0xDC00+(x&0x3FF))
			} else {
				fmt.Fprintf(&w.b, `\u%04X`, x)
			}
		default:
			w.b.WriteRune(x)
		}
	}
	w.b.WriteByte('"')
}

func (w *d29w) unknown() {
	w.b.WriteString(pick(w.R, []string{`1`, `"x"`, `null`, `{"a":[1,{"b":"}"}]}`, `[[],[[]],"]"]`, `-1.5e-3`, `true`, `"\\\""`, `{}`}))
}

func (w *d29w) val(v reflect.Value) {
	w.sp()
	start := w.b.Len()
	defer func() {
		w.pos = append(w.pos, start, w.b.Len())
		w.sp()
	}()
	switch v.Type() {
	case d29time:
		w.b.WriteString(`"` + v.Interface().(time.Time).Format(time.RFC3339Nano) + `"`)
		return
	case d29bytes:
		if v.IsNil() {
			w.b.WriteString("null")
			return
		}
		w.str(base64.StdEncoding.EncodeToString(v.Bytes()))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		w.b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		w.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		s := strconv.FormatFloat(v.Float(), byte(pick(w.R, []rune{'g', 'e', 'E'})), -1, v.Type().Bits())
		if f := v.Float(); f == math.Trunc(f) && math.Abs(f) < 1e15 && w.Pct(50) {
			s = strconv.FormatFloat(f, 'f', w.IntN(3), 64)
		}
		w.b.WriteString(s)
	case reflect.String:
		w.str(v.String())
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			w.b.WriteString("null")
			return
		}
		w.val(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			w.b.WriteString("null")
			return
		}
		w.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.val(v.Index(i))
		}
		w.sp()
		w.b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			w.b.WriteString("null")
			return
		}
		w.b.WriteByte('{')
		for i, k := range v.MapKeys() {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.sp()
			w.key(fmt.Sprint(k.Interface()))
			w.sp()
			w.b.WriteByte(':')
			w.val(v.MapIndex(k))
		}
		w.sp()
		w.b.WriteByte('}')
	case reflect.Struct:
		w.b.WriteByte('{')
		first := true
		comma := func() {
			if !first {
				w.b.WriteByte(',')
			}
			first = false
			w.sp()
		}
		extra := func() {
			for w.Pct(6) {
				comma()
				w.key("unknown" + strconv.Itoa(w.IntN(5)))
				w.sp()
				w.b.WriteByte(':')
				w.sp()
				w.unknown()
				w.sp()
			}
		}
		for _, i := range w.Perm(v.NumField()) {
			extra()
			f := v.Type().Field(i)
			name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
			if name == "-" {
				if w.Pct(30) {
					comma()
					w.key(f.Name)
					w.b.WriteByte(':')
					w.unknown()
				}
				continue
			}
			if name == "" {
				name = f.Name
			}
			if v.Field(i).IsZero() && w.Pct(50) {
				continue
			}
			comma()
			w.key(name)
			w.sp()
			w.b.WriteByte(':')
			w.val(v.Field(i))
		}
		extra()
		w.sp()
		w.b.WriteByte('}')
	default:
		panic("harness: json of " + v.Type().String())
	}
}

// ---- delivery

var errC29 = errors.New("the connection broke")

type d29body struct {
	left   []byte
	r      R
	max    int
	empty  int // still allowed empty reads in a row
	err    error
	with   bool // the error comes with the last data
	closed int
	reads  int
	empt   int
}

func (b *d29body) Read(p []byte) (int, error) {
	b.reads++
	if b.closed > 0 {
		return 0, http.ErrBodyReadAfterClose
	}
	if len(b.left) == 0 {
		return 0, b.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if b.max < 4000 && b.empty > 0 && b.r.Pct(10) {
		b.empty--
		b.empt++
		return 0, nil
	}
	n := b.max
	if b.r.Pct(50) {
		n = b.r.Rng(1, b.max)
	}
	n = copy(p[:min(n, len(p))], b.left)
	b.left = b.left[n:]
	if len(b.left) == 0 && b.with {
		return n, b.err
	}
	return n, nil
}
func (b *d29body) Close() error { b.closed++; return nil }

// wants is what Go's own decoder of the format makes of the bytes.
func d29std(isXML bool, doc []byte, t reflect.Type) (reflect.Value, error) {
	v := reflect.New(t)
	if isXML {
		return v, xml.NewDecoder(bytes.NewReader(doc)).Decode(v.Interface())
	}
	return v, json.NewDecoder(bytes.NewReader(doc)).Decode(v.Interface())
}

func c29(c *C) {
	r := c.R
	isXML := r.Pct(30)
	kind := "json"
	var b binding.Bindinger = binding.JSON
	ct := "application/json"
	if isXML {
		kind, b, ct = "xml", binding.XML, r.Str("application/xml", "text/xml")
	}
	if r.Pct(40) {
		ct += r.Str("; charset=utf-8", ";charset=UTF-8", "; a=b")
	}
	c.Count(kind, 1)
	if r.Pct(4) {
		c29odd(c, isXML, b, ct)
		return
	}

	// the value
	var t reflect.Type
	if isXML || r.Pct(60) {
		t = d29struct(r, 0, isXML, true)
	} else {
		t = d29type(r, 0, false)
		switch {
		case t == d29time || t.Kind() == reflect.Slice && t.Elem() == d29time:
			c.Count("time_targets", 1)
		case t.Kind() == reflect.Slice:
			c.Count("slice_targets", 1)
		case t.Kind() == reflect.Map:
			c.Count("map_targets", 1)
		case t.Kind() == reflect.Interface:
			c.Count("interface_targets", 1)
		case t.Kind() == reflect.Ptr:
			c.Count("pointer_targets", 1)
		default:
			c.Count("scalar_targets", 1)
		}
	}
	g := &d29gen{R: r, xml: isXML, left: 60}
	v := reflect.New(t).Elem()
	g.fill(v, 0)
	var doc []byte
	var pos []int
	if isXML {
		var err error
		switch r.IntN(3) {
		case 0:
			doc, err = xml.MarshalIndent(v.Interface(), "", r.Str(" ", "\t", "  "))
		default:
			doc, err = xml.Marshal(v.Interface())
		}
		must(err)
		if r.Pct(30) {
			i := bytes.IndexByte(doc, '>') + 1
			doc = append(append(append([]byte{}, doc[:i]...), r.Str(`<zz a="1"><y/>t</zz>`, `<!-- c -->`, `<zz></zz>`)...), doc[i:]...)
		}
		if r.Pct(40) {
			doc = append([]byte(xml.Header), doc...)
		}
	} else {
		w := &d29w{R: r, ws: r.Pct(50), escKeys: r.Pct(20)}
		if w.escKeys {
			c.Count("escaped_names", 1)
		}
		w.val(v)
		doc, pos = []byte(w.b.String()), w.pos
	}
	// a large document: a big string or array within
	if r.Pct(4) {
		n := pick(r, []int{1 << 12, 1 << 16, 1 << 17, 1<<20 + 1, 3 << 20})
		s := strings.Repeat(r.Str("abcdefgh", "é中", "x"), n/3)
		l := make([]int, n/8)
		if r.OneIn(30) { // more than any limit one would think of
			s, l = strings.Repeat("abcdefgh", r.Rng(33, 50)<<17), l[:10]
			c.Count("over_33m", 1)
		}
		for i := range l {
			l[i] = i * 7919
		}
		if isXML {
			type T struct {
				XMLName xml.Name `xml:"doc"`
				S       string   `xml:"s"`
				L       []int    `xml:"l"`
			}
			x := T{XMLName: xml.Name{Local: "doc"}, S: s}
			if r.Pct(50) {
				x.L = l[:len(l)/2]
			}
			v = reflect.ValueOf(&x).Elem()
			t = v.Type()
			var err error
			doc, err = xml.Marshal(x)
			must(err)
		} else {
			x := map[string]interface{}{"s": s}
			doc, _ = json.Marshal(map[string]interface{}{"s": s, "l": l})
			t = reflect.TypeOf(x)
			f := make([]interface{}, len(l))
			for i := range l {
				f[i] = float64(l[i])
			}
			x["l"] = f
			v = reflect.ValueOf(&x).Elem()
			pos = nil
		}
		if len(doc) > 1<<16 {
			c.Count("over_64k", 1)
		}
		if len(doc) > 1<<20 {
			c.Count("over_1m", 1)
		}
	} else if r.Pct(3) && !isXML { // deep
		n := r.Rng(50, 3000)
		var x interface{} = []interface{}{}
		for i := 1; i < n; i++ {
			x = []interface{}{x}
		}
		doc = []byte(strings.Repeat("[", n) + strings.Repeat("]", n))
		v = reflect.ValueOf(&x).Elem()
		t, pos = v.Type(), nil
		c.Count("deep", 1)
	}
	small := len(doc) < 20000
	if small && !isXML && r.Pct(4) { // a small one in a large body
		pad := pick(r, []int{5000, 65536, 70000, 200_000, 1 << 20})
		blank := []byte(strings.Repeat(r.Str(" ", "\n", "\t \r\n"), pad))
		doc = append(blank, doc...)
		k := len(blank)
		for i := range pos {
			pos[i] += k
		}
		c.Count("padded", 1)
	}

	bind := func(doc []byte, rerr error, target interface{}) (err error, p any, crashed bool, bd *d29body) {
		bd = &d29body{left: doc, r: r, max: pick(r, []int{1, 2, 7, 100, 511, 512, 4096, 1 << 20}), empty: 3, err: io.EOF, with: r.Pct(50)}
		if len(doc) > 100000 && bd.max < 100 {
			bd.max = 4096
		}
		if rerr != nil {
			bd.err = rerr
		}
		req := Req(pick(r, []string{"POST", "PUT", "PATCH", "DELETE"}), "/")
		req.Header.Set("Content-Type", ct)
		req.Body = bd
		req.ContentLength = int64(len(doc))
		if r.Pct(40) {
			req.ContentLength = -1
		} else if r.Pct(10) { // a middleware decoded the body, the header tells of what was sent
			req.ContentLength = int64(r.IntN(len(doc)*2 + 2))
			c.Count("decoded_bodies", 1)
		}
		p, crashed = try(func() {
			if r.Pct(50) {
				c.Count("through_engine", 1)
			}
			err = c16through(c, req, target, b)
		})
		c.Count("empty_reads", bd.empt)
		c.Eval()
		return
	}
	trim := func(d []byte) string {
		if len(d) > 3000 {
			return string(d[:1500]) + " ... " + string(d[len(d)-500:])
		}
		return string(d)
	}

	// the document itself
	got := reflect.New(t)
	err, p, crashed, bd := bind(doc, nil, got.Interface())
	c.Seen(t, string(doc))
	if crashed {
		c.Fail("crash", "binding %s into %s crashed: %v\n%s", kind, t, p, trim(doc))
		return
	}
	if c29null(v) { // refused: C19
		return
	}
	if err != nil {
		c.Fail("refused", "binding a good %s document (%d bytes) into %s failed: %v\n%s", kind, len(doc), t, err, trim(doc))
		return
	}
	if d := diff(got.Elem(), v, "target"); d != "" && !(v.Kind() == reflect.Interface && v.IsNil()) {
		c.Fail("value", "%s of %d bytes: %.3000s\ninto %s\n%s", kind, len(doc), d, t, trim(doc))
		return
	}
	if bd.closed == 0 {
		c.Fail("open", "the body was not closed after binding %s into %s\n%s", kind, t, trim(doc))
		return
	}
	c.Count("bound", 1)
	c.Count("closed", 1)

	// the faults
	for i := r.Rng(1, 4); i > 0; i-- {
		bad := append([]byte{}, doc...)
		var rerr error
		what := ""
		switch r.IntN(5) {
		case 0:
			end := len(doc)
			cut := r.IntN(end)
			if r.Pct(40) {
				cut = max(0, end-1-r.IntN(3))
			}
			bad = bad[:cut]
			what = "truncated"
		case 1:
			cut := r.IntN(len(doc))
			bad = bad[:cut]
			rerr = errC29
			what = "read_errors"
		case 2, 3:
			what = "mutated"
			for k := r.Rng(1, 2); k > 0 && len(bad) > 0; k-- {
				at := r.IntN(len(bad))
				switch r.IntN(4) {
				case 0:
					bad[at] = byte(pick(r, []rune("{}[]\",:\\<>/&;=' \x00ntf0-+.e9a\n")))
				case 1:
					bad = append(bad[:at], bad[at+1:]...)
				case 2:
					bad = append(bad[:at:at], append([]byte(pick(r, []string{"{", "}", "[", "]", "\"", ",", ":", "<", ">", "</doc>", "&", "\\", "0", "-", "+", "1.", "//", "null", "\x01"})), bad[at:]...)...)
				case 3:
					k := min(len(bad), at+r.Rng(1, 10))
					bad = append(bad[:at:at], bad[k:]...)
				}
			}
		case 4:
			what = "type_broken"
			if len(pos) > 1 {
				k := 2 * r.IntN(len(pos)/2)
				bad = append(append(append([]byte{}, doc[:pos[k]]...), pick(r, []string{`"text"`, `{}`, `[]`, `1.5`, `-1`, `99999999999999999999`, `20842010693523398185`, `11111111111`, `2560`, `65537`, `true`, `{"a":1}`, `[1,"x"]`, `1e999`, `300`, `"2020-13-01T00:00:00Z"`, `"***"`, `[null]`, `+1`, `01`, `.5`, `1.`, `NaN`, `'x'`, `nul`, `TRUE`, `"a` + "\n" + `b"`})...), doc[pos[k+1]:]...)
			} else if isXML {
				l := bytes.SplitAfter(doc, []byte(">"))
				k := r.IntN(len(l))
				if j := bytes.IndexByte(l[k], '<'); j >= 0 {
					l[k] = append([]byte(pick(r, []string{"text", "99999999999999999999", "-1", "1.5", "300", "tru", "2020-13-01T00:00:00Z", "&bad;", "&#0;", "", " ", "<x>", "</x>"})), l[k][j:]...)
				}
				bad = bytes.Join(l, nil)
			}
		}
		if len(bad) > 100000 && !small && i > 1 {
			continue
		}
		want, werr := d29std(isXML, bad, t)
		if rerr != nil && werr == nil && rerr == errC29 {
			// the document was whole before the failure: either is right
			continue
		}
		if !isXML && !utf8.Valid(bad) {
			continue
		}
		got := reflect.New(t)
		err, p, crashed, bd := bind(bad, rerr, got.Interface())
		if werr == nil && c29null(want.Elem()) {
			werr = errC29
		}
		if crashed {
			c.Fail("crash", "binding %s (%s) into %s crashed: %v\n%s", kind, what, t, p, trim(bad))
			return
		}
		c.Seen(t, what, string(bad))
		if (err != nil) != (werr != nil) {
			c.Fail(what, "binding %s (%s, read error %v) into %s gave %v, Go's decoder says %v\nnow\n%s\nwas\n%s", kind, what, rerr, t, err, werr, trim(bad), trim(doc))
			return
		}
		if err == nil {
			if d := diff(got.Elem(), want.Elem(), "target"); d != "" {
				c.Fail(what, "binding %s (%s) into %s: %s\n%s", kind, what, t, d, trim(bad))
				return
			}
		} else {
			c.Count(what, 1)
		}
		if bd.closed == 0 {
			c.Fail("open", "the body was not closed after binding %s (%s) into %s gave %v\n%s", kind, what, t, err, trim(bad))
			return
		}
	}

	if r.Pct(10) && len(doc) > 1 && !(t.Kind() != reflect.Struct && t.Kind() != reflect.Map && t.Kind() != reflect.Slice) {
		c29endless(c, b, ct, doc, t)
	}
	if r.Pct(6) && len(doc) > 1 {
		c29conn(c, isXML, b, ct, doc, v)
	}
	c.Sample(func() any { return map[string]any{"format": kind, "type": t.String(), "document": trim(doc)} })
}

// d29more never comes to an end by itself: what follows the document goes on and on.
type d29more struct {
	doc    []byte
	fill   byte
	n      int
	closed bool
}

func (b *d29more) Read(p []byte) (int, error) {
	if b.n > 64<<20 {
		return 0, errC29
	}
	if len(b.doc) > 0 {
		n := copy(p, b.doc)
		b.doc = b.doc[n:]
		return n, nil
	}
	for i := range p {
		p[i] = b.fill
	}
	b.n += len(p)
	return len(p), nil
}
func (b *d29more) Close() error { b.closed = true; return nil }

// c29endless sends a document and never stops after it: binding finishes all the same.
func c29endless(c *C, b binding.Bindinger, ct string, doc []byte, t reflect.Type) {
	bd := &d29more{doc: doc, fill: pick(c.R, []byte(" \nx{<\x00"))}
	req := Req("POST", "/")
	req.Header.Set("Content-Type", ct)
	req.Body, req.ContentLength = bd, -1
	target := reflect.New(t)
	var err error
	if p, crashed := try(func() { err = c16through(c, req, target.Interface(), b) }); crashed {
		c.Fail("crash", "binding a document with an endless rest into %s crashed: %v", t, p)
		return
	}
	c.Eval()
	c.Count("endless", 1)
	if bd.n > 64<<20 {
		c.Fail("endless", "binding %.300q into %s did not finish at the document's end but went on reading for %d bytes of %q (%v)", doc, t, bd.n, bd.fill, err)
		return
	}
	if !bd.closed {
		c.Fail("open", "the body was not closed after binding a document with an endless rest into %s", t)
	}
}

// c29null reports a null in the layers of pointers, slices and arrays around the target's values.
func c29null(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || c29null(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if c29null(v.Index(i)) {
				return true
			}
		}
	}
	return false
}

// c29conn binds on a real connection: all at once, chunked, or cut in the middle.
func c29conn(c *C, isXML bool, b binding.Bindinger, ct string, doc []byte, v reflect.Value) {
	r := c.R
	got := reflect.New(v.Type())
	var err error
	done := make(chan bool, 1)
	rt := water.NewRouter()
	rt.POST("/", func(x *water.Context) {
		err = x.Bind(got.Interface())
		x.WriteHeader(204)
		done <- true
	})
	s := Listen(rt.Handler())
	defer s.Close()
	var raw bytes.Buffer
	mode := r.IntN(4)
	cut := r.IntN(len(doc))
	hd := [][2]string{{"Content-Type", ct}}
	if mode&1 == 0 {
		raw.Write(Line("POST", "/", hd, doc))
		if mode == 2 {
			raw.Truncate(raw.Len() - len(doc) + cut)
		}
	} else {
		raw.Write(Line("POST", "/", append(hd, [2]string{"Transfer-Encoding", "chunked"}), nil))
		d := doc
		if mode == 3 {
			d = doc[:cut]
		}
		for len(d) > 0 {
			n := min(len(d), r.Rng(1, 1+len(doc)/3))
			fmt.Fprintf(&raw, "%x\r\n%s\r\n", n, d[:n])
			d = d[n:]
		}
		if mode == 1 {
			raw.WriteString("0\r\n\r\n")
		}
	}
	conn := s.Dial()
	defer conn.Close()
	sent := make(chan bool)
	go func() {
		defer close(sent)
		d := raw.Bytes()
		for len(d) > 0 {
			n := min(len(d), 60000)
			if _, e := conn.Write(d[:n]); e != nil {
				return
			}
			d = d[n:]
		}
		if mode >= 2 {
			conn.(interface{ CloseWrite() error }).CloseWrite()
		}
	}()
	await(done)
	c.Eval()
	if mode < 2 {
		<-sent
		c.Count("chunked_connection", mode)
		if err != nil {
			c.Fail("refused", "on a connection (mode %d) binding failed: %v\n%.3000s", mode, err, doc)
			return
		}
		if d := diff(got.Elem(), v, "target"); d != "" && !(v.Kind() == reflect.Interface && v.IsNil()) {
			c.Fail("value", "on a connection (mode %d): %.2000s\n%.3000s", mode, d, doc)
		}
		return
	}
	if _, werr := d29std(isXML, doc[:cut], v.Type()); werr != nil {
		c.Count("cut_connection", 1)
		if err == nil {
			c.Fail("truncated", "the connection was cut after %d of %d bytes, binding succeeded\n%.3000s", cut, len(doc), doc)
		}
	}
}

// c29odd: no body, an empty one, and targets nothing can be bound into.
func c29odd(c *C, isXML bool, b binding.Bindinger, ct string) {
	r := c.R
	type T struct {
		A int `json:"a" xml:"a"`
	}
	var target interface{} = &T{}
	req := Req(pick(r, []string{"POST", "PUT", "PATCH"}), "/")
	req.Header.Set("Content-Type", ct)
	var bd *d29body
	what := ""
	switch r.IntN(4) {
	case 0:
		req.Body = nil
		what = "no body"
		c.Count("missing_bodies", 1)
	case 1:
		req.Body = http.NoBody
		what = "an empty body"
		c.Count("missing_bodies", 1)
	case 2:
		bd = &d29body{left: []byte(pick(r, []string{"", " ", "\n\n", "\t  ", "\xef\xbb\xbf"})), r: r, max: 10, err: io.EOF}
		what = "a blank body"
		c.Count("missing_bodies", 1)
	case 3:
		bd = &d29body{r: r, max: 10, err: errC29}
		what = "a body failing at once"
		c.Count("read_errors", 1)
	}
	if bd != nil {
		req.Body = bd
	}
	var err error
	p, crashed := try(func() { err = c16through(c, req, target, b) })
	c.Eval()
	c.Seen(what, isXML, ct)
	if crashed {
		c.Fail("crash", "binding with %s crashed: %v", what, p)
		return
	}
	if err == nil {
		c.Fail("missing", "binding with %s succeeded: %+v", what, target)
		return
	}
	if bd != nil && bd.closed == 0 {
		c.Fail("open", "the body was not closed after binding with %s gave %v", what, err)
	}
	// a request that is no request at all
	if p, crashed := try(func() { err = b.Bind(nil, &T{}) }); crashed || err == nil {
		c.Fail("missing", "binding a nil request: %v, panic %v", err, p)
	}
}
